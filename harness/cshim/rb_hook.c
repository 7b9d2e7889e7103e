#include <stddef.h>
long (*vp_hook)(int op, void *p, size_t n);
