/* Included before pqclean/common/randombytes.c: its system calls become calls of vp_hook, which the
   harness answers. With VP_MODE 1 the C library has no getrandom(), with 2 the kernel has none either. */
#define _GNU_SOURCE
#include <assert.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/ioctl.h>
#include <sys/param.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <unistd.h>
#if VP_MODE == 0
#include <sys/random.h>
#else
#undef __GLIBC_MINOR__
#define __GLIBC_MINOR__ 17
#endif
#if VP_MODE == 2
#undef SYS_getrandom
#endif

enum { VP_GETRANDOM, VP_OPEN, VP_IOCTL, VP_POLL, VP_READ, VP_CLOSE, VP_FOPEN, VP_FSCANF, VP_FCLOSE };
/* The result, or minus the error number */
extern long (*vp_hook)(int op, void *p, size_t n);
static inline long vp_call(int op, void *p, size_t n) {
    long r = vp_hook(op, p, n);
    if (r < 0) {
        errno = (int)-r;
        return -1;
    }
    return r;
}
#define VP_ARG(a, ...) a
static inline ssize_t vp_getrandom(void *p, size_t n) { return vp_call(VP_GETRANDOM, p, n); }
#if VP_MODE == 0
#define getrandom(p, n, flags) vp_getrandom(p, n)
#elif VP_MODE == 1
#define syscall(nr, p, n, flags) ((nr) == SYS_getrandom ? vp_getrandom((void *)(p), n) : (abort(), -1))
#endif
#define open(path, ...) ((int)vp_call(VP_OPEN, (void *)(path), 0))
#define ioctl(fd, what, out) ((int)vp_call(VP_IOCTL, out, (size_t)(fd)))
#define poll(pfd, n, timeout) ((int)vp_call(VP_POLL, pfd, n))
#define read(fd, p, n) ((ssize_t)vp_call(VP_READ, p, n))
#define close(fd) ((int)vp_call(VP_CLOSE, 0, (size_t)(fd)))
#define fopen(path, mode) ((FILE *)vp_call(VP_FOPEN, (void *)(path), 0))
#define rewind(f) ((void)(f))
#define fscanf(f, format, out) ((int)vp_call(VP_FSCANF, out, 0))
#define fclose(f) ((int)vp_call(VP_FCLOSE, 0, 0))
