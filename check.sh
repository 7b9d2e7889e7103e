#!/bin/bash
# check.sh <property> [--replay file | --case group:index]   runs one property's check
# check.sh --build                                            builds everything
# Exit 0: held; 1: VIOLATION printed; 2: no answer (build failure, too little observed, timeout).
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export VERIF_ROOT=$PWD VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick}
. ./env.sh
mkdir -p evidence replays build/parts

# --- builds of harness and code under test -------------------------------------------------------
RELEASE=./harness/target/release/harness
PLAIN=./build/plain/plain/harness
ASAN=./build/asan/x86_64-unknown-linux-gnu/san/harness
TSAN=./build/tsan/x86_64-unknown-linux-gnu/san/harness
# abort instead of exit, so that the crash handler names the case
export ASAN_OPTIONS=detect_leaks=0:abort_on_error=1:handle_segv=0:handle_abort=0:handle_sigill=0:handle_sigfpe=0:handle_sigbus=0:detect_stack_use_after_return=0
export TSAN_OPTIONS="halt_on_error=1:abort_on_error=1:handle_segv=0:handle_abort=0:handle_sigill=0:handle_sigfpe=0:handle_sigbus=0:history_size=4"

built() { # built <name> <command...>
  local n=$1; shift
  "$@" >build/$n.log 2>&1 || { tail -40 build/$n.log; echo "INCONCLUSIVE the $n build failed"; exit 2; }
}
cargo_release() { (cd harness && cargo build --release --offline --locked); }
# Rust without optimisation; comparisons stay calls, wherever generic code ends up
cargo_plain() { (cd harness && RUSTFLAGS="-Cllvm-args=-max-loads-per-memcmp=0" cargo build --profile plain --offline --locked --target-dir ../build/plain); }
cargo_san() { # cargo_san <dir> <rust sanitizer> <clang flags>
  (cd harness && RUSTUP_TOOLCHAIN=nightly CC=clang CFLAGS="$CFLAGS -g -fno-omit-frame-pointer $3" \
    RUSTFLAGS="-Zsanitizer=$2 $4" \
    cargo build -Zbuild-std=std,panic_unwind --profile san --offline --locked --target x86_64-unknown-linux-gnu --target-dir "../build/$1")
}
build_release() { built release cargo_release; }
build_plain() { built plain cargo_plain; }
build_asan() { built asan cargo_san asan address "-fsanitize=address,undefined -fsanitize-trap=undefined -fno-sanitize-recover=all"; }
# (with delays after atomic operations, harness/src/jolt.rs)
JOLTS="--cfg harness_jolts"
for w in 8 16 32 64; do
  for x in load store compare_exchange_{val,strong,weak} exchange fetch_{add,sub,and,or,xor}; do JOLTS="$JOLTS -Clink-arg=-Wl,--wrap=__tsan_atomic${w}_$x"; done
done
build_tsan() { built tsan cargo_san tsan thread "-fsanitize=thread" "$JOLTS"; }
# The second bundled copy of the hash code, as a library of its own
hash_copy() {
  local d=/repo/pqcrypto/pqclean/common o=$PWD/build/hashcopy f
  mkdir -p "$o"
  for f in aes fips202 sha2 sp800-185 nistseedexpander; do
    gcc -O2 -g -fPIC -w -I"$d" -c "$d/$f.c" -o "$o/$f.o" || return 1
  done
  gcc -O2 -g -fPIC -w -mavx2 -I"$d/keccak4x" -c "$d/keccak4x/KeccakP-1600-times4-SIMD256.c" -o "$o/keccak4x.o" || return 1
  gcc -shared -Wl,-Bsymbolic -o "$o/libhashcopy.so" "$o"/*.o
}
build_hash_copy() { built hashcopy hash_copy; }
# The bundled C source of randomness, for each way in which it can reach the kernel (harness/cshim)
rb() {
  local d=/repo/pqcrypto/pqclean/common o=$PWD/build/rb m
  mkdir -p "$o"
  gcc -O2 -fPIC -c harness/cshim/rb_hook.c -o "$o/hook.o" || return 1
  for m in 0 1 2; do
    gcc -O2 -g -fPIC -w -U_FORTIFY_SOURCE -I"$d" -include harness/cshim/rb.h -DVP_MODE=$m -c "$d/randombytes.c" -o "$o/rb$m.o" || return 1
    gcc -shared -Wl,-Bsymbolic "$o/rb$m.o" "$o/hook.o" -o "$o/librb$m.so" || return 1
  done
}
build_rb() { built rb rb; }
export HARNESS_RB=$VERIF_ROOT/build/rb
export HARNESS_HASH_COPY=$VERIF_ROOT/build/hashcopy/libhashcopy.so

# no process runs longer than this: one that hangs gives no answer, the others still do
if [ "$VERIF_TIER" = quick ]; then LIMIT=600; else LIMIT=3000; fi

# --- runs ----------------------------------------------------------------------------------------
# Runs one process; its output goes to build/parts/<property>-<part>.*
part() { # part <property> <variant> <part> <command...>
  local o=build/parts/$1-$3 v=$2 t=$3; shift 3
  HARNESS_VARIANT=$v HARNESS_TAG=$t HARNESS_EVIDENCE=$VERIF_ROOT/$o.json timeout -k 5 $LIMIT "$@" >$o.out 2>$o.err
  echo $? >$o.rc
}
# Judges it: turns a crash of the code under test into a violation with a replay file
judge() { # judge <property> <variant> <part>
  local prop=$1 variant=$2 o=build/parts/$1-$3 rc
  rc=$(cat $o.rc 2>/dev/null || echo 2)
  cat $o.out
  case $rc in
    0|1) return $rc;;
    77|132|134|135|136|139|66) ;;
    *) tail -20 $o.err; return 2;;
  esac
  local c sig f
  c=$(grep -aho 'case=[^:]*:[0-9]*' $o.out $o.err | tail -1 | sed 's/.*case=//')
  sig=$(grep -aho 'CRASH sig=[0-9]*' $o.out $o.err | tail -1)
  f=$VERIF_ROOT/replays/$prop-$3-crash.json
  printf '{"property": "%s", "group": "%s", "case": %s, "seed": %s, "tier": "%s", "variant": "%s", "signature": "crash %s rc=%s", "replay": "cd /verif && ./check.sh %s --replay %s"}\n' \
    "$prop" "${c%:*}" "${c##*:}" "$VERIF_SEED" "$VERIF_TIER" "$variant" "$sig" "$rc" "$prop" "$f" >"$f"
  echo "VIOLATION property=$prop replay=$f"
  echo "  crash of the code under test ($variant): $sig rc=$rc in case ${c:-unknown}"
  tail -c 4000 $o.err | grep -av '^$' | head -50
  printf '{"property": "%s", "tier": "%s", "seed": %s, "level": "exploration", "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": "crashed", "observed": {}, "cases_per_group": {}, "cases_skipped_for_time": 0, "build": "%s", "samples": ["%s"]}, "assumptions": [], "wall_s": 0, "violations": 1}\n' \
    "$prop" "$VERIF_TIER" "$VERIF_SEED" "$variant" "$c" >$o.json
  return 1
}
# Splits the cases over n processes with one thread each
shards() { # shards <property> <variant> <n> <command...>
  local p=$1 v=$2 n=$3 i; shift 3
  for ((i = 0; i < n; i++)); do HARNESS_SHARD=$i/$n HARNESS_THREADS=1 part $p $v $v$i "$@" & done
  wait
  for ((i = 0; i < n; i++)); do PARTS+=("$v $v$i"); done
}
whole() { # whole <property> <variant> <command...>
  local p=$1 v=$2; shift 2
  HARNESS_SHARD=0/1 part $p $v $v "$@"
  PARTS+=("$v $v")
}
# Judges all parts and writes the evidence
conclude() { # conclude <property>
  local x rc code=0 bad=0 f=()
  for x in "${PARTS[@]}"; do
    judge $prop $x; rc=$?
    f+=("build/parts/$prop-${x#* }.json")
    [ $rc -eq 1 ] && code=1
    [ $rc -gt 1 ] && bad=2
  done
  python3 tools/merge_evidence.py "evidence/$prop.json" "${f[@]}" || bad=2
  [ $code -eq 0 ] && code=$bad
  exit $code
}
VALGRIND=(valgrind -q --error-limit=no --num-callers=16 --main-stacksize=67108864)
# The command of a variant of a property, for replays
run_variant() { # run_variant <variant> <args...>
  local v=$1; shift
  case $v in
    asan) build_asan; set -- "$ASAN" "$@";;
    tsan) build_tsan; set -- "$TSAN" "$@";;
    memcheck) build_release; set -- "${VALGRIND[@]}" $RELEASE "$@"; export HARNESS_THREADS=1;;
    taint) build_release; set -- "${VALGRIND[@]}" $RELEASE "$@"; export HARNESS_THREADS=1;;
    taint-plain) build_plain; set -- "${VALGRIND[@]}" $PLAIN "$@"; export HARNESS_THREADS=1;;
    *) build_release; [ "$prop" = C26 ] && build_hash_copy; [ "$prop" = C25 ] && build_rb; set -- $RELEASE "$@";;
  esac
  part $prop $v replay "$@"
  judge $prop $v replay
  exit $?
}

prop=$1; shift
PARTS=()
if [ "$prop" = --build ]; then
  build_release; build_asan; build_tsan; build_plain; build_hash_copy; build_rb
  exit 0
fi
if [ $# -gt 0 ]; then
  v=$VARIANT
  [ "$1" = --replay ] && v=$(sed -n 's/.*"variant": "\([^"]*\)".*/\1/p' "$2")
  run_variant "${v:-release}" "$prop" "$@"
fi
rm -f -- "$VERIF_ROOT/evidence/$prop.json"
find "$VERIF_ROOT/build/parts" -name "$prop-*" -delete
N=$(nproc)
# no process begins cases for longer than this (only on a busy machine does one come near it)
if [ "$VERIF_TIER" = quick ]; then
  case $prop in
    C22) export HARNESS_BUDGET=${HARNESS_BUDGET:-180};;
    C23|C24) export HARNESS_BUDGET=${HARNESS_BUDGET:-250};;
    *) export HARNESS_BUDGET=${HARNESS_BUDGET:-360};;
  esac
fi
case $prop in
  C22)
    build_release; build_asan
    whole C22 release $RELEASE C22
    whole C22 asan $ASAN C22
    shards C22 memcheck $N "${VALGRIND[@]}" $RELEASE C22;;
  C24)
    build_release; build_plain
    shards C24 taint $N "${VALGRIND[@]}" $RELEASE C24
    shards C24 taint-plain $N "${VALGRIND[@]}" $PLAIN C24;;
  C23)
    build_release; build_tsan
    shards C23 release 2 $RELEASE C23
    shards C23 tsan 4 $TSAN C23;;
  *)
    build_release
    [ "$prop" = C26 ] && build_hash_copy; [ "$prop" = C25 ] && build_rb
    # how many times the cases listed in the code, where they are cheap
    if [ "$VERIF_TIER" = quick ]; then
      case $prop in
        C01|C02|C03|C04|C05|C06|C07|C08|C09|C10|C11|C12|C14|C15|C16) export HARNESS_SCALE=${HARNESS_SCALE:-4};;
        C19|C26) export HARNESS_SCALE=${HARNESS_SCALE:-4};;
        C17|C18|C20|C21) export HARNESS_SCALE=${HARNESS_SCALE:-2};;
      esac
    fi
    whole $prop release $RELEASE $prop;;
esac
conclude
