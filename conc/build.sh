#!/bin/bash
# build.sh SRC BLD OUT: the explorer and the code under test
S=$1; B=$2; O=$3; H=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$O" && cd "$O" || exit 2
gcc -O2 -g -rdynamic -w -o mc "$H/rt.c" -ldl || exit 2
R=()
for p in pthread_create pthread_join pthread_self pthread_kill pthread_sigmask; do R+=(--redefine-sym $p=mc_$p); done
for p in mutex_lock mutex_unlock mutex_trylock cond_wait cond_broadcast cond_signal; do R+=(--redefine-sym pthread_$p=mc_$p); done
for p in sem_init sem_post sem_wait sem_timedwait sem_trywait sigaction sigsuspend sched_yield usleep \
   rand atexit getenv free malloc memcmp; do R+=(--redefine-sym $p=mc_$p); done
R+=(--redefine-sym __assert_fail=mc_assert_fail --weaken-symbol spin_wait --redefine-sym __errno_location=mc_errno_location)
for f in thread hash ident; do
   # Shorter spinning and smaller initial tables only make more behaviours
   # reachable within the bounds; nothing depends on the substitution.
   sed -e 's/^#define LOCK_SPINS .*/#define LOCK_SPINS 1/' -e 's/^#define YIELD_SPINS .*/#define YIELD_SPINS 0/' \
       -e 's/^#define INITIAL_SIZE .*/#define INITIAL_SIZE 4/' -e 's/^#define REPROBE_LIMIT .*/#define REPROBE_LIMIT 2/' \
       "$S/src/$f.c" > "$f.c" || exit 2
done
for f in thread hash ident scen; do
   src=$f.c; [ $f = scen ] && src="$H/scen.c"
   clang -g -O1 -fno-inline -fPIC -fsemantic-interposition -femulated-tls -fsanitize=thread \
      -mllvm -tsan-instrument-func-entry-exit=0 -fno-builtin-memcmp -U__SSE4_1__ -U_FORTIFY_SOURCE \
      -w -std=gnu11 -DHAVE_CONFIG_H -I"$B" -I"$S/src" -I"$S/thirdparty" -I"$S" -c "$src" -o $f.o || exit 2
   objcopy "${R[@]}" $f.o || exit 2
done
# Anything else the code calls ends the run as a harness error
X=
nm -u thread.o hash.o ident.o scen.o | awk '$1=="U"{print $2}' | sort -u > want
{ nm --defined-only mc thread.o hash.o ident.o scen.o 2>/dev/null | awk 'NF==3{print $3}'; nm -D --defined-only /lib/x86_64-linux-gnu/libc.so.6 /lib/x86_64-linux-gnu/libm.so.6 | awk '{print $NF}' | sed 's/@.*//'; } | sort -u > have
comm -23 want have | grep -v '^__emutls\|_GLOBAL_OFFSET' | while read -r s; do echo "void $s(void) { extern void mc_missing(const char *) ; mc_missing(\"$s\"); }"; done > missing.c
gcc -w -fPIC -c missing.c -o missing.o && X=missing.o
clang -shared -Wl,-z,lazy -Wl,-Bsymbolic-non-weak-functions -o subj.so thread.o hash.o ident.o scen.o $X 2>/dev/null || \
gcc -shared -Wl,-z,lazy -o subj.so thread.o hash.o ident.o scen.o $X || exit 2
