#!/bin/bash
# Build nvc from /repo's current working tree, out of tree.
#   lib/build.sh [full-preload]     prints the build directory on stdout
# The result is keyed by the content of the sources, so an unchanged tree is
# built once; nothing is ever written under /repo.
set -u
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export LANG=C.UTF-8 LC_ALL=C.UTF-8
unset MAKEFLAGS MAKELEVEL CFLAGS CXXFLAGS LDFLAGS CPPFLAGS DESTDIR NVC_LIBPATH
V=$(cd "$(dirname "$0")/.." && pwd)
R=${VERIF_REPO:-/repo}
MODE=${1:-basic}
cd "$R" || exit 2
KEY=$( (find src lib thirdparty m4 configure.ac Makefile.am -type f \
          ! -name '*.o' ! -name '*~' -print0 2>/dev/null | LC_ALL=C sort -z | \
          xargs -0 sha256sum; cat "$V/lib/build.sh") | sha256sum | cut -c1-16)
B=$V/.build/$KEY
mkdir -p "$V/.build"
exec 9>"$V/.build/lock"
flock 9
if [ ! -f "$B/ok" ]; then
   # keep at most the four most recent other builds
   ls -1dt "$V"/.build/*/ 2>/dev/null | tail -n +5 | while read -r old; do rm -rf "$old"; done
   rm -rf "$B"
   mkdir -p "$B/src" "$B/bld/.git/logs" "$B/src/.git/logs"
   tar -C "$R" --exclude=./_build --exclude=./.git --exclude=./test/regress \
       --exclude=./autom4te.cache -cf - . | tar -C "$B/src" -xf - || exit 2
   touch "$B/bld/.git/logs/HEAD" "$B/src/.git/logs/HEAD"
   if [ ! -f "$B/src/configure" ] || [ ! -f "$B/src/config.h.in" ] || [ ! -f "$B/src/Makefile.in" ]; then
      (cd "$B/src" && autoreconf --force --install -I m4) >"$B/autoreconf.log" 2>&1 || {
         tail -20 "$B/autoreconf.log" >&2; exit 2; }
   fi
   cd "$B/bld" || exit 2
   CC=gcc CXX=g++ CFLAGS="-g1 -O2" CXXFLAGS="-g1 -O1" ../src/configure --enable-debug \
      --enable-server --disable-dependency-tracking \
      --with-llvm=/usr/bin/llvm-config-18 >configure.log 2>&1 || { tail -20 configure.log >&2; exit 2; }
   cat > vf.mk <<'M'
include Makefile
vflibs: $(std_08_DATA) $(nvc_08_DATA) $(ieee_08_DATA) \
        $(std_DATA) $(nvc_DATA) $(ieee_DATA) \
        $(std_19_DATA) $(nvc_19_DATA) $(ieee_19_DATA)
M
   NOREGEN="AUTOCONF=: AUTOMAKE=: ACLOCAL=: AUTOHEADER=:"
   { make $NOREGEN -j8 gitsha.h && make $NOREGEN -j8 bin/nvc && \
     make $NOREGEN -f vf.mk -j8 vflibs; } >make.log 2>&1 || { tail -30 make.log >&2; exit 2; }
   # "-e" without --jit insists on a preload library: build a small one.
   for v in 1993:93:std:nvc 2008:08:std.08:nvc.08 2019:19:std.19:nvc.19; do
      IFS=: read -r s p d n <<<"$v"
      bin/nvc --work=lib/$d -L lib/ --std=$s --aotgen -O0 -o lib/preload$p.so std nvc >>make.log 2>&1 &
   done
   wait
   ls lib/preload93.so lib/preload08.so lib/preload19.so >/dev/null || { tail -30 make.log >&2; exit 2; }
   touch "$B/ok"
fi
if [ "$MODE" = full-preload ] && [ ! -f "$B/ok-preload" ]; then
   cd "$B/bld" || exit 2
   mkdir -p full && for d in lib/*/; do ln -sfn "../$d" full/$(basename $d); done
   bin/nvc --work=lib/std.08 -L lib/ --std=2008 --aotgen -O2 -o full/preload08.so std nvc ieee >>make.log 2>&1 || exit 2
   touch "$B/ok-preload"
fi
touch "$B"
echo "$B/bld"
