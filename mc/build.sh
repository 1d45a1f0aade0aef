#!/bin/bash
# build.sh VARIANT  - compiles /repo's current sources together with the harness.
# VARIANT: mc (plain), asan (address checking), sig (every memory access is an event, see inj.hh)
set -e
cd "$(dirname "$0")"
V=${1:-mc}; R=${REPO:-/repo}; B=../build/$V; mkdir -p $B
exec 9>$B/.lock; flock 9
export LC_ALL=C; unset MAKEFLAGS MFLAGS MAKELEVEL
CF="-g -O1 -w"; HF="-g -O2"; LK=""
if [ $V = asan ]; then CF="-g -O1 -w -fsanitize=address -fno-omit-frame-pointer"; HF="-g -O1 -fsanitize=address -DNOSYS"; LK="-fsanitize=address"; fi
# allocations of the regular expression library are not events
LD="-Dmalloc=mc_lib_malloc -Dcalloc=mc_lib_calloc -Drealloc=mc_lib_realloc "; [ $V = asan ] && LD=""
SF=$CF; [ $V = asan ] || SF="$CF -Dmalloc=mc_ed_malloc -Dcalloc=mc_ed_calloc -Drealloc=mc_ed_realloc -Dfree=mc_ed_free"; [ $V = sig ] && SF="$SF -fsanitize=thread"
# Configuration products are git-ignored; recreate them in a scratch copy if absent.
if [ ! -f $R/config.h ] || [ ! -f $R/lib/regex.h ]; then
  C=$PWD/../build/cfg; mkdir -p $C
  if [ ! -f $C/config.h ]; then
    cp -a $R/. $C/ && ( cd $C && { [ -x configure ] || ./autogen.sh --silent; } && ./configure --enable-all-extensions --with-included-regex CC=gcc CXX=g++ && make config.h && make -C lib -j8 all ) >$B/cfg.log 2>&1 || { tail -5 $B/cfg.log; exit 5; }
  else cp -a $R/src $R/include $C/; fi
  R=$C
fi
rm -f $B/ed_*.o
INC="-DHAVE_CONFIG_H -I$R/src -I$R -I$R/lib -I$R/include -DLOCALEDIR='\"/usr/share/locale\"' -Dmain=ed_main"
L=""
for f in $R/src/*.c; do echo "gcc $SF $INC -c $f -o $B/ed_$(basename $f .c).o"; done >$B/cmds
# gnulib: recompile the members of the library from the current sources too
mkdir -p $B/lib
for f in btowc hard-locale localcharset mbrtowc mbszero regex setlocale_null setlocale_null-unlocked unistd wctype-h malloc/dynarray_at_failure malloc/dynarray_emplace_enlarge malloc/dynarray_finalize malloc/dynarray_resize malloc/dynarray_resize_clear glthread/lock glthread/threadlib; do
  [ -f $R/lib/$f.c ] && echo "gcc $CF $LD $INC -c $R/lib/$f.c -o $B/ed_lib_$(basename $f).o"
done >>$B/cmds
HH=$(cat *.hh *.cc build.sh wraps*.txt | sha256sum | cut -c1-16)
if [ ! -f $B/h_$HH.ok ]; then
  rm -f $B/h_*
  for f in *.cc; do echo "g++ -std=c++17 $HF -w -c $f -o $B/h_${f%.cc}.o"; done >>$B/cmds
fi
tr '\n' '\0' <$B/cmds | xargs -0 -P 8 -I{} sh -c '{} || exit 255' >$B/log 2>&1 || { head -30 $B/log; exit 5; }
touch $B/h_$HH.ok
if [ -f $B/ed_main.o ]; then :; fi
W=wraps.txt; [ $V = asan ] || W="wraps.txt wraps-static.txt"
WR=$(cat $W | sed 's/^/-Wl,--wrap=/' | tr '\n' ' ')
STATIC=-static; [ $V = asan ] && STATIC=
g++ $LK $STATIC $B/ed_*.o $B/h_*.o -o $B/mc.new -lssl -lcrypto $WR 2>$B/link.log && mv $B/mc.new $B/mc
