#!/bin/bash
# buildlib.sh VARIANT [app]: compiles the library sources of /repo's working tree.
# Output: build/VARIANT/lib.a . Rebuilds when any source or the flags changed (content hash).
set -e
cd "$(dirname "$0")"
V=$1
REPO=${VP_REPO:-/repo}
case $V in
 opt)   CC=gcc;   FLAGS="-O2 -g -w" ;;
 asan)  CC=gcc;   FLAGS="-O1 -g -w -fsanitize=address,undefined -fno-sanitize-recover=all -fno-omit-frame-pointer" ;;
 debug) CC=gcc;   FLAGS="-O2 -g -w -DDEBUG" ;;
 dasan) CC=gcc;   FLAGS="-O1 -g -w -DDEBUG -fsanitize=address,undefined -fno-sanitize-recover=all -fno-omit-frame-pointer" ;;
 zero)  CC=gcc;   FLAGS="-O2 -g -w" ;; # the configuration with 0-based arrays: NIL is -1
 zasan) CC=gcc;   FLAGS="-O1 -g -w -fsanitize=address,undefined -fno-sanitize-recover=all -fno-omit-frame-pointer" ;;
 steps) CC=gcc;   FLAGS="-O1 -g -w -fno-builtin -fsanitize-coverage=trace-pc" ;;
 *) echo "unknown variant $V" >&2; exit 2 ;;
esac
SRCS=$(cd $REPO/c/graphLib && find . -name '*.c' | LC_ALL=C sort)
H=$( (echo "$CC $FLAGS"; cd $REPO/c && find . -name '*.[ch]' | LC_ALL=C sort | xargs sha256sum) | sha256sum | cut -c1-32)
D=build/$V-$H
if [ ! -f $D/lib.a ]; then
  rm -rf build/$V-*
  mkdir -p $D
  INC=$REPO/c/graphLib
  if [ $V = zero ] || [ $V = zasan ]; then
    cp -r $INC $D/graphLib; INC=$D/graphLib
    printf '\n#undef NIL\n#undef NIL_CHAR\n#define NIL -1\n#define NIL_CHAR 0xFF\n' >> $INC/lowLevelUtils/appconst.h
  fi
  for s in $SRCS; do echo "$s"; done | xargs -P 8 -I{} bash -c 'o='$D'/$(echo {} | tr "/." "__").o; '$CC' '"$FLAGS"' -I'$INC' -c '$INC'/{} -o $o'
  ar rcs $D/lib.tmp.a $D/*.o && mv $D/lib.tmp.a $D/lib.a
fi
# the command-line program: as a library with its main renamed, and as an executable
if [ -n "$2" ] && [ ! -x $D/planarity ]; then
  A=$D/app; mkdir -p $A
  (cd $REPO/c/planarityApp && ls *.c) | xargs -P 8 -I{} bash -c '$0 $1 -c '$REPO'/c/planarityApp/{} -o '$A'/{}.o; $0 $1 -Dmain=planarity_main -c '$REPO'/c/planarityApp/{} -o '$A'/{}.r.o' $CC "$FLAGS"
  rm -f $D/app.a; ar rcs $D/app.a $A/*.r.o
  $CC $FLAGS $(ls $A/*.c.o) $D/lib.a -lm -o $D/planarity.tmp && mv $D/planarity.tmp $D/planarity
fi
echo $D
