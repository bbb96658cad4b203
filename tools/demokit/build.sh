# usage: . build.sh; build CONFIG demo.c out [extra flags] -- builds demo.c with collector CONFIG from ./src (cwd = the repository)
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d); trap 'rm -rf "$work"' EXIT
build() {
  local cfg=$1 src=$2 out=$3; shift 3
  local f="-DGC_PRECISE_ROOTS=1" c=mmc
  case $cfg in
    semi) c=semi;;
    pcc) c=pcc; f="$f -DGC_PARALLEL=1";;
    generational-pcc) c=pcc; f="$f -DGC_PARALLEL=1 -DGC_GENERATIONAL=1";;
    *) case $cfg in stack-conservative-*|heap-conservative-*) f="-DGC_CONSERVATIVE_ROOTS=1";; esac
       case $cfg in heap-conservative-*) f="$f -DGC_CONSERVATIVE_TRACE=1";; esac
       case $cfg in *parallel*) f="$f -DGC_PARALLEL=1";; esac
       case $cfg in *generational*) f="$f -DGC_GENERATIONAL=1";; esac;;
  esac
  local srcs= x
  for x in src/*.c; do case $x in src/bdw.c|src/mmc.c|src/pcc.c|src/semi.c) ;; *) srcs="$srcs $x";; esac; done
  gcc -O2 -g -w -D_GNU_SOURCE=1 -std=gnu11 -fno-strict-aliasing -fvisibility=hidden ${DEMO_DEBUG:--DNDEBUG=1} $f \
    "-DGC_ATTRS=\"$PWD/api/$c-attrs.h\"" "-DGC_EMBEDDER=\"$here/demo-embedder.h\"" -DCOLLECTOR_$c=1 "$@" \
    -Iapi -Isrc -I"$here" src/$c.c $srcs "$here/$src" -o "$out" -lpthread -lm
}
