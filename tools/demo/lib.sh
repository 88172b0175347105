# helper of the demonstrations: builds demo.c against the built library
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
B=/repo/_build
gcc -w -g -D_GNU_SOURCE -DGLPK $DEMOFLAGS -rdynamic -I/repo/include -I/repo/lib -o "$work/demo" "$here/demo.c" -L$B -lpluto -lisl -lgmp -lglpk -lgomp -lm -ldl \
  -Wl,-rpath,$B -Wl,--unresolved-symbols=ignore-in-shared-libs -Wl,-z,lazy || exit 0
cd "$work"
demo() { timeout 120 ./demo "$@"; }
