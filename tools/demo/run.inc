# sourced by demo.sh: build demo.cc (and preload.c if present) against /repo's build, in a scratch directory
D="$(cd "$(dirname "$0")" && pwd)"
B=/repo/_build
W="$(mktemp -d /tmp/demo.XXXXXX)"
trap 'rm -rf "$W"' EXIT
export FIMEX_IO_PLUGINS_PATH=$B/src/io/netcdf:$B/src/io/grib:$B/src/io/felt
export LD_LIBRARY_PATH=$B/src:$B/src/io/netcdf:$B/src/io/grib:$B/src/io/felt
L=$(ls $B/src/libfimex-*.so | head -1)
g++ -std=c++17 -O1 -g -fopenmp -I/repo/include -I/repo/src -I$B/include -I$B/src -I"$D" -o "$W/demo" "$D/demo.cc" "$L" -lnetcdf -lpthread ${DEMO_LIBS:-} || exit 99
if [ -f "$D/preload.c" ]; then gcc -O1 -shared -fPIC -o "$W/preload.so" "$D/preload.c" -ldl -lpthread -Wl,--no-as-needed -lnetcdf || exit 99; fi
cd "$W"
