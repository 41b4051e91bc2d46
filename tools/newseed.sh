#!/bin/bash
# tools/newseed.sh ID PROPERTY "needs" "what it breaks": take /repo's uncommitted change as patch.diff (and undo it), demo.cc is read from stdin
d=/verif/seeded/$1
mkdir -p $d
git -C /repo diff > $d/patch.diff
git -C /repo checkout -q -- .
[ -s $d/patch.diff ] || { echo "no change in /repo"; exit 1; }
python3 - "$@" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open('/verif/seeded/%s/meta.json'%sys.argv[1],'w'),indent=1)
P
cat > $d/demo.cc
cat > $d/demo.sh <<'D'
#!/bin/bash
# builds demo.cc against /repo/_build and runs it in a scratch directory
here=$(cd "$(dirname "$0")" && pwd)
b=/repo/_build
w=$(mktemp -d) || exit 9
trap 'rm -rf "$w"' EXIT
lib=$(ls $b/src/libfimex*.so | grep -v io- | head -1)
g++ -std=c++17 -O1 -fopenmp -I/repo/include -I$b/include -I$b/src -I/repo/src "$here/demo.cc" -o "$w/demo" "$lib" -Wl,-rpath,$b/src -Wl,-rpath,$b/src/io/netcdf -lnetcdf || exit 9
export FIMEX_IO_PLUGINS_PATH=$b/src/io/netcdf:$b/src/io/felt:$b/src/io/grib TZ=UTC
cd "$w" && timeout 120 ./demo
D
