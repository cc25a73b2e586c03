# Compiles demo.cpp (beside this file) with scipp's units and core sources from
# the current directory and runs it; its exit code is that of the program.
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
out=$(mktemp -d /tmp/scipp-demo.XXXXXX)
flags="-std=c++17 -O0 -w -fno-operator-names -I$here/inc -I$here/units_shim -I/usr/include/eigen3"
for l in common units core variable dataset; do flags="$flags -I$PWD/lib/$l/include"; done
objs() { # $@: sources
  printf '%s\n' "$@" | xargs -P 8 -I{} sh -c 'o=$(echo {} | tr / _).o; g++ '"$flags $EXTRA"' -c {} -o '"$out"'/$o || exit 255'
}
EXTRA=${EXTRA:-}
run_demo() {
  objs "$here/demo.cpp" "$here/units_shim/units.cpp" lib/units/*.cpp lib/core/*.cpp "$@" || exit 2
  g++ $EXTRA "$out"/*.o -o "$out/demo" -lpthread || exit 2
  timeout 120 "$out/demo"
  rc=$?
  rm -r "$out"
  exit $rc
}
