# Sourced by a demo: builds facebook/wdt's core from the current directory
# together with the demo's own sources.  K = this folder, W = scratch folder.
K=$(cd "$(dirname "$0")" && pwd)
R=$PWD
W=$(mktemp -d /tmp/wdtdemo.XXXXXX)
trap 'rm -rf "$W"' EXIT
# build OUT SRC...   (env FLAGS: extra compiler flags)
build() {
  out=$W/$1; shift
  mkdir -p "$W/inc" "$W/gen/wdt" "$W/o"
  ln -sfn "$R" "$W/inc/wdt"
  ver=$(sed -n 's/.*VERSION *\([0-9]*\.[0-9]*\.[0-9]*\).*/\1/p' "$R/CMakeLists.txt" | head -1)
  IFS=. read -r a b c <<< "${ver:-1.32.0}"
  sed -e "s/@WDT_VERSION_MAJOR@/$a/; s/@WDT_VERSION_MINOR@/$b/; s/@WDT_VERSION_PATCH@/$c/; s/@WDT_VERSION@/$a.$b.$c/" \
      -e 's/^#cmakedefine \([A-Z_0-9]*\)/#define \1/' "$R/WdtConfig.h.in" > "$W/gen/wdt/WdtConfig.h"
  CC="clang++ -std=gnu++17 -O0 -pthread -msse4.2 -mpclmul -w -DGFLAGS_NAMESPACE=gflags -DWDT_VERIF=1 -I$W/gen -I$W/inc -I$K/shim -I$K ${FLAGS:-}"
  $CC -x c++-header "$K/shim/prelude.h" -o "$W/prelude.pch" || exit 3
  for s in "$R"/*.cpp "$R"/util/*.cpp "$@"; do
    [ "$(basename "$s")" = wdtCmdLine.cpp ] || echo "$s"
  done | xargs -P 8 -I{} sh -c "$CC -include-pch $W/prelude.pch -c {} -o $W/o/\$(echo {} | tr '/' '_').o" || exit 3
  $CC -fuse-ld=lld "$W"/o/*.o -o "$out" -lglog -lgflags -lcrypto -lboost_system -lboost_filesystem || exit 3
}
