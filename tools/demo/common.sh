# Sourced by demo.sh (cwd: the repository, built).  Everything happens in $W, which is removed at the end.
D=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd); R=$PWD
W=$(mktemp -d /tmp/demo.XXXXXX) || exit 0
trap 'rm -rf "$W"' EXIT
B="$R/buildcc"
INC="-I$D -I$B -I$B/schema/include -I$B/lib/env/include -I$B/lib/toolchain/include -I$B/toolchains/include -I$B/lib/target/include -I$B/targets/include -I$B/lib/args/include -I$B/plugins/include"
DEF="-DFMT_SHARED -DSPDLOG_COMPILED_LIB -DSPDLOG_FMT_EXTERNAL -DSPDLOG_SHARED_LIB"
# compile SRC.cpp OUT [flags]
compile() { local s=$1 o=$2; shift 2; g++ -std=c++17 -O0 -w $DEF $INC "$@" "$s" "$B/lib/env/src/execute.cpp" "$R/_build/buildcc/libbuildcc.a" -lspdlog -lfmt -ldl -pthread -lgcov --coverage -o "$o" 2>"$W/cc.log" || { cat "$W/cc.log"; echo "demo: could not compile"; exit 0; }; }
fail() { echo "demo: $*"; exit 1; }
# text "compilers": outputs are the command's flags and the contents of what it reads
fake_tools() {
  mkdir -p "$W/tc" "$W/p" "$W/b"
  cat > "$W/tc/tool" <<'T'
#!/bin/bash
[ -n "$TOOLLOG" ] && echo "START $(basename "$0") $*" >> "$TOOLLOG"
n=$(basename "$0"); out=; in=(); fl=()
if [ $n = ar ]; then out=$2; shift 2; in=("$@"); [ -f "$out" ] && fl=(update) ; else
while [ $# -gt 0 ]; do case $1 in -o) out=$2; shift 2;; -c) in+=("$2"); shift 2;; -include) in+=("$2"); shift 2;; -*) fl+=("$1"); shift;; *) in+=("$1"); shift;; esac; done; fi
[ -n "$TOOLHOOK" ] && { . "$TOOLHOOK" || exit 1; }
for i in "${in[@]}"; do grep -q '#error' "$i" 2>/dev/null && exit 1; done
{ echo "TOOL $n ${fl[*]}"; for i in "${in[@]}"; do echo "IN $i"; cat "$i" || exit 1; while read -r _ h; do h=${h//\"/}; h=${h%$'\r'}; [ -f "$h" ] && { echo "INC $h"; cat "$h"; }; done < <(grep -a '^#include "' "$i"); done; } > "$out.tmp$$" || exit 1
mv "$out.tmp$$" "$out"; chmod +x "$out"
[ -n "$TOOLLOG" ] && echo "END $n $out" >> "$TOOLLOG"
exit 0
T
  chmod +x "$W/tc/tool"; for t in as gcc g++ ar ld; do ln -sf tool "$W/tc/$t"; done
}
build() { timeout 60 "$W/app" "$W/p/project.txt" "$W/p" "${BD:-$W/b}" > "$W/log" 2>&1; }
# scratch DIR: builds the current project from scratch there; cmp_clean: the incremental build equals it (paths normalised)
norm() { (cd "$1" && find . -type f \( -name '*.o' -o -name '*.a' -o -name '*.so' -o -name '*.gch' -o -perm -u+x -o -name 'gen*' \) ! -name '*.bin' ! -name '*.json' | sort | while read -r f; do echo "== $f"; sed "s#$1#BUILD#g" "$f"; done); }
same_as_clean() { rm -rf "$W/clean"; mkdir -p "$W/clean"; BD="$W/clean" build || { cat "$W/log"; return 1; }; norm "$W/b" > "$W/n1"; norm "$W/clean" > "$W/n2"; diff "$W/n1" "$W/n2" > "$W/diff"; }
