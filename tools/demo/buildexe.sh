# Sourced after common.sh: links buildexe from the objects of the build and prepares a home, a workspace and a text "gcc".
bx_setup() {
  cat > "$W/empty.cpp" <<< 'static int unused __attribute__((unused));'
  mapfile -t OBJ < <(find "$R/_build/buildexe/CMakeFiles/buildexe.dir" -name '*.o' | sort)
  compile "$W/empty.cpp" "$W/buildexe" "${OBJ[@]}"
  H="$W/home"; S="$W/ws"; L="$W/log.txt"; export BX_LOG="$L"
  mkdir -p "$H/libs/alpha" "$H/libs/beta" "$H/extensions" "$S" "$W/tc"
  local B="$H/buildcc" d
  for d in lib/env/src schema/src lib/toolchain/src/{api,common,toolchain} lib/target/src/{common,custom_generator,generator,api,target_info,target,target/friend} lib/args/src toolchains/src plugins/src \
    lib/env/include/env schema/include/schema/interface lib/toolchain/include/toolchain/{api,common} lib/target/include/target/{api,common,friend,interface} lib/args/include/args toolchains/include/toolchains targets/include/targets plugins/include/plugins; do mkdir -p "$B/buildcc/$d"; done
  for d in json/include/nlohmann/thirdparty/hedley json/include/nlohmann/detail/{conversions,input,iterators,meta/call_std,output} CLI11/include/CLI fmt/include/fmt spdlog/include/spdlog/{cfg,details,fmt,sinks} taskflow/taskflow/{algorithm,core,cuda/algorithm,dsl,sycl/algorithm,utility} tiny-process-library; do mkdir -p "$B/third_party/$d"; done
  echo 'int env;' > "$B/buildcc/lib/env/src/env.cpp"; echo 'int e1;' > "$B/buildcc/lib/env/include/env/env.h"
  for d in process.cpp process_unix.cpp process.hpp; do echo "int p;" > "$B/third_party/tiny-process-library/$d"; done
  echo 'int a1;' > "$H/libs/alpha/alpha.h"; echo 'int alpha;' > "$H/libs/alpha/alpha.cpp"
  cat > "$W/tc/tool" <<'T'
#!/bin/bash
n=$(basename "$0")
case " $* " in *" -dumpversion "*) echo 13.3.0; exit 0;; *" -dumpmachine "*) echo x86_64-linux-gnu; exit 0;; esac
[ -n "$BX_HOOK" ] && { . "$BX_HOOK" || exit 1; }
echo "$n $*" >> "$BX_LOG"
if [ $n = ar ]; then out=$2; shift 2; in=("$@"); else
in=(); inc=(); c=0
while [ $# -gt 0 ]; do case $1 in -o) out=$2; shift 2;; -c) c=1; shift;; -I*) inc+=("${1#-I}"); shift;; -*) shift;; *) in+=("$1"); shift;; esac; done; fi
for i in "${in[@]}"; do [ -f "$i" ] || { echo "$i: not found" >&2; exit 1; }; grep -q '#error' "$i" && exit 1; done
{ [ $n = ar ] || [ $c = 1 ] || echo '#!/bin/bash
{ printf RUN; printf " [%s]" "$@"; echo; } >> "$BX_LOG"; exit ${BX_RC:-0}'
  for i in "${in[@]}"; do sed 's/^/# /' "$i"; grep -o '^#include ".*"' "$i" | cut -d'"' -f2 | while read -r h; do for d in "$(dirname "$i")" "${inc[@]}"; do [ -f "$d/$h" ] && { sed 's/^/# /' "$d/$h"; break; }; done; done; done; } > "$out.tmp$$" || exit 1
mv "$out.tmp$$" "$out"; chmod +x "$out"
T
  chmod +x "$W/tc/tool"; local t; for t in as gcc g++ ar ld; do ln -sf tool "$W/tc/$t"; done
}
# bx MODE [settings]: one run
bx() { local m=$1; shift; : > "$L"; (cd "$S" && BUILDCC_HOME="$H" PATH="$W/tc:$PATH" timeout 100 "$W/buildexe" --root_dir "$S" --build_dir "$S/_build" --mode "$m" --name app --type executable --relative_to_root "" "$@" toolchain host --id gcc --name gcc --asm_compiler as --c_compiler gcc --cpp_compiler g++ --archiver ar --linker ld) > "$W/out.txt" 2>&1; }
APP() { echo "$S/_build/gcc/app/app"; }
