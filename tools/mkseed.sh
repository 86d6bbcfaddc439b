#!/bin/bash
# mkseed.sh ID PROPERTY "what it needs" "what it breaks": turn the edits in /repo's working tree into a planted bug
set -e
d=/verif/seeded/$1; mkdir -p "$d"
git -C /repo diff > "$d/patch.diff"
[ -s "$d/patch.diff" ]
python3 - "$@" > "$d/meta.json" <<'P'
import json,sys
print(json.dumps({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},indent=1))
P
git -C /repo checkout -- .
cat > "$d/demo.sh" <<'P'
#!/bin/bash
# builds demo.rs against the library that build.sh left in /repo/target and runs it
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
deps=/repo/target/debug/deps
ext=""
for c in hodu_core hodu_nn hodu_datasets hodu_plugin hodu_plugin_runtime hodu_plugin_sdk hodu_cli hodu_cpu_kernels; do
    lib=$(ls -t "$deps"/lib$c-*.rlib 2>/dev/null | head -1)
    if [ -n "$lib" ] && grep -q "$c::" "$d/demo.rs"; then ext="$ext --extern $c=$lib"; fi
done
rustc --edition 2021 -A warnings "$d/demo.rs" -o "$t/demo" $ext -L dependency="$deps" || exit 3
cd "$t" && timeout 120 ./demo
P
echo "$d"; git -C /repo status --short
