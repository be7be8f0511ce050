#!/bin/bash
# seed_new.sh <id> <property> <needs> <what> : turn /repo's uncommitted diff into seeded/<id>, undo it.
# main.rs (library demo) is read from stdin unless demo.sh already exists.
ID=$1; D=/verif/seeded/$ID; mkdir -p $D
git -C /repo diff > $D/patch.diff; git -C /repo checkout -q -- .
[ -s $D/patch.diff ] || { echo "empty diff"; exit 1; }
python3 - "$D/meta.json" "$2" "$3" "$4" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1],'w'),indent=1)
P
if [ ! -f $D/demo.sh ]; then
cat > $D/main.rs
cat > $D/demo.sh <<'S'
#!/bin/bash
# Builds main.rs against the rawler crate of the current directory and runs it in a scratch folder.
here="$(cd "$(dirname "$0")" && pwd)"; repo="$PWD"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
d=$(mktemp -d) || exit 3
trap 'rm -rf -- "$d"' EXIT
mkdir -p "$d/src"; cp "$here/main.rs" "$d/src/main.rs"; cp "$repo/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[workspace]
[dependencies]
rawler = { path = "$repo/rawler" }
[profile.dev]
debug = false
incremental = false
T
cd "$d" || exit 3
CARGO_TARGET_DIR="$d/t" cargo build --offline >"$d/log" 2>&1 || { tail -30 "$d/log"; exit 3; }
timeout 60 "$d/t/debug/demo"
S
fi
