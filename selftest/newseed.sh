#!/bin/bash
# newseed.sh ID PROPERTY PATCH MAIN.rs NEEDS WHAT: lay out seeded/<ID>
set -e
V=$(cd "$(dirname "$0")/.." && pwd); D=$V/seeded/$1; mkdir -p "$D"
cp "$3" "$D/patch.diff"; cp "$4" "$D/main.rs"
cat > "$D/demo.sh" <<'X'
#!/bin/bash
# cwd: the repository.  Builds main.rs (beside this file) against it in a scratch directory and runs it.
R=$PWD; D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
. /opt/vp/env.sh
mkdir "$T/src"; cp "$D/main.rs" "$T/src/"; cp "$R/Cargo.lock" "$T/" 2>/dev/null
cat > "$T/Cargo.toml" <<Y
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
htp = { path = "$R", default-features = false }
time = "=0.3.20"
libc = "0.2"
flate2 = "1.0"
[workspace]
Y
cd "$T" && CARGO_TARGET_DIR="$T/target" cargo run --offline -q
X
python3 - "$D" "$2" "$5" "$6" <<'Y'
import json,sys
json.dump(dict(property=sys.argv[2],needs=sys.argv[3],what_it_breaks=sys.argv[4]),open(sys.argv[1]+"/meta.json","w"),indent=1)
Y
