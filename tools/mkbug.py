#!/usr/bin/env python3
"""Records a planted bug: mkbug.py ID PROPERTY KIND  (reads /tmp/w/repo's diff against HEAD, the
demonstration from /tmp/w/demo.rs, and needs/breaks from stdin as two lines)."""
import sys, subprocess, pathlib, json, os
ident, prop, kind = sys.argv[1:4]
needs, breaks = [l.strip() for l in sys.stdin.read().strip().split("\n")[:2]]
R = os.environ.get("MB_REPO", "/tmp/w/repo")
d = pathlib.Path("/verif/seeded") / ident
d.mkdir(parents=True, exist_ok=True)
diff = subprocess.run(["git", "-C", R, "diff"], capture_output=True, text=True).stdout
assert diff
(d / "patch.diff").write_text(diff)
(d / "meta.json").write_text(json.dumps(dict(property=prop, needs=needs, what_it_breaks=breaks), indent=1) + "\n")
(d / "main.rs").write_text(open("/tmp/w/demo.rs").read())
KINDS = {
 "core": ("analyzer-core", "lsp_file|parser", 'logos = "0.12.1"\nanyhow = "*"\nparking_lot = "*"\n'),
 "json": ("analyzer-host", "json_rpc", 'serde = { version = "1", features = ["derive"] }\nserde_json = "1"\nthiserror = "1"\n'),
 "abs": ("analyzer-abstractions", None, ''),
}
FULL = {"full": ["analyzer-abstractions", "analyzer-core", "analyzer-host"], "p4a": ["analyzer-abstractions", "analyzer-core", "analyzer-host", "p4-analyzer"]}
full = kind in FULL
crate, mods, deps = KINDS.get(kind, ("", "", ""))
if kind == "abs":
    body = f'''cp crates/{crate}/Cargo.toml "$D/lib/"; mkdir -p "$D/lib/src"; cp -r crates/{crate}/src/. "$D/lib/src/"'''
    name = "analyzer-abstractions"
    pre = ""
elif full:
    import shutil
    for k in ("salsa", "salsa-macros") + (("glob-real",) if kind == "p4a" else ()):
        shutil.rmtree(d / k, ignore_errors=True)
        shutil.copytree(f"/verif/standins/{k}", d / k)
    body = f'''for c in {" ".join(FULL[kind])}; do
\tmkdir -p "$D/lib/$c"; cp -r crates/$c/src "$D/lib/$c/src"
\tawk '/^\\[/{{skip = ($0 ~ /dev-dependencies|bench|\\[\\[bin/)}} !skip' crates/$c/Cargo.toml \\
\t\t| sed -E 's#^(salsa) =.*#\\1 = {{ path = "../\\1" }}#; s#^glob =.*#glob = {{ path = "../glob" }}#; /^(xflags|async-thread|ctrlc|tracing-appender) =/d' > "$D/lib/$c/Cargo.toml"
done
cp -r "$HERE/salsa" "$HERE/salsa-macros" "$D/lib/"
[ ! -d "$HERE/glob-real" ] || cp -r "$HERE/glob-real" "$D/lib/glob"'''
    deps = "".join(f'{c} = {{ path = "lib/{c}" }}\n' for c in FULL[kind]) + 'serde_json = "1"\nasync-channel = "1"\ncancellation = "0.1.0"\nfutures = "0.3"\n'
    if kind == "p4a":
        deps += 'tokio = { version = "1", features = ["full"] }\nqueues = "1"\n'
else:
    body = f'''mkdir -p "$D/lib/src"; cp -r crates/{crate}/src/. "$D/lib/src/"
grep -E '^(pub )?mod ({mods});' crates/{crate}/src/lib.rs | sed 's/^mod/pub mod/' > "$D/lib/src/lib.rs"
cat > "$D/lib/Cargo.toml" <<'T'
[package]
name = "{crate}"
version = "0.0.0"
edition = "2021"
[dependencies]
{deps}T'''
(d / "demo.sh").write_text(f'''#!/bin/bash
# Exit 0 when the property holds on the demonstrated case.
set -e
HERE=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=nightly-2023-04-01 CARGO_NET_OFFLINE=true
D=$(mktemp -d)
trap '/bin/rm -rf "$D"' EXIT
export CARGO_TARGET_DIR=$D/target
mkdir -p "$D/lib" "$D/src"
{body}
cat > "$D/Cargo.toml" <<'T'
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
{"" if full else crate + ' = { path = "lib" }'}
{deps}{"futures = \"*\"\ncancellation = \"*\"" if kind == "abs" else ""}
T
cp Cargo.lock "$D/Cargo.lock"
cp "$HERE/main.rs" "$D/src/main.rs"
cd "$D"
cargo build --offline --quiet 2> "$D/log" || {{ cat "$D/log"; exit 2; }}
timeout 60 "$D/target/debug/demo"
''')
os.chmod(d / "demo.sh", 0o755)
r = subprocess.run([str(d / "demo.sh")], cwd=R)
print("patched: demo exit", r.returncode)
subprocess.run(["git", "-C", R, "stash", "-q"], check=True)
r2 = subprocess.run([str(d / "demo.sh")], cwd=R)
print("clean: demo exit", r2.returncode)
subprocess.run(["git", "-C", R, "stash", "drop", "-q"], check=True)
assert r.returncode != 0 and r2.returncode == 0
