"""Generates /verif/build/ws from /repo's current tree: the same manifests and sources (by
symlink), minus what cannot be had offline (salsa, benches, dev-dependencies)."""
import os, re, pathlib

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get("VP_REPO", "/repo"))
BUILD = VERIF / "build"
WS = BUILD / "ws"


def put(path, text):
    path.parent.mkdir(parents=True, exist_ok=True)
    if path.is_symlink() or not path.exists() or path.read_text() != text:
        if path.is_symlink():
            path.unlink()
        path.write_text(text)


def link(src, dst):
    dst.parent.mkdir(parents=True, exist_ok=True)
    if dst.is_symlink():
        if os.readlink(dst) == str(src):
            return
        dst.unlink()
    elif dst.is_dir():
        raise SystemExit(f"unexpected directory {dst}")
    os.symlink(src, dst)


def manifest(crate, name=None, drop=(), path_deps=None, extra=""):
    """The crate's own manifest with dev-dependencies, benches and `drop`ped dependencies
    removed and path dependencies redirected."""
    out, section = [], ""
    for line in (REPO / "crates" / crate / "Cargo.toml").read_text().splitlines():
        m = re.match(r"\s*(\[+[^\]]+\]+)", line)
        if m:
            section = m.group(1)
        if section in ("[dev-dependencies]", "[[bench]]", "[[bin]]"):
            continue
        d = re.match(r"([A-Za-z0-9_-]+)\s*=", line)
        if section == "[dependencies]" and d:
            if d.group(1) in drop:
                continue
            if path_deps and d.group(1) in path_deps:
                line = f'{d.group(1)} = {{ path = "{path_deps[d.group(1)]}" }}'
        if section == "[lib]" and d and d.group(1) == "crate-type":
            line = 'crate-type = ["rlib"]'
        out.append(line)
    return "\n".join(out) + "\n" + extra


def sources(crate, dst, keep=None, main=False):
    """Symlinks every entry of the crate's src; lib.rs is generated when `keep` (a predicate
    over module lines) is given."""
    src = REPO / "crates" / crate / "src"
    dst = dst / "src"
    dst.mkdir(parents=True, exist_ok=True)
    want = set()
    for e in sorted(src.iterdir()):
        if e.name == ("main.rs" if main else "lib.rs") and keep is not None:
            continue
        want.add(e.name)
        link(e, dst / e.name)
    if keep is not None:
        want.add("lib.rs")
        put(dst / "lib.rs", keep((src / ("main.rs" if main else "lib.rs")).read_text()))
    for e in dst.iterdir():
        if e.name not in want:
            e.unlink()


def only(mods):
    def f(text):
        r = re.compile(r"^(pub )?mod (%s);" % "|".join(mods))
        return "\n".join("pub " + l if l.startswith("mod ") else l for l in text.splitlines() if r.match(l)) + "\n"
    return f


def generate():
    link(REPO / "crates" / "analyzer-abstractions", WS / "abstractions-src")
    # analyzer-abstractions, as it is
    put(WS / "abstractions" / "Cargo.toml", manifest("analyzer-abstractions"))
    sources("analyzer-abstractions", WS / "abstractions")
    # analyzer-core without salsa: what build.sh builds
    put(WS / "core-lite" / "Cargo.toml", manifest("analyzer-core", drop=("salsa",)))
    sources("analyzer-core", WS / "core-lite", only(["lsp_file", "parser"]))
    # analyzer-core in full: salsa and (unless native) regex are the stand-ins
    st = {k: str(VERIF / "standins" / k) for k in ("salsa", "regex")}
    put(WS / "core-full" / "Cargo.toml", manifest("analyzer-core", path_deps=st))
    sources("analyzer-core", WS / "core-full")
    # analyzer-host in full, with a module that opens what the harness needs of its private items
    put(WS / "host-full" / "Cargo.toml", manifest("analyzer-host", path_deps={"analyzer-abstractions": "../abstractions", "analyzer-core": "../core-full"}))
    sources("analyzer-host", WS / "host-full", lambda t: t + '\n#[path = "%s"]\npub mod verif_hooks;\n' % (VERIF / "harness" / "host_hooks.rs"))
    # p4-analyzer's library: threads, standard streams, files, tokio, async-std and glob are the stand-ins
    st = {k: str(VERIF / "standins" / k) for k in ("tokio", "async-std", "glob")}
    st.update({"analyzer-abstractions": "../abstractions", "analyzer-host": "../host-full"})
    put(WS / "p4a" / "Cargo.toml", manifest("p4-analyzer", drop=("xflags", "thiserror", "async-thread", "ctrlc", "tracing-appender"), path_deps=st,
        extra='vstd = { path = "%s" }\n' % (VERIF / "standins" / "vstd")))
    sources("p4-analyzer", WS / "p4a", lambda t: "#[macro_use]\nextern crate vstd as std;\n" + t)
    # lsif-p4: the command line is not parsed, and lsp-types is the version at hand
    st = {k: str(VERIF / "standins" / k) for k in ("tokio", "xflags")}
    st.update({"analyzer-host": "../host-full", "p4-analyzer": "../p4a"})
    put(WS / "lsif" / "Cargo.toml", re.sub(r'(?m)^lsp-types = .*', 'lsp-types = "0.93"', manifest("lsif-p4", path_deps=st,
        extra='vstd = { path = "%s" }\n' % (VERIF / "standins" / "vstd")).replace('[dependencies]\n', '[dependencies]\n', 1)))
    sources("lsif-p4", WS / "lsif", lambda t: "#[macro_use]\nextern crate vstd as std;\n" + "".join("pub mod %s;\n" % m for m in re.findall(r"(?m)^(?:pub(?:\([a-z]+\))? )?mod (\w+);", t)), main=True)
    # p4-analyzer-wasm: JavaScript's values are data
    st = {k: str(VERIF / "standins" / k) for k in ("wasm-bindgen", "js-sys", "console_error_panic_hook")}
    st.update({"analyzer-abstractions": "../abstractions", "analyzer-host": "../host-full"})
    put(WS / "wasm" / "Cargo.toml", manifest("p4-analyzer-wasm", drop=("wasm-bindgen-futures",), path_deps=st))
    sources("p4-analyzer-wasm", WS / "wasm")
    put(WS / "host-lite" / "Cargo.toml", manifest("analyzer-host", drop=("analyzer-core",), path_deps={"analyzer-abstractions": "../abstractions"}))
    sources("analyzer-host", WS / "host-lite", only(["json_rpc"]))


if __name__ == "__main__":
    generate()
