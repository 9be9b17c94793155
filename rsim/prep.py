#!/usr/bin/env python3
"""prep.py REPO/rust OUT: copies the Rust crates of the working tree and the simulator into OUT/w as
one cargo workspace. Each crate is copied twice: "-h" as it is built natively, "-g" as it is built
for wasm32 (its wasm configuration, compiled for this machine). Shared std objects of the native
copies are replaced by the simulator's. Test files and /repo itself are not touched."""
import os, re, shutil, sys
src, out = sys.argv[1], os.path.join(sys.argv[2], "w")
here = os.path.dirname(os.path.abspath(__file__))
crates = os.path.join(src, "crates")

def die(m):
    print(m, file=sys.stderr)
    sys.exit(3)

def write(path, s):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    open(path, "w").write(s)

DEPS = {
 "bytes": 'bytes = { version = "1" }',
 "futures": 'futures = { version = "0.3", default-features = false, features = ["std"] }',
 "futures-core": 'futures-core = { version = "0.3" }',
 "futures-util": 'futures-util = { version = "0.3", default-features = false, features = ["std"] }',
 "futures-executor": 'futures-executor = { version = "0.3", default-features = false, features = ["std"] }',
 "tracing": 'tracing = { version = "0.1", default-features = false, features = ["std", "release_max_level_off"] }',
 "thiserror": 'thiserror = { version = "2" }',
 "anyhow": 'anyhow = "1"',
 "cfg-if": 'cfg-if = "1"',
 "pin-project-lite": 'pin-project-lite = "0.2"',
 "crossbeam-channel": 'crossbeam-channel = "0.5"',
 "serde": 'serde = { version = "1", default-features = false, features = ["std"] }',
 "tokio": 'tokio = { path = "../tokio" }',
 "parking_lot": 'parking_lot = { path = "../parking_lot" }',
 "dashmap": 'dashmap = { path = "../dashmap" }',
 "strum": 'strum = { path = "../strum" }',
 "wasmtime": 'wasmtime = { path = "../wasmtime" }',
 "wasmtime-wasi": 'wasmtime-wasi = { path = "../wasmtime-wasi" }',
 "wasi-common": 'wasi-common = { path = "../wasi-common" }',
 "wasm-msgpack": 'wasm-msgpack = { path = "../wasm-msgpack" }',
}
OURS = ["wasmrs", "wasmrs-codec", "wasmrs-guest", "wasmrs-host", "wasmrs-runtime", "wasmrs-rx", "wasmrs-wasmtime"]
GUEST = ["wasmrs-runtime", "wasmrs-rx", "wasmrs-codec", "wasmrs", "wasmrs-guest"]
HOST = ["wasmrs-runtime", "wasmrs-rx", "wasmrs-codec", "wasmrs", "wasmrs-host", "wasmrs-wasmtime"]

def deps(crate):
    """The names of a crate's ordinary dependencies, whatever their target."""
    names, on = [], False
    for line in open(os.path.join(crates, crate, "Cargo.toml")):
        line = line.strip()
        m = re.match(r"\[(.*)\]$", line)
        if m:
            sec = m.group(1)
            on = sec == "dependencies" or sec.endswith(".dependencies") and "dev-" not in sec
            m = re.match(r"dependencies\.([\w-]+)$", sec)
            if m:
                names.append(m.group(1))
                on = False
            continue
        m = re.match(r"([\w-]+)\s*=", line)
        if on and m and m.group(1) not in names:
            names.append(m.group(1))
    return names

def guest(s):
    s = re.sub(r'not\(\s*target_family\s*=\s*"wasm"\s*\)', "any()", s)
    s = re.sub(r'not\(\s*target_arch\s*=\s*"wasm32"\s*\)', "any()", s)
    s = re.sub(r'(?<![\w])target_family\s*=\s*"wasm"', "all()", s)
    s = re.sub(r'(?<![\w])target_arch\s*=\s*"wasm32"', "all()", s)
    s = re.sub(r'#\[link\(wasm_import_module[^\]]*\)\]', "", s)
    s = re.sub(r'extern\s+"C"', 'extern "C-unwind"', s)
    s = re.sub(r'\be?println!', "::vsim::quiet!", s)
    return s

def host(s):
    s = re.sub(r'\bstd::sync::', "::vsim::sync::", s)
    s = re.sub(r'\bstd::thread::(?=spawn|yield_now|sleep)', "::vsim::thread::", s)
    s = re.sub(r'\be?println!', "::vsim::quiet!", s)
    return s

members = []
for kind, names, fix in (("h", HOST, host), ("g", GUEST, guest)):
    for c in names:
        d = os.path.join(out, f"{c}-{kind}")
        top = os.path.join(crates, c)
        if not os.path.isdir(os.path.join(top, "src")):
            die(f"no crate {c} under {crates}")
        for r, _, fs in os.walk(top):
            rel = os.path.relpath(r, top)
            if rel.split(os.sep)[0] in ("tests", "examples", "benches", "target"):
                continue
            for f in fs:
                p = os.path.join(r, f)
                q = os.path.join(d, rel, f)
                os.makedirs(os.path.dirname(q), exist_ok=True)
                if f.endswith(".rs"):
                    write(q, fix(open(p).read()))
                elif f != "Cargo.toml":
                    shutil.copyfile(p, q)
        lines = []
        for n in deps(c):
            if n in OURS:
                lines.append(f'{n} = {{ package = "{n}-{kind}", path = "../{n}-{kind}" }}')
            elif n in DEPS:
                lines.append(DEPS[n])
            else:
                die(f"crate {c} depends on {n}, which is not available offline")
        lines.append('vsim = { path = "../vsim" }')
        feats = f'default = {["std"] if c == "wasmrs-codec" else []}\nstd = []\nprofiler = []\n'.replace("'", '"')
        write(os.path.join(d, "Cargo.toml"), f'''[package]
name = "{c}-{kind}"
version = "0.2.0"
edition = "2021"
[lib]
name = "{c.replace("-", "_")}"
path = "src/lib.rs"
doctest = false
test = false
[features]
{feats}
[dependencies]
''' + "\n".join(lines) + "\n")
        members.append(f"{c}-{kind}")
for d in sorted(os.listdir(here)):
    if os.path.isfile(os.path.join(here, d, "Cargo.toml")):
        shutil.copytree(os.path.join(here, d), os.path.join(out, d), ignore=shutil.ignore_patterns("target"))
        members.append(d)
write(os.path.join(out, "Cargo.toml"), "[workspace]\nresolver = \"2\"\nmembers = [\n" + "".join(f'  "{m}",\n' for m in members) + ''']
[profile.release]
opt-level = 1
debug = 1
overflow-checks = true
panic = "unwind"
incremental = false
codegen-units = 16
''')
shutil.copyfile(os.environ.get("VERIF_CARGO_LOCK", "/opt/veriftools/crates.Cargo.lock"), os.path.join(out, "Cargo.lock"))
