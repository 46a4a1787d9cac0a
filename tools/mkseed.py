#!/usr/bin/env python3
"""mkseed.py SPEC.py: writes /verif/seeded/<id>/ from a spec file defining
ID, PROP, EDITS=[(file, old, new)], MAIN, NEEDS, BREAKS, CRATE ("core" or a Cargo
dependency table). Used while developing; no check reads seeded/."""
import json, os, re, subprocess, sys, tempfile
REPO = "/repo"
CRATES = {
    "core": 'bonsaidb-core = { path = "@REPO@/crates/bonsaidb-core" }\n',
    "local": 'bonsaidb-core = { path = "@REPO@/crates/bonsaidb-core" }\nbonsaidb-local = { path = "@REPO@/crates/bonsaidb-local", default-features = false }\n',
    "files": 'bonsaidb-core = { path = "@REPO@/crates/bonsaidb-core" }\nbonsaidb-local = { path = "@REPO@/crates/bonsaidb-local", default-features = false }\nbonsaidb-files = { path = "@REPO@/crates/bonsaidb-files", default-features = false }\n',
}
DEMO = r'''#!/bin/bash
# Builds main.rs (beside this file) against the crates in the current directory
# and runs it: against the libraries its build left in target/, else from source.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
d=$(mktemp -d) || exit 99
trap 'rm -rf -- "$d"' EXIT
mkdir -p "$d/src" "$d/tmp" && cp "$here/main.rs" "$d/src/main.rs" && cp "$here/Cargo.lock" "$d/Cargo.lock" || exit 99
sed "s#@REPO@#$repo#" "$here/Cargo.toml.in" > "$d/Cargo.toml"
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=1.76.0 CARGO_TARGET_DIR=$d/target CARGO_PROFILE_DEV_DEBUG=0 TMPDIR=$d/tmp
cd "$d" || exit 99
# Candidates for crate $1, newest first; none older than the crate's sources.
libs() {
    ls -t "$deps/lib$1"-*.rlib 2>/dev/null | head -n 4 | while read -r lib; do
        [ -n "$(find "$repo/crates/${1//_/-}/src" -name '*.rs' -newer "$lib" -print -quit)" ] || echo "$lib"
    done
}
link() { # link "externs" crate...: tries every combination
    local externs=$1 crate=$2 lib; shift; shift
    if [ -z "$crate" ]; then
        rustc --edition 2021 --crate-name demo -L "dependency=$deps" -L "native=$deps" $externs src/main.rs -o demo > rustc.log 2>&1
        return
    fi
    for lib in $(libs "$crate"); do link "$externs --extern $crate=$lib" "$@" && return; done
    return 1
}
deps=$repo/target/debug/deps
if link "" $(sed -n 's/^\(bonsaidb-[a-z]*\) = .*/\1/p' Cargo.toml | tr - _); then timeout 280 ./demo; else timeout 280 cargo run -q --offline; fi
'''


def main(path):
    g = {}
    exec(open(path).read(), g)
    d = os.path.join("/verif/seeded", g["ID"])
    os.makedirs(d, exist_ok=True)
    patch = ""
    for f, old, new in g["EDITS"]:
        src = subprocess.run(["git", "-C", REPO, "show", "HEAD:" + f], capture_output=True, text=True, check=True).stdout
        assert src.count(old) == g.get("COUNT", 1), (f, src.count(old))
        with tempfile.TemporaryDirectory() as t:
            for n, c in (("a", src), ("b", src.replace(old, new))):
                os.makedirs(os.path.dirname(f"{t}/{n}/{f}"))
                open(f"{t}/{n}/{f}", "w").write(c)
            out = subprocess.run(["diff", "-u", f"a/{f}", f"b/{f}"], cwd=t, capture_output=True, text=True).stdout
        patch += f"diff --git a/{f} b/{f}\n" + re.sub(r"^(---|\+\+\+) (\S+)\t.*$", r"\1 \2", out, flags=re.M)
    open(f"{d}/patch.diff", "w").write(patch)
    subprocess.run(["git", "-C", REPO, "apply", "--check", f"{d}/patch.diff"], check=True)
    crate = CRATES[g.get("CRATE", "core")] + g.get("DEPS", "")
    open(f"{d}/Cargo.toml.in", "w").write(f'[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n[dependencies]\n{crate}')
    open(f"{d}/main.rs", "w").write(g["MAIN"].lstrip())
    open(f"{d}/demo.sh", "w").write(DEMO)
    os.chmod(f"{d}/demo.sh", 0o755)
    json.dump(dict(property=g["PROP"], needs=g["NEEDS"], what_it_breaks=g["BREAKS"]), open(f"{d}/meta.json", "w"), indent=1)
    # lock file restricted to what the workspace lock provides
    with tempfile.TemporaryDirectory() as t:
        os.makedirs(t + "/src")
        open(t + "/src/main.rs", "w").write("fn main(){}")
        open(t + "/Cargo.toml", "w").write(open(f"{d}/Cargo.toml.in").read().replace("@REPO@", REPO))
        lock = open("/repo/Cargo.lock").read() if os.path.exists("/repo/Cargo.lock") else open("/opt/vp/ws/Cargo.lock").read()
        open(t + "/Cargo.lock", "w").write(lock)
        r = subprocess.run(["cargo", "metadata", "--offline", "--format-version", "1", "-q"], cwd=t, capture_output=True, text=True, env=dict(os.environ, RUSTUP_TOOLCHAIN="1.76.0"))
        assert r.returncode == 0, r.stderr
        open(f"{d}/Cargo.lock", "w").write(open(t + "/Cargo.lock").read())
    print("wrote", d)


for p in sys.argv[1:]:
    main(p)
