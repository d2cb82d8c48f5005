"""Writes a planted bug: mk(id, property, needs, breaks, [(file, old, new)], demo_main)."""
import json, os, shutil, subprocess, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# builds a small program against the tree in the current directory and runs it
set -e
here="$(cd "$(dirname "$0")" && pwd)"
repo="$(pwd)"
work="$(mktemp -d)"
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/demo/src"
cp "$here/main.rs" "$work/demo/src/main.rs"
cat > "$work/demo/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
nanoserde = { path = "$repo" }
T
cd "$work/demo"
export CARGO_TARGET_DIR="$work/target" CARGO_NET_OFFLINE=true
ulimit -c 0
timeout 250 cargo run --offline -q
'''


def mk(id, prop, needs, breaks, edits, main):
    d = os.path.join(HERE, 'seeded', id)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    w = tempfile.mkdtemp(prefix='mk-', dir='/tmp')
    subprocess.run('cd /repo && git archive HEAD | tar x -C %s && cd %s && git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm x' % (w, w), shell=True, check=True)
    for f, a, b in edits:
        p = os.path.join(w, f)
        s = open(p).read()
        assert s.count(a) >= 1, (id, f, a)
        if isinstance(b, tuple):
            n, b = b
            parts = s.split(a)
            s = a.join(parts[:n]) + b + a.join(parts[n:])
        else:
            assert s.count(a) == 1, (id, f, s.count(a), a)
            s = s.replace(a, b)
        open(p, 'w').write(s)
    diff = subprocess.run('git diff', cwd=w, shell=True, stdout=subprocess.PIPE, text=True).stdout
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    open(os.path.join(d, 'demo.sh'), 'w').write(DEMO)
    open(os.path.join(d, 'main.rs'), 'w').write(main)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    shutil.rmtree(w)
