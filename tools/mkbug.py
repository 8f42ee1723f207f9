#!/usr/bin/env python3
"""Helpers for tools/bugs_*.py: writes /verif/seeded/<id>/ from (edits, demo)."""
import json, os, subprocess, tempfile, shutil
SEEDED = os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + '/seeded'
DEMO_TREE = '''#!/bin/bash
# Builds main.rs against the input_tree crate of the current directory and runs it.
here="$(cd "$(dirname "$0")" && pwd)"; repo="$PWD"
tmp="$(mktemp -d)"; trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/src"; cp "$here/main.rs" "$tmp/src/main.rs"
cat > "$tmp/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
input_tree = { path = "$repo/aftermath-core/input_tree" }
[workspace]
T
cd "$tmp" && CARGO_TARGET_DIR="$tmp/target" timeout 280 cargo run --offline -q 2>&1
'''
def diff(edits):
    w = tempfile.mkdtemp()
    try:
        subprocess.check_call(['git', 'clone', '-q', '/repo', w + '/r'])
        for p, a, b in edits:
            f = w + '/r/' + p
            s = open(f).read()
            assert s.count(a) == 1, (p, a, s.count(a))
            open(f, 'w').write(s.replace(a, b))
        return subprocess.check_output(['git', '-C', w + '/r', 'diff'], text=True)
    finally:
        shutil.rmtree(w, ignore_errors=True)
def bug(id, prop, edits, needs, breaks, files, demo=DEMO_TREE):
    d = f'{SEEDED}/{id}'
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(diff(edits))
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + '/meta.json', 'w'), indent=1)
    open(d + '/demo.sh', 'w').write(demo)
    os.chmod(d + '/demo.sh', 0o755)
    for n, t in files.items():
        open(f'{d}/{n}', 'w').write(t)
