#!/usr/bin/env python3
"""wasm_vendor.py <Cargo.lock> <directory>: lays out a directory source with the dependencies of the standard library
(which come with its source) and those of the lock file (from cargo's cache), to build both for WebAssembly offline."""
import glob, json, os, subprocess, sys, tarfile, tomllib
lock, v = sys.argv[1:]
root = subprocess.check_output(['rustc', '--print', 'sysroot'], text=True).strip() + '/lib/rustlib/src/rust/library/vendor'
os.makedirs(v, exist_ok=True)
for d in os.listdir(root):
    if not os.path.lexists(f'{v}/{d}'):
        os.symlink(f'{root}/{d}', f'{v}/{d}')
home = os.environ.get('CARGO_HOME') or os.path.expanduser('~/.cargo')
for p in tomllib.load(open(lock, 'rb'))['package']:
    n = f"{p['name']}-{p['version']}"
    if 'checksum' not in p or os.path.exists(f'{v}/{n}/.cargo-checksum.json'):
        continue
    c = glob.glob(f'{glob.escape(home)}/registry/cache/*/{n}.crate')
    if c:
        tarfile.open(c[0]).extractall(v, filter='data')
        json.dump({'files': {}, 'package': p['checksum']}, open(f'{v}/{n}/.cargo-checksum.json', 'w'))
