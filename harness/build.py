"""Builds the Rust side from /repo's working tree (offline).

/repo/src is copied verbatim into build/bb/src; one line is appended to lib.rs
that declares the bridge module.  Returns the paths of the shared library and
of the checker binary."""
import fcntl
import os
import shutil
import subprocess
import sys
from itertools import combinations

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))
RUST = os.path.join(VERIF, 'rust')

PARTS = 'parts', 'tapes', 'rules', 'macros', 'inner'

CARGO_TOML = '''[package]
name = "bb"
version = "0.1.0"
edition = "2024"

[lib]
crate-type = ["cdylib", "rlib"]

[features]
parts = []
tapes = []
rules = []
macros = []
inner = []

[dependencies]
rayon = "1"
serde_json = "1"
pyo3 = {{ path = "{rust}/pyo3", features = ["extension-module"] }}
'''


def put(path, data):
    """Write only when the content differs, so that cargo sees real changes."""
    if isinstance(data, str):
        data = data.encode()
    try:
        with open(path, 'rb') as f:
            if f.read() == data:
                return
    except FileNotFoundError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'wb') as f:
        f.write(data)


def sync():
    src = os.path.join(BUILD, 'bb', 'src')
    want = set()
    for root, _, files in os.walk(os.path.join(REPO, 'src')):
        for name in files:
            if not name.endswith('.rs'):
                continue
            path = os.path.join(root, name)
            rel = os.path.relpath(path, os.path.join(REPO, 'src'))
            want.add(rel)
            with open(path, 'rb') as f:
                data = f.read()
            # what is there for tests only is wanted too
            data = data.replace(b'cfg(test)',
                                b'cfg(any(test, feature = "inner"))')
            if rel == 'lib.rs':
                data += (
                    f'\n#[path = "{RUST}/bridge/bridge.rs"]\n'
                    'pub mod verif_bridge;\n').encode()
            put(os.path.join(src, rel), data)
    for root, _, files in os.walk(src):
        for name in files:
            rel = os.path.relpath(os.path.join(root, name), src)
            if rel not in want:
                os.remove(os.path.join(root, name))
    put(os.path.join(BUILD, 'bb', 'Cargo.toml'), CARGO_TOML.format(rust=RUST))


def workspace():
    ws = os.path.join(BUILD, 'ws')
    put(os.path.join(ws, 'Cargo.toml'), f'''[workspace]
resolver = "2"
members = ["checker"]

[profile.release]
opt-level = 3
debug-assertions = false
overflow-checks = false
panic = "unwind"
codegen-units = 8
''')
    with open(os.path.join(RUST, 'checker', 'Cargo.toml')) as f:
        toml = f.read().replace('../../build/bb', os.path.join(BUILD, 'bb'))
    put(os.path.join(ws, 'checker', 'Cargo.toml'), toml)
    for name in os.listdir(os.path.join(RUST, 'checker', 'src')):
        with open(os.path.join(RUST, 'checker', 'src', name), 'rb') as f:
            put(os.path.join(ws, 'checker', 'src', name), f.read())
    return ws


def build(quiet=True):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, '.lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        sync()
        ws = workspace()
        env = dict(os.environ, CARGO_NET_OFFLINE='true',
                   CARGO_TARGET_DIR=os.path.join(BUILD, 'target'),
                   RUSTFLAGS='-Awarnings')
        # first with all building blocks below the exported functions; when
        # some of these have changed shape, without them
        for parts in sorted((p for n in range(6) for p in
                             combinations(PARTS, n)),
                            key=len, reverse=True):
            cmd = ['cargo', 'build', '--offline', '--release',
                   '-p', 'checker', '-p', 'bb',
                   *(f'--features=checker/{p}' for p in parts)]
            done = subprocess.run(cmd, cwd=ws, env=env, text=True,
                                  capture_output=quiet)
            if not done.returncode:
                break
        else:
            sys.stderr.write(done.stderr or '')
            raise SystemExit(f'cargo build failed ({done.returncode})')
    rel = os.path.join(BUILD, 'target', 'release')
    return os.path.join(rel, 'libbb.so'), os.path.join(rel, 'checker')


if __name__ == '__main__':
    print(*build(quiet=False))
