#!/usr/bin/env python3
"""Development tool: writes /verif/seeded/<id>/ from the table below and tools/seedsrc/<id>.rs.
Usage: seeds.py write [ids] | test [ids]   (test: clean/patched demo and baseline tests in a scratch copy)"""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
EC = 'ethereum-consensus/src/'
# id: (property, kit, [(file, fn, old, new)], needs, what it breaks)
S = {}
def seed(id, prop, kit, edits, needs, breaks):
    S[id] = (prop, kit, edits, needs, breaks)
exec(open(os.path.join(HERE, 'seedtable.py')).read())

DEMO = '''#!/bin/bash
# Exit 0: {ok}. Nonzero otherwise.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
T="$(mktemp -d)"
trap 'find "$T" -depth -delete' EXIT
cp -r "$here"/demo/. "$T"
grep -rl @REPO@ "$T" | xargs -r sed -i "s#@REPO@#$repo#g"
export RUSTUP_TOOLCHAIN=1.85.0-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$T/target"
cd "$T" && cargo build --offline -q 2>"$T/log" || {{ grep -A5 '^error' "$T/log" | head -40; exit 3; }}
timeout 120 "$T/target/debug/demo"
'''
TOKIO = 'tokio = { version = "1.37.0", features = ["rt", "macros", "time", "test-util"] }\ntokio-stream = "0.1.15"\n'
CHAIN = 'ethereum-consensus = { path = "wrap/ethereum-consensus", features = ["spec-tests"] }\nssz_rs = { path = "shims/ssz_rs" }\nserde = { version = "1", features = ["derive"] }\nserde_json = "1"\n' + TOKIO
CHAIN_SHIMS = 'ssz_rs ssz_rs_derive blst c-kzg simcrypto enr multihash multiaddr bs58 integer-sqrt serde_yaml'.split()
EC_SHIMS = CHAIN_SHIMS + 'rayon ruint hkdf scrypt aes ctr'.split()
EC_DEPS = CHAIN + ''.join(f'{x} = {{ path = "shims/{x}" }}\n' for x in 'rayon ruint hkdf scrypt aes ctr'.split()) + '''bip39 = "2"
rand_core = { version = "0.6", features = ["std"] }
uuid = { version = "1", features = ["v4", "fast-rng", "serde"] }
unicode-normalization = "0.1"
bitvec = "1"
clap = { version = "4.5", features = ["derive"] }
eyre = "0.6"
hex = "0.4.3"
sha2 = "0.10.8"
rand = "0.8.4"
thiserror = "1"
'''
KITS = {
    'chain': (CHAIN_SHIMS, ['ethereum-consensus'], CHAIN),
    'api': (CHAIN_SHIMS + ['reqwest', 'mev-share-sse'], ['ethereum-consensus', 'beacon-api-client'], CHAIN + 'beacon-api-client = { path = "wrap/beacon-api-client" }\nreqwest = { path = "shims/reqwest" }\nurl = "2.2.2"\n'),
    'ec': (EC_SHIMS, ['ethereum-consensus'], EC_DEPS),
    'bls': (CHAIN_SHIMS, ['ethereum-consensus'], CHAIN + 'blst = { path = "shims/blst" }\nrand = "0.8.4"\n'),
    'gen': ([], [], 'syn = { version = "1.0.98", features = ["full", "visit", "visit-mut", "extra-traits"] }\nprettyplease = "0.1.10"\nproc-macro2 = "1"\nquote = "1.0.18"\nclap = { version = "4.5.3", features = ["derive"] }\nconvert_case = "0.6.0"\n'),
}
def apply(root, edits):
    for f, fn, old, new in edits:
        p = os.path.join(root, f)
        t = open(p).read()
        i = t.index('fn ' + fn) if fn else 0
        j = t.index(old, i)
        open(p, 'w').write(t[:j] + new + t[j + len(old):])
def write(id):
    prop, kit, edits, needs, breaks = S[id]
    d = f'{V}/seeded/{id}'
    if os.path.exists(d): shutil.rmtree(d)
    os.makedirs(d + '/demo/src')
    w = f'/tmp/seedwork'
    subprocess.run(['git', '-C', '/repo', 'worktree', 'prune'])
    if not os.path.exists(w):
        subprocess.check_call(['git', 'clone', '-q', '/repo', w])
    subprocess.check_call(['git', '-C', w, 'fetch', '-q']); subprocess.check_call(['git', '-C', w, 'checkout', '-q', '-f', subprocess.check_output(['git','-C','/repo','rev-parse','HEAD'],text=True).strip()])
    apply(w, edits)
    open(d + '/patch.diff', 'w').write(subprocess.check_output(['git', '-C', w, 'diff'], text=True))
    subprocess.check_call(['git', '-C', w, 'checkout', '-q', '.'])
    src = open(f'{HERE}/seedsrc/{id}.rs').read()
    head = [l for l in src.split('\n') if l.startswith('//! ')][0][4:]
    open(d + '/demo/src/main.rs', 'w').write(src)
    if os.path.exists(f'{HERE}/seedsrc/{id}.build.rs'):
        shutil.copy(f'{HERE}/seedsrc/{id}.build.rs', d + '/demo/build.rs')
    shims, wraps, deps = KITS[kit]
    for x in shims:
        shutil.copytree(f'{V}/shims/{x}', f'{d}/demo/shims/{x}', ignore=shutil.ignore_patterns('target'))
    for x in wraps:
        shutil.copytree(f'{V}/wrap/{x}', f'{d}/demo/wrap/{x}')
        p = f'{d}/demo/wrap/{x}/Cargo.toml'
        t = open(p).read().replace('"/repo/', '"@REPO@/'); open(p, 'w').write(t)
    if 'mod kit;' in src:
        shutil.copy(f'{HERE}/seedsrc/kit.rs', d + '/demo/src/kit.rs')
    ws = f'members = [{", ".join(x for x in (chr(34)+"shims/*"+chr(34) if shims else "", chr(34)+"wrap/*"+chr(34) if wraps else "") if x)}]\n'
    open(d + '/demo/Cargo.toml', 'w').write(f'[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n{ws}[dependencies]\n{deps}[profile.dev]\ndebug = 0\nincremental = false\n')
    shutil.copy(f'{V}/Cargo.lock', d + '/demo/Cargo.lock')
    open(d + '/demo.sh', 'w').write(DEMO.format(ok=head)); os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    for r, _, fs in os.walk(d):
        for f in fs:
            if b'/verif' in open(os.path.join(r, f), 'rb').read(): print('names /verif:', r, f)
def test(id):
    w = '/tmp/seedwork'; d = f'{V}/seeded/{id}'
    subprocess.check_call(['git', '-C', w, 'checkout', '-q', '.'])
    c = subprocess.run(['bash', d + '/demo.sh'], cwd=w, capture_output=True, text=True)
    subprocess.check_call(['git', '-C', w, 'apply', d + '/patch.diff'])
    p = subprocess.run(['bash', d + '/demo.sh'], cwd=w, capture_output=True, text=True)
    subprocess.check_call(['git', '-C', w, 'checkout', '-q', '.'])
    print(id, 'OK' if c.returncode == 0 and p.returncode not in (0, 3) else 'BAD', 'clean', c.returncode, (c.stdout + c.stderr)[-300:] if c.returncode else '', 'patched', p.returncode, (p.stdout + p.stderr)[-200:].strip(), flush=True)
if __name__ == '__main__':
    ids = sys.argv[2:] or list(S)
    for i in ids: {'write': write, 'test': test}[sys.argv[1]](i)
