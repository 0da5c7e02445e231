#!/usr/bin/env python3
"""seed.py [ID...]: (re)create /verif/seeded/<id> from tools/seeds/*.py and confirm each one in a scratch copy.

A seed: id, property, needs, breaks, file, reps [(old, new), ...] (or edits {file: reps}), demo (Rust test code), mod (module file
the demo test is appended to; default src/lib.rs).  Confirmed: builds, the tests pass, the demo passes
without and fails with the change.  --check also runs the property's check on the changed copy.
"""
import glob
import importlib.util
import json
import os
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = '/tmp/seedwork'
ENV = dict(os.environ, HOME='/root', RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true',
           CARGO_TARGET_DIR=S + '/target', CARGO_PROFILE_DEV_DEBUG='line-tables-only', CARGO_TERM_COLOR='never')
DEMO = '''#!/bin/bash
# exit 0 when the demonstration test passes on the tree in the current directory
here=$(cd "$(dirname "$0")" && pwd)
S=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$S"' EXIT
cp -r src build.rs Cargo.toml Cargo.lock "$S"/ || exit 2
cp "$here/demo.rs" "$S/demo.rs" || exit 2
printf '\\n#[cfg(test)]\\n#[path = "%s/demo.rs"]\\nmod vp_demo;\\n' "$S" >> "$S/@MOD@"
cd "$S" || exit 2
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$S/target" RUSTC_WRAPPER= CARGO_PROFILE_DEV_DEBUG=0
cargo test --offline --lib vp_demo > log 2>&1
rc=$?
tail -n 40 log
grep -q 'test result: ok. [1-9]' log || rc=1
exit $rc
'''


SCRIPT = DEMO[:DEMO.index('cp "$here')] + '''cd "$S" || exit 2
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$S/target" RUSTC_WRAPPER= CARGO_PROFILE_DEV_DEBUG=0
'''


def sh(cmd, cwd=None, env=ENV):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def fresh():
    os.makedirs(S, exist_ok=True)
    d = S + '/repo'
    if os.path.isdir(d):
        shutil.rmtree(d)
    sh('git -C /repo worktree prune; git clone -q /repo ' + d)
    if os.path.exists('/repo/src/core/types/parser.rs'):
        shutil.copy2('/repo/src/core/types/parser.rs', d + '/src/core/types/parser.rs')
    return d


def clean(d):
    sh('git checkout -q -- .', cwd=d)
    shutil.copyfile('/repo/src/core/types/parser.rs', d + '/src/core/types/parser.rs')


def demo(d, dirn):
    # the same demo, but with the shared target directory to save time
    mod = open(dirn + '/mod').read() if os.path.exists(dirn + '/mod') else 'src/lib.rs'
    x = S + '/demo'
    if os.path.isdir(x):
        shutil.rmtree(x)
    os.makedirs(x)
    for n in ('src', 'build.rs', 'Cargo.toml', 'Cargo.lock'):
        sh('cp -r %s/%s %s/' % (d, n, x))
    if not os.path.exists(dirn + '/demo.rs'):
        r = sh('timeout 280 bash %s/demo.sh' % dirn, cwd=x)
        return r.returncode == 0, r.stdout
    m = [l for l in open(dirn + '/demo.sh') if 'mod vp_demo' in l][0].split('"$S/')[1].split('"')[0]
    with open(x + '/' + m, 'a') as f:
        f.write('\n#[cfg(test)]\n#[path = "%s/demo.rs"]\nmod vp_demo;\n' % dirn)
    r = sh('timeout 280 cargo test --offline --lib vp_demo', cwd=x, env=dict(ENV, CARGO_TARGET_DIR=S + '/dtarget'))
    return 'test result: ok. ' in r.stdout and 'test result: ok. 0' not in r.stdout and r.returncode == 0, r.stdout


def main():
    want = [a for a in sys.argv[1:] if not a.startswith('-')]
    seeds = []
    for p in sorted(glob.glob(ROOT + '/tools/seeds/*.py')):
        spec = importlib.util.spec_from_file_location('s', p)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        seeds += m.SEEDS
    base = None
    for s in seeds:
        if want and not any(s['id'].startswith(w) for w in want):
            continue
        if base is None:
            base = fresh()
        clean(base)
        bad = None
        edits = s.get('edits') or {s['file']: s['reps']}
        for f, reps in edits.items():
            p = base + '/' + f
            t = open(p).read()
            for a, b in reps:
                if t.count(a) != 1:
                    bad = 'pattern found %d times: %r' % (t.count(a), a)
                t = t.replace(a, b, 1)
            open(p, 'w').write(t)
        if bad:
            print(s['id'], 'BAD', bad)
            continue
        dirn = ROOT + '/seeded/' + s['id']
        os.makedirs(dirn, exist_ok=True)
        open(dirn + '/patch.diff', 'w').write(sh('git diff', cwd=base).stdout)
        open(dirn + '/demo.sh', 'w').write(SCRIPT + s['script'] if 'script' in s else DEMO.replace('@MOD@', s.get('mod', 'src/lib.rs')))
        os.chmod(dirn + '/demo.sh', 0o755)
        if 'demo' in s:
            open(dirn + '/demo.rs', 'w').write(s['demo'].strip('\n') + '\n')
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
                  open(dirn + '/meta.json', 'w'), indent=1)
        r = sh('cargo test --offline --workspace', cwd=base)
        tests = r.returncode == 0 and ' 0 failed' in r.stdout
        with_, o1 = demo(base, dirn)
        caught = ''
        if '--check' in sys.argv:
            c = sh('VERIF_REPO=%s python3 check.py %s quick' % (base, s['property']), cwd=ROOT, env=dict(os.environ, VERIF_REPO=base))
            caught = 'caught' if c.returncode == 1 else 'MISSED rc=%d' % c.returncode
            print(c.stdout[-800:])
        clean(base)
        without, o2 = demo(base, dirn)
        good = tests and without and not with_
        print(s['id'], 'ok' if good else 'BAD tests=%s demo-without=%s demo-with=%s' % (tests, without, with_), caught)
        if not good:
            if not tests:
                print(r.stdout[-1500:])
            if not without:
                print(o2[-2500:])
        elif 'could not compile' in o1:
            print(s['id'], 'BAD demo does not compile with the change', o1[-1500:])
        sys.stdout.flush()


main()
