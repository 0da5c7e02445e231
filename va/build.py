"""Build the fact extractor and run it over a scratch copy of /repo's current sources."""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CACHE = os.path.join(ROOT, '.cache')


def _files(base, subs):
    out = []
    for s in subs:
        p = os.path.join(base, s)
        if os.path.isfile(p):
            out.append(p)
        for d, ds, fs in os.walk(p):
            ds.sort()
            if 'target' in ds:
                ds.remove('target')
            for f in sorted(fs):
                out.append(os.path.join(d, f))
    return out


def digest():
    h = hashlib.sha256()
    for p in _files(REPO, ['src', 'build.rs', 'Cargo.toml', 'Cargo.lock']) + \
            _files(ROOT, ['driver/src', 'driver/Cargo.toml', 'models']):
        if p.endswith('core/types/parser.rs'):
            continue            # generated, ignored by git
        h.update(p.encode())
        h.update(open(p, 'rb').read())
    return h.hexdigest()[:24]


class BuildError(Exception):
    pass


def run(cmd, cwd, env):
    r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError('%s failed:\n%s' % (' '.join(cmd), r.stdout[-6000:]))
    return r.stdout


def facts():
    """directory with the extracted facts for the current tree"""
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        d = os.path.join(CACHE, 'facts-' + digest())
        if os.path.exists(os.path.join(d, 'ok')):
            return d
        env = dict(os.environ)
        env['CARGO_NET_OFFLINE'] = 'true'
        env.pop('RUSTC_WRAPPER', None)
        sysroot = subprocess.run(['rustc', '+nightly', '--print', 'sysroot'], stdout=subprocess.PIPE, text=True).stdout.strip()
        env['LD_LIBRARY_PATH'] = sysroot + '/lib'
        dt = os.path.join(CACHE, 'driver')
        e1 = dict(env)
        e1['CARGO_TARGET_DIR'] = dt
        run(['cargo', '+nightly', 'build', '--offline'], os.path.join(ROOT, 'driver'), e1)
        # scratch copy of the sources (generated parsers are rebuilt there)
        src = os.path.join(CACHE, 'src')
        if os.path.isdir(src):
            shutil.rmtree(src)
        os.makedirs(src)
        for n in ('src', 'build.rs', 'Cargo.toml', 'Cargo.lock'):
            p = os.path.join(REPO, n)
            if os.path.isdir(p):
                shutil.copytree(p, os.path.join(src, n))
            elif os.path.exists(p):
                shutil.copy(p, os.path.join(src, n))
        lib = os.path.join(src, 'src', 'lib.rs')
        orig = open(lib).read()
        mdir = os.path.join(ROOT, 'models')
        base = open(os.path.join(mdir, 'vmodels.rs')).read()
        extra = {n: open(os.path.join(mdir, n)).read() for n in sorted(os.listdir(mdir)) if n.startswith('h_')}

        def write(names):
            with open(lib, 'w') as f:
                f.write(orig + base + ''.join(extra[n] for n in names))
        for old in os.listdir(CACHE):
            if old.startswith('facts-'):
                shutil.rmtree(os.path.join(CACHE, old))
        os.makedirs(d)
        e2 = dict(env)
        e2['VALUE_BAG_CAPTURE_CTOR'] = '1'
        e2['VFACTS_OUT'] = d
        e2['RUSTC_WORKSPACE_WRAPPER'] = os.path.join(dt, 'debug', 'vfacts')
        e2['CARGO_TARGET_DIR'] = os.path.join(CACHE, 'target')
        chk = ['cargo', '+nightly', 'check', '--offline', '--lib', '--bins']
        try:
            write(extra)
            run(chk, src, e2)
        except BuildError:
            # an analysis entry point no longer type-checks: keep the ones that do
            good = []
            for n in extra:
                try:
                    write(good + [n])
                    run(chk, src, e2)
                    good.append(n)
                except BuildError:
                    pass
            write(good)
            run(chk, src, e2)
        if not os.path.exists(os.path.join(d, 'cathlamet.lib.json')):
            raise BuildError('no facts were extracted')
        for p in _files(src, ['src']):
            if p.endswith('/parser.rs'):
                shutil.copy(p, os.path.join(d, os.path.relpath(p, src).replace('/', '+')))
        shutil.rmtree(src)
        open(os.path.join(d, 'ok'), 'w').close()
        return d


if __name__ == '__main__':
    print(facts())
