import traceback
from ..dom import *
from ..engine import Analysis, Imprecise, State
from .. import models
from ..models import some, ok, err, split, load, loadall, snap, mk_eqv, NONE, OPT, RES


class Guard:
    """analysis failures leave an obligation undecided, they are never alarms"""

    def __init__(self, R, name):
        self.R = R
        self.name = name

    def __enter__(self):
        self.R.ob(self.name)
        return self

    def __exit__(self, et, e, tb):
        if et is None:
            return False
        if issubclass(et, Exception):
            msg = str(e) if et is Imprecise else ''.join(traceback.format_exception_only(et, e)) + ''.join(traceback.format_tb(tb)[-3:])
            self.R.undecided(self.name, msg)
            return True
        return False


def anchor(R, P, path):
    f = P.one(path)
    if f is None:
        R.bad('anchor:' + path, 'the public item %s is missing' % path)
    return f


def field(P, adt, name, variant=0):
    for i, f in enumerate(P.adts[adt]['variants'][variant]['fields']):
        if f['name'] == name:
            return i
    raise KeyError('%s.%s' % (adt, name))


def variant(P, adt, name):
    for i, v in enumerate(P.adts[adt]['variants']):
        if v['name'] == name:
            return i
    raise KeyError('%s::%s' % (adt, name))


def vname(P, adt, i):
    return P.adts[adt]['variants'][i]['name']


def pp(P, v):
    def f(v):
        if not isinstance(v, tuple):
            return str(v)
        k = v[0] if v else ''
        if k == 'i':
            return str(v[1])
        if k == 'b':
            return 'true' if v[1] else 'false'
        if k == 'str':
            return repr(v[1])
        if k == 'y' or k == 'k' and isinstance(v[1], str):
            return v[1]
        if k == 'adt':
            n = v[1].split('::')[-1]
            ad = P.adts.get(v[1])
            if ad and ad['kind'] == 'enum':
                n = ad['variants'][v[2]]['name']
            return n + ('(' + ', '.join(map(f, v[3])) + ')' if v[3] else '')
        if k == 'arr':
            return '[' + ', '.join(map(f, v[1])) + ']'
        if k == 'lin':
            return '(' + str(v[1]) + ''.join('%+d*%s' % (c, f(t)) for t, c in v[2]) + ')'
        if k == 'p':
            return '%s.%s%s' % (f(v[1]), 'v%d.' % v[2] if v[2] else '', v[3])
        if k == 't':
            if v[1] == 'elem':
                return '%s[%s]' % (f(v[2]), f(v[3]))
            if v[1] in ('*', '&'):
                return v[1] + f(v[2])
            return v[1] + '(' + ', '.join(map(f, v[2:])) + ')'
        if k == 'comp':
            return '{%s for %s<%s}' % (f(v[3]), f(v[1]), f(v[2]))
        if k in ('box', 'dyn'):
            return k + '(' + f(v[1]) + ')'
        return '(' + ', '.join(map(f, v)) + ')'
    return f(v)


def fork(st):
    return st.copy()


def subterms(v):
    yield v
    if isinstance(v, tuple):
        for x in v:
            if isinstance(x, tuple):
                yield from subterms(x)


def parallel(R, items, job, n=None):
    """job(R, item) for every item, on all cores; the reports of the workers are merged in a fixed order"""
    import os
    import pickle
    import signal
    from ..report import Report
    items = list(items)
    n = min(n or os.cpu_count() or 1, len(items), 8)
    if n < 2:
        for it in items:
            job(R, it)
        return
    kids = []
    for k in range(n):
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(rd)
                signal.alarm(0)
                Q = Report(R.prop)
                for it in items[k::n]:
                    job(Q, it)
                with os.fdopen(wr, 'wb') as fh:
                    pickle.dump({a: getattr(Q, a) for a in ('viol', 'undec', 'obl', 'counts', 'notes', 'samples', 'functions', 'models')}, fh)
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(0)
        os.close(wr)
        kids.append((pid, rd))
    try:
        for k, (pid, rd) in enumerate(kids):
            with os.fdopen(rd, 'rb') as fh:
                data = fh.read()
            try:
                d = pickle.loads(data)
            except Exception:
                R.undecided('worker:%d' % k, 'a part of the analysis ended without a result')
                continue
            for x, s in d['obl'].items():
                if R.obl.get(x) != 'bad':
                    R.obl[x] = s if s != 'ok' or x not in R.obl else R.obl[x]
            for a in ('viol', 'undec'):
                for x, v in d[a].items():
                    getattr(R, a).setdefault(x, v)
            for x, v in d['counts'].items():
                R.count(x, v)
            R.notes += d['notes']
            for s in d['samples']:
                R.sample(s)
            R.functions |= d['functions']
            R.models |= d['models']
    except BaseException:
        for pid, _ in kids:
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
        raise
    finally:
        for pid, _ in kids:
            try:
                os.waitpid(pid, 0)
            except OSError:
                pass
