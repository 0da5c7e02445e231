"""Loading of the facts the rustc driver extracts (MIR, types, ADTs, vtables)."""
import json


class Func:
    __slots__ = ('key', 'path', 'name', 'local', 'span', 'exported', 'nargs', 'locals', 'names', 'blocks',
                 'impl', 'tritem', 'kind', 'targs', 'spread', '_live', '_heads', '_back', '_joins', '_borrowed')

    def __init__(self, d):
        for k in ('key', 'path', 'name', 'local', 'span', 'exported', 'nargs', 'locals', 'names', 'blocks',
                  'impl', 'tritem', 'kind', 'targs', 'spread'):
            setattr(self, k, d[k])
        self._live = None
        self._heads = None

    # ---- control flow ---------------------------------------------------
    def succs(self, b):
        t = self.blocks[b]['t']
        k = t[0]
        if k == 'goto':
            return [t[1]]
        if k == 'switch':
            return [x[1] for x in t[2]] + [t[3]]
        if k == 'drop':
            return [t[2]]
        if k == 'call':
            return [t[4 - 0]] if isinstance(t[4], int) and t[4] >= 0 else []
        if k == 'assert':
            return [t[3]]
        if k == 'yield':
            return [t[1]]
        return []

    def _cfg(self):
        n = len(self.blocks)
        color = [0] * n
        back = set()
        indeg = [0] * n
        seen = set()
        st = [(0, iter(self.succs(0)))]
        color[0] = 1
        seen.add(0)
        while st:
            b, it = st[-1]
            adv = False
            for s in it:
                indeg[s] += 1
                if color[s] == 1:
                    back.add((b, s))
                elif color[s] == 0:
                    color[s] = 1
                    st.append((s, iter(self.succs(s))))
                    adv = True
                    break
            if not adv:
                color[b] = 2
                st.pop()
        self._back = back
        self._heads = {h for (_, h) in back}
        self._joins = {b for b in range(n) if indeg[b] >= 2}

    def heads(self):
        if self._heads is None:
            self._cfg()
        return self._heads

    def backedges(self):
        if self._heads is None:
            self._cfg()
        return self._back

    def joins(self):
        if self._heads is None:
            self._cfg()
        return self._joins

    # ---- liveness of locals at block entry -----------------------------
    def live(self, b):
        if self._live is None:
            self._liveness()
        return self._live[b]

    def _liveness(self):
        n = len(self.blocks)
        use = []
        de = []
        for b in range(n):
            u, d = set(), set()

            def use_place(p):
                if p[0] not in d:
                    u.add(p[0])
                for e in p[1:]:
                    if e[0] == 'i' and e[1] not in d:
                        u.add(e[1])

            def use_op(o):
                if 'cp' in o:
                    use_place(o['cp'])
                elif 'mv' in o:
                    use_place(o['mv'])

            def use_rv(r):
                k = r[0]
                if k == 'use' or k == 'repeat':
                    use_op(r[1])
                elif k in ('ref', 'reborrow', 'raw'):
                    use_place(r[2])
                elif k == 'cast':
                    use_op(r[2])
                elif k == 'bin':
                    use_op(r[2]); use_op(r[3])
                elif k == 'un':
                    use_op(r[2])
                elif k == 'discr':
                    use_place(r[1])
                elif k == 'agg':
                    for o in r[4]:
                        use_op(o)

            def def_place(p):
                if len(p) == 1:
                    d.add(p[0])
                else:
                    use_place(p)
            for s in self.blocks[b]['s']:
                if s[0] == '=':
                    use_rv(s[2])
                    def_place(s[1])
                elif s[0] == 'sd':
                    use_place(s[1])
                elif s[0] == 'dead':
                    if s[1] not in u:
                        d.add(s[1])
                elif s[0] == 'copynonoverlapping':
                    for o in s[1:]:
                        use_op(o)
            t = self.blocks[b]['t']
            if t[0] == 'switch':
                use_op(t[1])
            elif t[0] == 'call':
                use_op(t[1])
                for o in t[2]:
                    use_op(o)
                def_place(t[3])
            elif t[0] == 'assert':
                use_op(t[1])
            elif t[0] == 'return':
                if 0 not in d:
                    u.add(0)
            use.append(u)
            de.append(d)
        live = [set() for _ in range(n)]
        changed = True
        while changed:
            changed = False
            for b in range(n - 1, -1, -1):
                o = set()
                for s in self.succs(b):
                    o |= live[s]
                l = use[b] | (o - de[b])
                if l != live[b]:
                    live[b] = l
                    changed = True
        self._live = live


class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.types = d['types']
        self.adts = d['adts']
        o = self.adts.get('core::cmp::Ordering')
        if o:
            for v in o['variants']:      # an i8
                v['discr'] = {'255': '-1'}.get(v['discr'], v['discr'])
        self.impls = d['impls']
        self.statics = d.get('statics', {})
        self.funcs = {}
        self.bypath = {}
        for f in d['funcs']:
            F = Func(f)
            self.funcs[F.key] = F
            self.bypath.setdefault(F.path, []).append(F)
        self.vt = {}
        for v in d['vtables']:
            for m, k in v['m'].items():
                self.vt[(self.types[v['ty']]['s'], m)] = k
        self.tyidx = {}
        for i, t in enumerate(self.types):
            self.tyidx.setdefault(t['s'], i)

    def locals_(self):
        return [f for f in self.funcs.values() if f.local]

    def find(self, path):
        """all bodies whose def path (no generic args) is `path`"""
        return self.bypath.get(path, [])

    def one(self, path):
        l = self.find(path)
        return l[0] if l else None

    def ty(self, i):
        return self.types[i]

    def tstr(self, i):
        return self.types[i]['s']
