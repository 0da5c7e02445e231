"""Findings of one check run."""
import json
import os
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Report:
    def __init__(self, prop):
        self.prop = prop
        self.t0 = time.time()
        self.viol = {}          # key -> detail
        self.undec = {}
        self.obl = {}           # obligation name -> state ('ok' | 'bad' | 'undecided')
        self.counts = {}
        self.notes = []
        self.samples = []
        self.functions = set()
        self.models = set()

    def ob(self, name):
        self.obl.setdefault(name, 'ok')

    def bad(self, key, msg, site=None, ob=None):
        self.obl[ob or key] = 'bad'
        self.viol.setdefault(key, {'key': key, 'what': msg, 'where': site})

    def undecided(self, key, msg, site=None, ob=None):
        n = ob or key
        if self.obl.get(n) != 'bad':
            self.obl[n] = 'undecided'
        self.undec.setdefault(key, {'key': key, 'why': msg, 'where': site})

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def seen(self, A):
        for k in A.funcs_seen:
            f = A.prog.funcs[k]
            if f.local and 'vmodels' not in f.path:
                self.functions.add(f.path)
        self.models |= {m for m in A.models_used}
        if getattr(A, 'g', None) is not None:
            self.count('abstract_states', len(A.g.nodes))
            self.count('abstract_transitions', len(A.g.edges))
