"""Registry of the checks, and the committed list of known findings."""
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# property -> (rule module, rule function)
RULES = {
    'C01': ('enc', 'c01'),
    'C02': ('tok', 'c02'),
    'C03': ('tok', 'c03'),
    'C04': ('dec', 'c04'),
    'C05': ('enc', 'c05'),
    'C06': ('enc', 'c06'),
    'C07': ('tok', 'c07'),
    'C18': ('dec', 'c18'),
    'C08': ('basic', 'c08'),
    'C09': ('basic', 'c09'),
    'C10': ('basic', 'c10'),
    'C11': ('basic', 'c11'),
    'C27': ('basic', 'c27'),
    'C28': ('basic', 'c28'),
    'C30': ('basic', 'c30'),
    'C19': ('sqlt', 'c19'),
    'C20': ('sqlt', 'c20'),
    'C21': ('sqlt', 'c21'),
    'C22': ('sqlt', 'c22'),
    'C12': ('marsh', 'c12'),
    'C13': ('marsh', 'c13'),
    'C14': ('marsh', 'c14'),
    'C16': ('nsm', 'c16'),
    'C17': ('nsm', 'c17'),
    'C31': ('sqln', 'c31'),
    'C24': ('cat', 'c24'),
    'C25': ('stor', 'c25'),
    'C26': ('stor', 'c26'),
    'C29': ('stor', 'c29'),
    'C23': ('parse', 'c23'),
    'C32': ('parse', 'c32'),
    'C33': ('stor', 'c33'),
}

ASSUME = [
    'rustc nightly MIR of the crate (debug profile, overflow checks on) is what gets built',
    'std functions that are not inlined behave as the contracts in va/models.py and models/vmodels.rs say',
    'trait objects passed in by a caller honour the documented contract of their trait',
]


def level(prop):
    return 'other'


def findings(prop):
    """key -> description, for the known findings of a property"""
    out = {}
    p = os.path.join(ROOT, 'known_findings.txt')
    if not os.path.exists(p):
        return out
    for l in open(p):
        l = l.strip()
        if l.startswith('known: '):
            head, _, what = l[len('known: '):].partition(' :: ')
            kv = dict(x.split('=', 1) for x in head.split(' ') if '=' in x)
            if kv.get('property') == prop:
                out[kv['key']] = what
    return out
