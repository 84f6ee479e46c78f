"""Which harness entry points decide which property, with what bounds."""
import json, os, sys
sys.modules.setdefault("registry", sys.modules[__name__])
HERE = os.path.dirname(os.path.abspath(__file__))

class Job:
    def __init__(self, area, entry, what, quick, thorough=None, must=None, features='', steps=20_000_000, conc=300, ite=4096, qlimit=150, tlimit=1200, qrel=None):
        """`quick`/`thorough`: bounds, tried in this order; the first `must` of them have to be explored completely."""
        self.area, self.entry, self.what, self.features, self.steps, self.conc, self.ite = area, entry, what, features, steps, conc, ite
        # the quick bounds that are explored in the release profile too (no debug assertions, no overflow checks)
        self.qrel = quick if qrel is True else (quick[:-1] or quick) if qrel is None else qrel
        self.qprofs = ['dev', 'rel'] if self.qrel else ['dev']
        m = len(quick) if must is None else must
        self.quick = [(a, i < m) for i, a in enumerate(quick)]
        th = thorough if thorough is not None else quick
        self.thorough = [(a, i < m) for i, a in enumerate(th)]
        self._l = {'quick': qlimit, 'thorough': tlimit}
    def limit(self, tier): return self._l[tier]

class Prop:
    """One property: what it says, and the jobs that decide it. `crates`: name fragments of the functions listed in the evidence."""
    def __init__(self, title, statement, over, quant, why, files, mech, crates, jobs, covers=(), bounds='', assumptions=(), note=''):
        self.title, self.statement, self.over, self.quant, self.why = title, statement, over.split(), quant, why
        self.files, self.mech, self.note = files.split(), mech, note
        self.crates, self.jobs, self.covers, self.bounds, self.assumptions = crates.split(), jobs, list(covers), bounds, list(assumptions)

COMMON_ASSUMPTIONS = [
    'the code checked is what rustc 1.99.1 (release profile, debug assertions and overflow checks on; the thorough tier also with both off) emits for /repo and std on x86_64: the compiler front end and LLVM optimiser are trusted',
    'the LLVM-to-SMT translation is trusted, but every run re-executes sampled solver models natively and compares outcome and trace',
    'allocation never fails; environment variables are unset; nothing outside the stated bounds is claimed',
]

def known(pid):
    f = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(f): return []
    return [k['what'] for k in json.load(open(f)).get('findings', []) if k['property'] == pid]

PROPS = {}
NOT_APPLICABLE = {}
import importlib
for m in ('text', 'collections_', 'parse', 'patterns', 'paths_', 'small', 'gen_'):
    mod = importlib.import_module('props.' + m)
    for k, v in mod.P.items():
        assert k not in PROPS, k
        PROPS[k] = v
    for k, v in getattr(mod, 'NA', {}).items(): NOT_APPLICABLE[k] = v
