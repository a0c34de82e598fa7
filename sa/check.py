"""Rule harness: obligations, verdict policy, evidence and report files.

usage: python3-vt -m sa.check <PROPERTY> [quick|thorough]
"""
import contextlib
import json
import os
import sys
import time

from . import term as tm
from .term import T, B, TRUE, FALSE, ZERO, ONE, lift
from .values import Unsupported, Dead
from .load import AnalysisBroken

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# values that stand for something the analysis does not model: never a reason to refute
SOFT_OPS = {'unk', 'mu', 'trip', 'lastof', 'matvec', 'matel', 'diag', 'norm', 'det', 'matsum', 'first', 'phi'}
SOFT_VAL = {'call', 'attr', 'listitem', 'slice', 'item', 'matitem', 'matmeth', 'rec', 'frozen', 'forgotten', 'phi', 'mu',
            'matvec', 'generator', 'it', 'opq', 'ext'}


def soft_atoms(x):
    out = set()
    for a in tm.deep_atoms(x):
        if a.op in SOFT_OPS:
            out.add(a)
        elif a.op == 'sym' and str(a.args[0]).startswith('φ:'):
            pass
        elif a.op in ('val', 'sel', 'truthy', 'in') and a.args and isinstance(a.args[0], tuple) and a.args[0] and a.args[0][0] in SOFT_VAL:
            out.add(a)
    return out


class Obligation:
    def __init__(self, name, status, where, detail='', how=''):
        self.name, self.status, self.where, self.detail, self.how = name, status, where, detail, how

    def js(self):
        return {'obligation': self.name, 'status': self.status, 'where': self.where, 'how': self.how, 'detail': self.detail[:600]}


class Rule:
    """collects the obligations of one property"""

    def __init__(self, pid, tier='quick', seed=1):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.obs = []
        self.rules = []
        self.worlds = []
        self.notes = []
        self.counts = {}
        self.samples = 40 if tier == 'thorough' else 14

    # -- recording -------------------------------------------------------------
    def add(self, name, status, where, detail='', how=''):
        if status == 'REFUTED' and os.environ.get('SA_DEBUG'):
            print('  refuted', name, where, detail[:300])
        self.obs.append(Obligation(name, status, self.w(where), detail, how))
        return status == 'ok'

    def w(self, where):
        if where is None:
            return ''
        if isinstance(where, str):
            return where
        if hasattr(where, 'node') and hasattr(where, 'module'):
            return '%s:%d (%s)' % (where.module.rel, where.node.lineno, where.qual.split('.')[-1])
        if isinstance(where, tuple) and len(where) >= 2:
            return '%s:%s' % (where[0], where[1]) + (' (%s)' % where[2].split('.')[-1] if len(where) > 2 and where[2] else '')
        return str(where)

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def fact(self, name, ok, where, detail='', how='structural'):
        return self.add(name, 'ok' if ok else 'REFUTED', where, '' if ok else detail, how)

    def undecided(self, name, where, why):
        self.add(name, 'undecided', where, str(why))

    @contextlib.contextmanager
    def section(self, name, where=None, total=True):
        """anything the analysis cannot follow leaves the obligation undecided;
        total: the arguments are legal, so a call that cannot complete normally is a violation"""
        try:
            yield
        except AnalysisBroken as e:
            self.undecided(name, where, e)
        except Dead:
            if total:
                self.fact('%s completes' % name, False, where, 'no execution completes normally')
            else:
                self.undecided(name, where, 'no normal completion')
        except (Unsupported, ValueError, IndexError, KeyError, TypeError, AttributeError, NotImplementedError,
                ZeroDivisionError, RecursionError, AssertionError, tm.NotDifferentiable, tm.Undef) as e:
            if os.environ.get('SA_DEBUG'):
                import traceback
                traceback.print_exc(limit=-6)
                print('at', self.worlds[-1].ip.loc if self.worlds else None)
            self.undecided(name, where, '%s: %s' % (type(e).__name__, str(e)[:200]))

    # -- deciding ----------------------------------------------------------------
    def eq(self, name, got, want, where, care=TRUE, rels=(), hooks=None, samples=None, hard=()):
        """two value numbers denote the same value (wherever `care` holds)"""
        if isinstance(got, B) and isinstance(want, B):
            # conditions: many interpretations over a small grid, where ties occur
            samples, ties = max(samples or self.samples, 300), 2
        else:
            ties = 4
        if isinstance(got, B):
            got = tm.ite(got, ONE, ZERO)
        if isinstance(want, B):
            want = tm.ite(want, ONE, ZERO)
        if not isinstance(got, T):
            got = lift(got) if isinstance(got, (int, float)) else got
        if not isinstance(want, T):
            want = lift(want) if isinstance(want, (int, float)) else want
        if not isinstance(got, T) or not isinstance(want, T):
            self.undecided(name, where, 'not a scalar: %s' % type(got).__name__)
            return False
        if care is not TRUE:
            # values only matter where care holds
            got, want = tm.spec(got, care), tm.spec(want, care)
        def soft(x, y):
            return {a for a in soft_atoms(x) ^ soft_atoms(y) if a.op not in hard and not any(callable(h) and h(a) for h in hard)}
        v = tm.equal(got, want, rels=rels, hooks=hooks, samples=samples or self.samples, care=care, ties=ties, soft=soft)
        if v.equal is True:
            return self.add(name, 'ok', where, '', v.how)
        if v.equal is None:
            self.undecided(name, where, '%s %s' % (v.how, v.detail))
            return False
        self.add(name, 'REFUTED', where, v.detail, v.how)
        return False

    def holds(self, name, b, where, care=TRUE, hooks=None, need=None, tol=True, detail=''):
        """condition b is true wherever care is"""
        if isinstance(b, T):
            b = ~tm.eq0(b)
        if tm.implies(care, b):
            return self.add(name, 'ok', where, '', 'normal form')
        n = 0
        for seed in range((need or self.samples) * 12):
            s = tm.Sample(1000 + seed, grid=(seed % 4 == 3), hooks=hooks)
            try:
                if not s.B(care):
                    continue
                ok = s.B(b)
            except (tm.Undef, OverflowError):
                continue
            n += 1
            if not ok:
                u = (soft_atoms(b) | soft_atoms(care)) & s.touched
                if u:
                    self.undecided(name, where, 'depends on unmodelled values: %s' % ', '.join(tm.show(a) for a in list(u)[:3])[:300])
                    return False
                return self.add(name, 'REFUTED', where, detail or ('condition fails: %s' % tm.show(b)), 'random interpretation')
            if n >= (need or self.samples) * 3:
                break
        if n < 4:
            self.undecided(name, where, 'no admissible interpretation')
            return False
        return self.add(name, 'ok', where, '', 'random interpretation')

    def le(self, name, a, b, where, care=TRUE, hooks=None):
        """a <= b wherever care holds (up to rounding)"""
        if tm.implies(care, tm.le(a, b)):
            return self.add(name, 'ok', where, '', 'normal form')
        n = 0
        for seed in range(self.samples * 20):
            s = tm.Sample(2000 + seed, grid=(seed % 4 == 3), hooks=hooks)
            try:
                if not s.B(care):
                    continue
                x, y = s.T(a), s.T(b)
            except (tm.Undef, OverflowError):
                continue
            n += 1
            if x > y + 1e-7 * (1 + abs(x) + abs(y)):
                u = (soft_atoms(a) | soft_atoms(b)) & s.touched
                if u:
                    self.undecided(name, where, 'depends on unmodelled values')
                    return False
                return self.add(name, 'REFUTED', where, '%s exceeds %s' % (tm.show(a), tm.show(b)), 'random interpretation')
            if n >= self.samples * 4:
                break
        if n < 4:
            self.undecided(name, where, 'no admissible interpretation')
            return False
        return self.add(name, 'ok', where, '', 'random interpretation')


KNOWN = os.path.join(HERE, 'known_findings.json')


def known(pid):
    try:
        with open(KNOWN) as f:
            return [k for k in json.load(f)['findings'] if k.get('property') == pid and k.get('status') == 'known']
    except FileNotFoundError:
        return []


def run(pid, tier):
    from .registry import RULES
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    if pid not in RULES:
        print('unknown property', pid)
        return 2
    fn, floor, explanation = RULES[pid]
    r = Rule(pid, tier, seed)
    try:
        fn(r)
    except AnalysisBroken as e:
        print('ANALYSIS-BROKEN property=%s %s' % (pid, e))
        return 2
    # one verdict per distinct obligation
    decided = [o for o in r.obs if o.status != 'undecided']
    refuted = [o for o in r.obs if o.status == 'REFUTED']
    und = [o for o in r.obs if o.status == 'undecided']
    ks = known(pid)
    new, old = [], []
    for o in refuted:
        k = next((k for k in ks if k['obligation'] == o.name and k['where'].split(':')[0] in o.where), None)
        (old if k else new).append((o, k))
    visited, stmts, unm = set(), 0, {}
    for w in r.worlds:
        visited |= w.ip.visited
        stmts += w.ip.nstmts
        for k, v in w.ip.unmodelled.items():
            unm[k] = unm.get(k, 0) + v
    cov = {
        'explanation': explanation,
        'rule': ' ; '.join(r.rules) or (fn.__doc__ or '').strip(),
        'obligations_generated': len(r.obs),
        'obligations_decided': len(decided),
        'obligations_undecided': len(und),
        'decided_by': {h: sum(1 for o in decided if o.how == h) for h in sorted({o.how for o in decided})},
        'functions_interpreted': sorted('%s' % (q,) for _, q in visited),
        'statements_interpreted': stmts,
        'external_calls_not_modelled': unm,
        'counts': r.counts,
        'samples': [o.js() for o in (refuted + und + decided)[:12]],
        'undecided': [o.js() for o in und[:20]],
        'notes': r.notes,
    }
    os.makedirs(os.path.join(HERE, 'evidence', 'replay'), exist_ok=True)
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov,
          'assumptions': ['real arithmetic: rounding is not modelled', 'the numpy/scipy semantics of DESIGN.md section 3'],
          'wall_s': round(time.time() - t0, 3), 'violations': len(new)}
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s: %d obligations, %d decided, %d refuted, %d undecided; %d functions interpreted, %.1fs' % (
        pid, len(r.obs), len(decided), len(refuted), len(und), len(visited), time.time() - t0))
    for o in und[:12]:
        print('UNDECIDED %s at %s: %s' % (o.name, o.where, o.detail[:200]))
    for o, k in old:
        print('KNOWN-FINDING: property=%s %s at %s: %s' % (pid, o.name, o.where, k['what']))
    if new:
        path = os.path.join(HERE, 'evidence', 'replay', pid + '.json')
        with open(path, 'w') as f:
            json.dump({'property': pid, 'violations': [o.js() for o, _ in new],
                       'rerun': 'cd /verif && python3-vt -m sa.check %s %s' % (pid, tier)}, f, indent=1)
        for o, _ in new[:20]:
            print('  %s: %s violated: %s' % (o.where, o.name, o.detail[:400]))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if len(decided) < floor:
        print('ANALYSIS-BROKEN property=%s only %d obligations could be decided (floor %d)' % (pid, len(decided), floor))
        return 2
    return 0


if __name__ == '__main__':
    sys.setrecursionlimit(20000)
    import threading
    threading.stack_size(512 * 1024 * 1024)
    res = []
    args = sys.argv[1:]
    t = threading.Thread(target=lambda: res.append(run(args[0], args[1] if len(args) > 1 else os.environ.get('VERIF_TIER', 'quick'))))
    t.start()
    t.join()
    sys.exit(res[0] if res else 2)
