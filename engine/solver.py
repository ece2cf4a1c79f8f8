"""Discharging obligations: z3 (python API, e-matching first, then MBQI) with cvc5 as second back end."""
import json
import multiprocessing as mp
import z3
import time
import os
import subprocess
import tempfile
from values import *

# ---------------------------------------------------------------- theory
MUL = z3.Function('mul', I, I, I)
QUO = z3.Function('quo', I, I, I)      # truncating division of non-negative numbers; facts assumed where it is used
REM = z3.Function('rem', I, I, I)
OFF = z3.Function('off', I, I, I, I)     # off(cols,x,y) = mul(x,cols)+y


def has_sym(es, names):
    seen = set()
    todo = list(es)
    found = set()
    while todo:
        e = todo.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(e):
            todo.append(e.body())
            for k in range(e.num_patterns()):
                todo.append(e.pattern(k))
        elif z3.is_app(e):
            n = e.decl().name()
            if n in names:
                found.add(n)
            todo += e.children()
    return found


class Theory:
    """named axiom groups, pulled in only when one of their symbols occurs"""

    def __init__(self):
        self.groups = []     # (symbols, [axioms], [imports])

    def add(self, symbols, axioms):
        self.groups.append((set(symbols), axioms))

    def relevant(self, es):
        out = []
        used = set()
        cur = list(es)
        names = set()
        for g in self.groups:
            names |= g[0]
        found = has_sym(cur, names)
        changed = True
        while changed:
            changed = False
            for i, (syms, ax) in enumerate(self.groups):
                if i in used or not (syms & found):
                    continue
                used.add(i)
                out += ax
                found |= has_sym(ax, names)
                changed = True
        return out


def arith_axioms():
    a, b, c, x, y = z3.Ints('a b c x y')
    FA = z3.ForAll
    mul = [
        FA([a, b], MUL(a, b) == MUL(b, a), patterns=[MUL(a, b)]),
        FA([a, b], z3.Implies(z3.And(a >= 0, b >= 0), MUL(a, b) >= 0), patterns=[MUL(a, b)]),
        FA([a, b], z3.Implies(a == 0, MUL(a, b) == 0), patterns=[MUL(a, b)]),
        FA([a, b], z3.Implies(a == 1, MUL(a, b) == b), patterns=[MUL(a, b)]),
        FA([a, b, c], z3.Implies(z3.And(a < b, c >= 0), MUL(a, c) + c <= MUL(b, c)), patterns=[z3.MultiPattern(MUL(a, c), MUL(b, c))]),
        FA([a, b, c], z3.Implies(b == a + 1, MUL(b, c) == MUL(a, c) + c), patterns=[z3.MultiPattern(MUL(a, c), MUL(b, c))]),
        FA([a, b, c], z3.Implies(c == b + 1, MUL(a, c) == MUL(a, b) + a), patterns=[z3.MultiPattern(MUL(a, b), MUL(a, c))]),
    ]
    off = [FA([c, x, y], OFF(c, x, y) == MUL(x, c) + y, patterns=[OFF(c, x, y)])]
    return mul, off


def split_store(goal):
    """forall i: phi(store(a,t,v)[i])  ->  phi at i == t (reading v) and phi for i != t (reading a); only for arrays of records"""
    if not (z3.is_quantifier(goal) and goal.is_forall()):
        return None
    n = goal.num_vars()
    sk = [z3.Const('sk!%s!%d' % (goal.var_name(k).split('!')[0], next(_skn)), goal.var_sort(k)) for k in range(n)]
    ids = {s.get_id() for s in sk}
    body = z3.substitute_vars(goal.body(), *reversed(sk))
    found = []
    seen = set()
    todo = [body]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            continue
        if z3.is_select(x) and x.num_args() == 2 and x.arg(1).get_id() in ids and z3.is_store(x.arg(0)) and x.sort().kind() == z3.Z3_DATATYPE_SORT:
            found.append(x)
        todo += x.children()
    if not found:
        return None
    i = found[0].arg(1)
    t = found[0].arg(0).arg(1)
    hit = z3.simplify(z3.substitute(body, (i, t)))
    miss = z3.substitute(body, *[(x, z3.Select(x.arg(0).arg(0), i)) for x in found if x.arg(1).eq(i) and x.arg(0).arg(1).eq(t)])
    return [([], hit), ([i != t], miss)]


_skn = __import__('itertools').count()


def limit(s, ms):
    """a budget in solver steps (about `ms` of an idle core), so that a loaded machine gives the same answers;
    the wall clock is only a backstop"""
    s.set('rlimit', int(ms) * RATE)
    s.set('timeout', int(ms) * 8)


RATE = int(os.environ.get('RATE', '1200'))


class Stats:
    def __init__(self):
        self.time = 0.0
        self.by = {}
        self.calls = 0


class Solver:
    def __init__(self, theory, timeout=8000, use_cvc5=True):
        self.theory = theory
        self.timeout = timeout
        self.use_cvc5 = use_cvc5
        self.patience = 1
        self.stats = Stats()
        self.quick_cache = {}

    def _mk(self, hyps, goal, mbqi, timeout, seed=0, auto=False):
        s = z3.SimpleSolver()
        limit(s, timeout)
        if not mbqi:
            s.set('auto_config', auto)
            s.set('mbqi', False)
        s.set('random_seed', seed)
        fs = list(hyps) + ([z3.Not(goal)] if goal is not None else [])
        for ax in self.theory.relevant(fs):
            s.add(ax)
        for f in fs:
            s.add(f)
        return s

    def prove(self, hyps, goal, timeout=None, deep=False):
        """-> ('proved', backend) | ('failed', model-or-None) | ('unknown', reason)"""
        t0 = time.time()
        self.stats.calls += 1
        try:
            if z3.is_true(goal):
                return 'proved', 'simplify'
            g = z3.simplify(goal)
            if z3.is_true(g):
                return 'proved', 'simplify'
            to = timeout or self.timeout * self.patience
            parts = split_store(goal)
            if parts:
                last = None
                for extra, part in parts:
                    last = self.prove(hyps + extra, part, timeout, deep)
                    if last[0] != 'proved':
                        return last
                return last
            # quick attempts with different seeds first: a search either closes early or wanders off
            for seed, part in ((0, 6), (1, 6), (2, 6), (3, 6), (0, 1)):
                s = self._mk(hyps, goal, False, to // part, seed)
                r = s.check()
                if r == z3.unsat or 'incomplete' in s.reason_unknown():
                    break
            if os.environ.get('QDUMP') and (r != z3.unsat or os.environ.get('QALL')) and os.environ['QDUMP'] in str(goal):
                self.nd = getattr(self, 'nd', 0) + 1
                open('/tmp/q%d_%d.smt2' % (os.getpid(), self.nd), 'w').write(s.to_smt2())
                print('QDUMP', self.nd, r, s.reason_unknown(), time.time() - t0)
            if os.environ.get('RLOG'):
                st_ = s.statistics()
                rl = [st_.get_key_value(k) for k in st_.keys() if k == 'rlimit count']
                open('/tmp/rlog','a').write('%s %.3f %s\n' % (r, time.time()-t0, rl))
            if r == z3.unsat:
                return 'proved', 'z3-ematching'
            if deep:
                sa = self._mk(hyps, goal, False, min(to, 4000), auto=True)
                if sa.check() == z3.unsat:
                    return 'proved', 'z3-ematching'
            if not deep:
                return 'unknown', s.reason_unknown() if r == z3.unknown else 'sat'
            model = None
            s2 = self._mk(hyps, goal, True, to)
            r2 = s2.check()
            if r2 == z3.unsat:
                return 'proved', 'z3-mbqi'
            if r2 == z3.sat:
                model = s2.model()
                return 'failed', model
            if self.use_cvc5:
                r3 = self._cvc5(s2, to)
                if r3 == 'unsat':
                    return 'proved', 'cvc5'
            return 'unknown', 'z3: %s / %s' % (s.reason_unknown() if r == z3.unknown else r, s2.reason_unknown())
        finally:
            self.stats.time += time.time() - t0

    # ---- many goals at once, in forked workers -----------------------------
    sem = None          # tokens shared by all verifier processes (set by check.py)
    workers = int(os.environ.get('VERIF_PAR', '8'))

    def prove_many(self, tasks, timeout=None, deep=False, skip=None, show=None):
        """tasks: [(hyps, goal)] -> [(status, info, seconds)] in order; skip: group key per task, once a member
        of a group is not proved its other members may be reported 'skipped'"""
        n = len(tasks)
        res = [None] * n
        trivial = []
        for i, (h, g) in enumerate(tasks):
            if z3.is_true(g) or z3.is_true(z3.simplify(g)):
                res[i] = ('proved', 'simplify', 0.0)
                self.stats.calls += 1
            else:
                trivial.append(i)
        todo = trivial
        k = min(self.workers, (len(todo) + 3) // 4)

        def one(i):
            t0 = time.time()
            if self.sem is not None:
                self.sem.acquire()
            try:
                r, info = self.prove(tasks[i][0], tasks[i][1], timeout, deep)
            finally:
                if self.sem is not None:
                    self.sem.release()
            if r == 'failed':
                info = show(info) if show else ''
            return r, str(info)[:3000], time.time() - t0
        if k <= 1:
            bad = set()
            for i in todo:
                if skip and skip[i] in bad:
                    res[i] = ('skipped', '', 0.0)
                    continue
                res[i] = one(i)
                if skip and res[i][0] != 'proved':
                    bad.add(skip[i])
            return res
        ctr = mp.Value('i', 0)
        badf = mp.Array('b', max(skip) + 1) if skip else None
        kids = []
        for _ in range(k):
            r_, w_ = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.close(r_)
                    out = []
                    while True:
                        with ctr.get_lock():
                            j = ctr.value
                            ctr.value += 1
                        if j >= len(todo):
                            break
                        i = todo[j]
                        if skip and badf[skip[i]]:
                            out.append((i, 'skipped', '', 0.0))
                            continue
                        r = one(i)
                        if skip and r[0] != 'proved':
                            badf[skip[i]] = 1
                        out.append((i,) + r)
                    with os.fdopen(w_, 'w') as f:
                        json.dump(out, f)
                    code = 0
                finally:
                    os._exit(code)
            os.close(w_)
            kids.append((pid, r_))
        for pid, r_ in kids:
            with os.fdopen(r_) as f:
                txt = f.read()
            os.waitpid(pid, 0)
            if txt:
                for i, r, info, t in json.loads(txt):
                    res[i] = (r, info, t)
                    self.stats.time += t
                    self.stats.calls += 1
        for i in range(n):
            if res[i] is None:
                res[i] = ('unknown', 'solver process died', 0.0)
        return res

    def consistent(self, pc, timeout=3000):
        """not refutable: no contradiction found among the hypotheses (vacuity guard)"""
        s = self._mk(pc, None, False, timeout)
        return s.check() != z3.unsat

    def _cvc5(self, s, to):
        txt = s.to_smt2()
        txt = '(set-logic ALL)\n' + txt
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
            f.write(txt)
        try:
            r = subprocess.run(['cvc5', '--tlimit=%d' % (2 * to), '--incremental', f.name], capture_output=True, text=True, timeout=to / 500 + 10)
            return r.stdout.strip().split('\n')[-1] if r.stdout else 'error'
        except Exception:
            return 'error'
        finally:
            os.unlink(f.name)

    def feasible(self, pc, timeout=300):
        """cheap path pruning: quantifier-free part only"""
        fs = [f for f in pc if not _has_q(f)]
        key = tuple(f.get_id() for f in fs)
        if key in self.quick_cache:
            return self.quick_cache[key][0]
        s = z3.Solver()
        limit(s, timeout)
        s.add(*fs)
        r = s.check() != z3.unsat
        self.quick_cache[key] = (r, fs)
        return r

    def quick(self, pc, goal, timeout=500):
        """cheap entailment (used for range questions such as "can this subtraction wrap?")"""
        if z3.is_true(z3.simplify(goal)):
            return True
        fs = [f for f in pc if not _has_q(f)]
        key = (tuple(f.get_id() for f in fs), goal.get_id())
        c = self.quick_cache.get(key)
        if c is not None:
            return c[0]
        s = self._mk(fs, goal, False, timeout)
        r = s.check() == z3.unsat
        self.quick_cache[key] = (r, fs, goal)
        return r


_hq = {}


def _has_q(e):
    i = e.get_id()
    c = _hq.get(i)
    if c is not None and c[1].eq(e):
        return c[0]
    r = False
    todo = [e]
    seen = set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            r = True
            break
        todo += x.children()
    _hq[i] = (r, e)
    return r
