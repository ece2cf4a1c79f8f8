"""Matrix representation of the state machine (P14): which cell a link of a path goes to and what the cells sum up to.

LS(w,paths,i,s,t,l,n)  sum over the first n paths with states (s,t) at sites (i,i+1) of the coefficient of l in their operator at site i
LK(paths,i,s,t,n)      one of the first n paths has these states there
"""
import z3
from values import *
from ctypes_ import *
from solver import *
from contract import *
from stdmodel import *
from sparmat import View, xy
from coefop import TC, TO, OV, ptypes, is_rref, qw, ql, gof
from fsm import FV, PV, RawPath, NODE, PATH, LONG, ULONG, READY, FINAL, q

MAT = ('rec', 'SparOpReprMat')
MATS = ('vec', MAT)


class RawView(View):
    """view of a matrix stored in a list (accessor terms, usable under a quantifier)"""

    def __init__(self, c, e):
        S = c.S
        v = S.unpack(e, MAT) if isinstance(e, z3.ExprRef) else e
        self.c, self.v = c, v
        self.rows, self.cols = v.f['rows'], v.f['cols']
        self.idx = field(v, 'indexes', ('vec', LONG), S)
        self.data = field(v, 'data', ('vec', TO), S)
        self.T = TO
        self.null = c.default(TO)


class Ctx:
    def __init__(self, s):
        self.s = s


def setup(s):
    g = s.ip.algebra
    if hasattr(g, 'LS'):
        return
    S = g.S
    pa = z3.ArraySort(I, S.sort(PATH))
    g.LS = z3.Function('LS', WT, pa, I, I, I, I, I, I)
    g.LK = z3.Function('LK', pa, I, I, I, I, B)
    g.LKW = z3.Function('LKW', pa, I, I, I, I, I)
    w, a = z3.Const('w', WT), z3.Const('pa', pa)
    i, x, t, l, n, k = z3.Ints('i s t l n k')
    FA = z3.ForAll

    class C_:
        pass
    c = C_()
    c.S = S
    P = lambda k: RawPath(c, a[k])
    link = lambda k: z3.And(P(k).stat(i) == x, P(k).stat(i + 1) == t)
    L = lambda n: g.LS(w, a, i, x, t, l, n)
    K = lambda n: g.LK(a, i, x, t, n)
    th = s.theory
    m, r, f = z3.Const('m', AI), z3.Const('r', AB), z3.Const('f', AB)
    th.add(['CHAN'], [FA([m, r, f, i, x], CHAN(m, r, f, i, x) == chan_def(Cnt(m, r, f), i, x), patterns=[CHAN(m, r, f, i, x)])])
    th.add(['STATE'], [FA([m, r, f, i, x], STATE(m, r, f, i, x) == state_def(Cnt(m, r, f), i, x), patterns=[STATE(m, r, f, i, x)])])
    term = z3.If(link(n), g.OS(w, P(n).op(i), l), 0)
    th.add(['LS'], [FA([w, a, i, x, t, l, n], z3.Implies(n <= 0, L(n) == 0), patterns=[L(n)]),
                    FA([w, a, i, x, t, l, n, k], z3.Implies(z3.And(n >= 0, k == n + 1), L(k) == L(n) + term), patterns=[z3.MultiPattern(L(n), L(k))])])
    th.add(['LK'], [FA([a, i, x, t, n], z3.Implies(n <= 0, z3.Not(K(n))), patterns=[K(n)]),
                    FA([a, i, x, t, n, k], z3.Implies(z3.And(n >= 0, k == n + 1), K(k) == z3.Or(K(n), link(n))), patterns=[z3.MultiPattern(K(n), K(k))]),
                    FA([a, i, x, t, n], z3.Implies(K(n), z3.And(0 <= g.LKW(a, i, x, t, n), g.LKW(a, i, x, t, n) < n, link(g.LKW(a, i, x, t, n)))), patterns=[K(n)])])


def dim(f, i):
    """number of states used at site i"""
    return f.mid.arr[i] + z3.If(f.rdy.arr[i], 1, 0) + z3.If(f.fin.arr[i], 1, 0)


AB = z3.ArraySort(I, B)
CHAN = z3.Function('CHAN', AI, AB, AB, I, I, I)
STATE = z3.Function('STATE', AI, AB, AB, I, I, I)


class Cnt:
    def __init__(self, m, r, f):
        class A:
            pass
        self.mid, self.rdy, self.fin = A(), A(), A()
        self.mid.arr, self.rdy.arr, self.fin.arr = m, r, f


def chan_def(f, i, s):
    r, n = f.rdy.arr[i], f.fin.arr[i]
    return z3.If(s == FINAL, z3.If(r, dim(f, i) - 1, 0), z3.If(z3.And(z3.Not(r), z3.Not(n)), s - 1, s))


def state_def(f, i, x):
    r, n = f.rdy.arr[i], f.fin.arr[i]
    return z3.If(z3.And(n, x == z3.If(r, dim(f, i) - 1, 0)), z3.IntVal(FINAL), z3.If(z3.And(z3.Not(r), z3.Not(n)), x + 1, x))


def chan(f, i, s):
    """matrix line that stands for state s at site i"""
    return CHAN(f.mid.arr, f.rdy.arr, f.fin.arr, i, s)


def state(f, i, x):
    """state that matrix line x at site i stands for"""
    return STATE(f.mid.arr, f.rdy.arr, f.fin.arr, i, x)


def mats_ok(c, f, ms):
    """every matrix well-formed and of the machine's size"""
    i = q('i')
    V = RawView(c, ms.arr[i])
    inr = z3.And(0 <= i, i < f.n)
    out = [('one matrix per site', ms.len == f.n),
           ('matrix sizes', z3.ForAll([i], z3.Implies(inr, z3.And(V.rows == dim(f, i), V.cols == dim(f, i + 1))), patterns=[ms.arr[i]]))]
    for l, b in V.inv():
        out.append(('matrices: ' + l, z3.ForAll([i], z3.Implies(inr, b), patterns=[ms.arr[i]])))
    return out


def cells(c, f, ms, n, upto=None):
    """what the cells hold after the first n paths (all sites; sites below upto already include path n)"""
    g = gof(c)
    i = q('i')
    x, y = xy()
    V = RawView(c, ms.arr[i])
    w, l = qw(), ql()
    X = z3.Const(fresh_name('X'), g.so)
    m = n if upto is None else n + z3.If(i < upto, 1, 0)
    s, t = state(f, i, x), state(f, i + 1, y)
    lk = g.LK(f.paths.arr, i, s, t, m)
    dom = z3.And(0 <= i, i < f.n, V.inr(x, y))
    same = z3.And(s == t, s <= 0)
    return [('cell without a link is null', z3.ForAll([i, x, y], z3.Implies(z3.And(dom, z3.Not(lk)), V.isnull(x, y)), patterns=[V.o(x, y)])),
            ('shared identity link holds the site identity', z3.ForAll([i, x, y], z3.Implies(z3.And(dom, lk, same), g.OEQ(f.ids.arr[i], V.at(x, y))), patterns=[V.o(x, y)])),
            ('cell is the sum over the links it stands for', z3.ForAll([i, x, y, w, l, X], z3.Implies(z3.And(dom, z3.Not(same)), g.OS(w, V.at(x, y), l) == g.LS(w, f.paths.arr, i, s, t, l, m)), patterns=[z3.MultiPattern(V.o(x, y), g.OS(w, X, l))])),
            ]


def contracts(CS):
    pre = lambda c: FV(c, c.this0).inv()

    def dims(c):
        f, r, p = FV(c, c.this0), c.nvec(c.r), q()
        return [('one dimension per machine site', r.len == f.m), ('number of states used', z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < f.m), r.arr[p] == dim(f, p)), patterns=[r.arr[p]]))]

    def dims_hints(lc):
        c = lc.fctx
        f = FV(c, c.this0)
        out = []
        for h, e in lc.vecs(ULONG):
            if e is None or h.arr.eq(e.arr):
                continue
            for t in lc.ts:
                p = q()
                out.append(('dimensions so far', z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < t), h.arr[p] == dim(f, p)), patterns=[h.arr[p]])))
        return out
    CS.add(Contract('FSM::CalcFSMSiteDims_', requires=pre, ensures=dims, hints=dims_hints))

    def isdims(c, f, v):
        p = q()
        return [('dimensions of all sites', z3.And(v.len == f.m, z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < f.m), v.arr[p] == dim(f, p)), patterns=[v.arr[p]])))]

    def fins(c, f, v, n):
        p = q()
        return ('line of the final state', z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < n), v.arr[p] == z3.If(f.fin.arr[p], chan(f, p, z3.IntVal(FINAL)), -1)), patterns=[v.arr[p]]))

    def finpost(c):
        f, r = FV(c, c.this0), c.nvec(c.r)
        return [('one entry per machine site', r.len == f.m), fins(c, f, r, f.m)]

    def fin_hints(lc):
        c = lc.fctx
        f = FV(c, c.this0)
        out = []
        for h, e in lc.vecs(LONG):
            if e is None or h.arr.eq(e.arr):
                continue
            for t in lc.ts:
                p = q()
                out.append(fins(c, f, h, t))
                out.append(('rest untouched', z3.ForAll([p], z3.Implies(z3.And(t <= p, p < f.m), h.arr[p] == -1), patterns=[h.arr[p]])))
        return out
    CS.add(Contract('FSM::CalcFinalStatDimIdxs_', requires=lambda c: pre(c) + isdims(c, FV(c, c.this0), c.a(0)), ensures=finpost, hints=fin_hints))

    def castpre(c):
        f = FV(c, c.this0)
        P = PV(c, c.a(0))
        p = q()
        dom = z3.And(0 <= p, p < f.m)
        return f.inv() + [('complete path', z3.And(P.nodes.len == f.m, P.ops.len == f.n)),
                          ('states of the path are known', z3.ForAll([p], z3.Implies(dom, f.state_ok(P.stat(p), p)), patterns=[P.nodes.arr[p]])),
                          ('entries for all sites', c.a(1).len == f.m), fins(c, f, c.a(1), f.m)] + mats_ok(c, f, c.nvec(c.a(2)))

    def added(c, f, P, m0, m1, upto):
        """matrices below upto have taken in the path"""
        g = gof(c)
        i = q('i')
        x, y = xy()
        w, l = qw(), ql()
        A, V = RawView(c, m0.arr[i]), RawView(c, m1.arr[i])
        s, t, op = P.stat(i), P.stat(i + 1), P.ops.arr[i]
        hit = z3.And(x == chan(f, i, s), y == chan(f, i + 1, t))
        dom = z3.And(0 <= i, i < upto, V.inr(x, y))
        X = z3.Const(fresh_name('X'), g.so)
        opnull = g.OEQ(op, V.null)
        pat = [V.o(x, y)]
        fa = lambda b: z3.ForAll([i, x, y], z3.Implies(dom, b), patterns=pat)
        return [('cells of other links unchanged', fa(z3.Implies(z3.Not(hit), z3.And(V.at(x, y) == A.at(x, y), V.isnull(x, y) == A.isnull(x, y))))),
                ('an empty cell takes the operator', fa(z3.Implies(z3.And(hit, A.isnull(x, y)), z3.If(opnull, V.isnull(x, y), z3.And(z3.Not(V.isnull(x, y)), V.at(x, y) == op))))),
                ('a shared identity link is kept', fa(z3.Implies(z3.And(hit, z3.Not(A.isnull(x, y)), s == t), z3.And(V.at(x, y) == A.at(x, y), z3.Not(V.isnull(x, y)))))),
                ('a filled cell stays filled', fa(z3.Implies(z3.Not(A.isnull(x, y)), z3.Not(V.isnull(x, y))))),
                ('operators on the same link add up', z3.ForAll([i, x, y, w, l, X], z3.Implies(z3.And(dom, hit, z3.Not(A.isnull(x, y)), s != t), g.OS(w, V.at(x, y), l) == g.OS(w, A.at(x, y), l) + g.OS(w, op, l)),
                                                                   patterns=[z3.MultiPattern(V.o(x, y), g.OS(w, X, l))])),
                ]

    def castpost(c):
        f = FV(c, c.this0)
        P = PV(c, c.a(0))
        m0, m1 = c.nvec(c.a(2)), c.nvec(c.a1(2))
        return [('invariant: ' + l, b) for l, b in mats_ok(c, f, m1)] + added(c, f, P, m0, m1, f.n)

    def cast_hints(lc):
        c = lc.fctx
        f = FV(c, c.this0)
        P = PV(c, c.a(0))
        m0 = c.nvec(c.a(2))
        out = []
        for h, e in lc.vecs(MAT):
            if e is None or h.arr.eq(e.arr):
                continue
            out += mats_ok(c, f, h)
            for t in lc.ts:
                out += added(c, f, P, m0, h, t)
        return out
    CS.add(Contract('FSM::CastFSMPathToMatRepr_', requires=castpre, ensures=castpost, modifies=[2], hints=cast_hints))

    def genpost(c):
        f = FV(c, c.this0)
        r = c.nvec(c.r)
        V0, Vn = RawView(c, r.arr[0]), RawView(c, r.arr[f.n - 1])
        i, k = q('i'), q('k')
        x, y = xy()
        P = f.path(k)
        ch = chan(f, i, P.stat(i))
        site = z3.And(0 <= i, i <= f.n)
        corr = [('every state of a path has a line of its own', z3.ForAll([k, i], z3.Implies(z3.And(0 <= k, k < f.paths.len, site), z3.And(P.stat(i) >= -1, 0 <= ch, ch < dim(f, i), state(f, i, ch) == P.stat(i))), patterns=[P.stat(i)])),
                ('different lines stand for different states', z3.ForAll([i, x, y], z3.Implies(z3.And(site, 0 <= x, x < dim(f, i), 0 <= y, y < dim(f, i), state(f, i, x) == state(f, i, y)), x == y), patterns=[z3.MultiPattern(state(f, i, x), state(f, i, y))]))]
        return corr + mats_ok(c, f, r) + cells(c, f, r, f.paths.len) + [('one row at the left end, one column at the right end once there is a term', z3.Implies(f.paths.len > 0, z3.And(V0.rows == 1, Vn.cols == 1)))]

    def gen_hints(lc):
        c = lc.fctx
        f = FV(c, c.this0)
        out = []
        for h, e in lc.vecs(MAT):
            if e is None or h.arr.eq(e.arr):
                continue
            i = q('i')
            x, y = xy()
            V = RawView(c, h.arr[i])
            for t in lc.ts:
                if z3.is_int_value(z3.simplify(e.len)):
                    inr = z3.And(0 <= i, i < t)
                    fa = lambda b: z3.ForAll([i], z3.Implies(inr, b), patterns=[h.arr[i]])
                    out.append(('matrices so far: count', h.len == t))
                    out.append(('matrices so far: sizes', fa(z3.And(V.rows == dim(f, i), V.cols == dim(f, i + 1)))))
                    out += [('matrices so far: ' + l, fa(b)) for l, b in V.inv()]
                    out.append(('matrices so far: empty', z3.ForAll([i, x, y], z3.Implies(z3.And(inr, V.inr(x, y)), V.isnull(x, y)), patterns=[V.o(x, y)])))
                else:
                    out += mats_ok(c, f, h) + cells(c, f, h, t)
        return out
    CS.add(Contract('FSM::GenMatRepr', requires=pre, ensures=genpost, hints=gen_hints))
