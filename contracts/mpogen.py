"""MPO generator: terms written by the user -> paths of the state machine.

The tensor library is a dependency; what the generator uses of it is assumed deterministic:
  FNZ(o)      o.GetFirstNonZeroElement()
  SCALE(o,c)  o *= c
  REALNEG(x)  Real(x) < 0.0
  ABS(x)      qlten::abs
"""
import z3
from values import *
from ctypes_ import *
from solver import *
from contract import *
from stdmodel import FIRST, ISPERM, ISLEAST, RUN, AI
from coefop import ptypes, is_rref, TO, TC, gof
from fsm import FV, q

NUM = ('rec', 'VNum')
TEN = ('rec', 'qlten::QLTensor<VNum, VQN>')
ULONG = ('int', 64, False)


class Sy:
    pass


_y = {}


def sy(c_or_s):
    S = c_or_s.S if hasattr(c_or_s, 'S') else c_or_s.sorts
    if id(S) in _y:
        return _y[id(S)]
    y = _y[id(S)] = Sy()
    T = y.T = S.opaque[TEN[1]]
    AT = z3.ArraySort(I, T)
    y.FNZ = z3.Function('FNZ', T, I)
    X = S.opaque['qlten::Index<VQN>']
    y.INV = z3.Function('INVERSE', X, X)
    y.SCALE = z3.Function('SCALE', T, I, T)
    y.REALNEG = z3.Function('REALNEG', I, B)
    y.ABS = z3.Function('ABS', I, S.dbl)
    y.neg = lambda o: y.REALNEG(y.FNZ(o))
    y.norm = lambda o: z3.If(y.neg(o), y.SCALE(o, iv(-1)), o)
    # coefficient after moving the signs of the first k operators of a list into it
    y.SGN = z3.Function('SGN', I, AT, I, I)
    y.SGND = z3.Function('SGND', AT, AT, I, I)
    y.MINUS = lambda x: z3.Function('mul', I, I, I)(x, iv(-1))
    y.AT = AT
    return y


def setup(s):
    y = sy(s)
    ip, M = s.ip, s.models
    c, k, m, n = z3.Ints('c k m n')
    a, b = z3.Consts('sa sb', y.AT)
    o = z3.Const('so', AI)
    d = y.SGND(a, b, n)
    p = z3.Int('p')
    from stdmodel import MUL
    y.MINUS = lambda x: MUL(x, iv(-1))
    s.theory.add(['SGN'], [
        z3.ForAll([c, a], y.SGN(c, a, 0) == c, patterns=[y.SGN(c, a, 0)]),
        z3.ForAll([c, a, k, m], z3.Implies(z3.And(k >= 0, m == k + 1), y.SGN(c, a, m) == z3.If(y.neg(a[k]), y.MINUS(y.SGN(c, a, k)), y.SGN(c, a, k))), patterns=[z3.MultiPattern(y.SGN(c, a, k), y.SGN(c, a, m))]),
        z3.ForAll([c, a, b, n], z3.Or(y.SGN(c, a, n) == y.SGN(c, b, n), z3.And(0 <= d, d < n, a[d] != b[d])), patterns=[z3.MultiPattern(y.SGN(c, a, n), y.SGN(c, b, n))]),
        # a reordering of the list holds as many operators with a sign
        z3.ForAll([c, a, b, n, o], z3.Implies(z3.And(ISPERM(o, n), z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < n), b[p] == a[o[p]]))), y.SGN(c, a, n) == y.SGN(c, b, n)), patterns=[z3.MultiPattern(y.SGN(c, a, n), y.SGN(c, b, n), ISPERM(o, n))]),
    ])
    M.first_axioms()
    ia, ib = z3.Consts('ia ib', AI)
    # a reordering of a list of sites holds the same sites
    s.theory.add(['FIRST'], [
        z3.ForAll([ia, ib, n, o, c], z3.Implies(z3.And(ISPERM(o, n), z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < n), ib[p] == ia[o[p]]))), (FIRST(ia, n, c) < n) == (FIRST(ib, n, c) < n)),
                  patterns=[z3.MultiPattern(FIRST(ia, n, c), FIRST(ib, n, c), ISPERM(o, n))]),
    ])
    ghosts(s, y)
    tn = TEN[1]

    def tmeth(st, name, pl, args, e):
        v = ip.rv(st, pl)
        if name == 'GetFirstNonZeroElement':
            yield st, y.FNZ(v)
            return
        raise Unsupported('tensor method ' + name)
    M.opaque_fns[tn] = tmeth

    def pure(cls, res):
        def meth(st, name, pl, args, e):
            if name not in res:
                raise Unsupported('method %s of %s' % (name, cls))
            vs = [ip.rv(st, pl)] + [ip.rv(st, a) for a in args]
            yield st, z3.Function(cls + '.' + name, *([v.sort() for v in vs] + [s.sorts.opaque[res[name]]]))(*vs)
        M.opaque_fns[cls] = meth
    pure('qlten::Index<VQN>', {'GetQNSct': 'qlten::QNSector<VQN>'})
    pure('qlten::QNSector<VQN>', {'GetQn': 'VQN'})

    def minus(st, name, vals, e):
        a, b = [ip.rv(st, v) for v in vals]
        yield st, z3.Function('VQN.minus', a.sort(), b.sort(), a.sort())(a, b)
    M.opaque_ops['VQN'] = {'operator-': minus}

    def scale(st, name, vals, e):
        x = ip.rv(st, vals[1])
        ip.set(st, vals[0], y.SCALE(ip.rv(st, vals[0]), x))
        yield st, vals[0]
    M.opaque_ops[tn] = {'operator*=': scale}

    def less(st, name, vals, e):
        yield st, z3.Function('VREALNEG', s.sorts.opaque['VReal'], B)(ip.rv(st, vals[0]))
    M.opaque_ops['VReal'] = {'operator<': less}
    ip.assumed.add('tensor library: GetFirstNonZeroElement, multiplication by a number, Real and abs are deterministic functions of their arguments')
    ip.assumed.add('Real(x) is only compared with 0.0')


def ghosts(s, y):
    """the operator list a term with insertion strings stands for; sites: strings between consecutive operators (and behind
    the last) either fill the gap site by site, or sit on listed sites"""
    S = s.sorts
    VS = S.sort(('vec', ULONG))
    AV = z3.ArraySort(I, VS)
    X = z3.Const('gx', AI)
    P, Q = z3.Consts('gp gq', y.AT)
    V = z3.Const('gv', AV)
    n, i, j, k, m = z3.Ints('n i j k m')
    vlen = lambda v: VS.accessor(0, 0)(v)
    varr = lambda v: VS.accessor(0, 1)(v)
    y.vlen = lambda v: z3.If(vlen(v) > 0, vlen(v), 0)
    y.varr = varr
    asc = z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), X[i] < X[j]))
    # uniform: FILL(sites, n, operators, strings)[k] is the operator of site X[0]+k
    y.MARK = z3.Function('MARK', I, B)
    z = z3.Int('gz')
    s.theory.add(['MARK'], [z3.ForAll([z], y.MARK(z), patterns=[y.MARK(z)])])
    y.FILL = z3.Function('FILL', AI, I, y.AT, y.AT, y.AT)
    f = y.FILL(X, n, P, Q)
    s.theory.add(['FILL'], [
        z3.ForAll([X, n, P, Q, i], z3.Implies(z3.And(asc, 0 <= i, i < n), f[X[i] - X[0]] == P[i]), patterns=[z3.MultiPattern(f, P[i])]),
        z3.ForAll([X, n, P, Q, i, k], z3.Implies(z3.And(asc, 0 <= i, i < n, X[i] - X[0] < k, z3.Or(i == n - 1, k < X[i + 1] - X[0])), f[k] == Q[i]), patterns=[z3.MultiPattern(f[k], Q[i])]),
    ])
    G = z3.Function('FILLAT', AI, I, I, I)(X, n, k)
    s.theory.add(['FILL'], [z3.ForAll([X, n, P, Q, k, z], z3.Implies(z3.And(asc, n >= 1, k >= 0), z3.And(0 <= G, G < n, X[G] - X[0] <= k, z3.Or(G == n - 1, k < X[G + 1] - X[0]), f[k] == z3.If(X[G] - X[0] == k, P[G], Q[G]))), patterns=[z3.MultiPattern(f[k], y.MARK(z))])])
    # listed: operator i at position OFFS(i), its string behind it
    y.OFFS = z3.Function('OFFS', AV, I, I)
    y.LIST = z3.Function('LIST', y.AT, y.AT, AV, y.AT)
    y.LISTX = z3.Function('LISTX', AI, AV, AI)
    o = y.OFFS(V, i)
    g, h = y.LIST(P, Q, V), y.LISTX(X, V)
    inside = z3.And(i >= 0, o < k, k <= o + y.vlen(V[i]))
    G = z3.Function('LISTAT', AV, I, I)(V, k)
    oG = y.OFFS(V, G)
    grp = z3.And(G >= 0, oG <= k, k <= oG + y.vlen(V[G]))
    s.theory.add(['LIST', 'LISTX'], [
        z3.ForAll([P, Q, V, k, z], z3.Implies(k >= 0, z3.And(grp, g[k] == z3.If(k == oG, P[G], Q[G]))), patterns=[z3.MultiPattern(g[k], y.MARK(z))]),
        z3.ForAll([X, V, k, z], z3.Implies(k >= 0, z3.And(grp, h[k] == z3.If(k == oG, X[G], varr(V[G])[k - oG - 1]))), patterns=[z3.MultiPattern(h[k], y.MARK(z))]),
    ])
    # two operators with a string between them
    T = y.T
    a1, a2, ai = z3.Consts('ga1 ga2 gai', T)
    x1, x2 = z3.Ints('gx1 gx2')
    y.PAIR = z3.Function('PAIR', T, T, T, I, y.AT)
    y.PAIRX = z3.Function('PAIRX', I, I, AI, I, AI)
    pl, px = y.PAIR(a1, a2, ai, n), y.PAIRX(x1, x2, X, n)
    s.theory.add(['PAIR'], [z3.ForAll([a1, a2, ai, n, k], pl[k] == z3.If(k == 0, a1, z3.If(k == n, a2, ai)), patterns=[pl[k]])])
    s.theory.add(['PAIRX'], [z3.ForAll([x1, x2, X, n, k], px[k] == z3.If(k == 0, x1, z3.If(k == n, x2, X[k - 1])), patterns=[px[k]])])
    s.theory.add(['OFFS'], [
        z3.ForAll([V, i, j], z3.Implies(z3.And(0 <= i, i < j), o + 1 + y.vlen(V[i]) <= y.OFFS(V, j)), patterns=[z3.MultiPattern(o, y.OFFS(V, j))]),
        z3.ForAll([V], y.OFFS(V, 0) == 0, patterns=[y.OFFS(V, 0)]),
        z3.ForAll([V, i, m], z3.Implies(z3.And(i >= 0, m == i + 1), y.OFFS(V, m) == o + 1 + y.vlen(V[i])), patterns=[z3.MultiPattern(o, y.OFFS(V, m))]),
        z3.ForAll([P, Q, V, i], z3.Implies(i >= 0, g[o] == P[i]), patterns=[z3.MultiPattern(g, o)]),
        z3.ForAll([P, Q, V, i, k], z3.Implies(inside, g[k] == Q[i]), patterns=[z3.MultiPattern(g[k], o)]),
        z3.ForAll([X, V, i], z3.Implies(i >= 0, h[o] == X[i]), patterns=[z3.MultiPattern(h, o)]),
        z3.ForAll([X, V, i, k], z3.Implies(inside, h[k] == varr(V[i])[k - o - 1]), patterns=[z3.MultiPattern(h[k], o)]),
    ])


class GV:
    """view of an MPOGenerator value"""

    def __init__(self, c, v):
        self.c = c
        self.v = v
        g = lambda n, t: field(v, n, t, c.S)
        self.n = v.f['N_']
        self.fsm = FV(c, v.f['fsm_'])
        self.cof = c.nvec(v.f['coef_label_convertor_'].f['conv_obj_hub_'])
        self.ops = c.nvec(v.f['op_label_convertor_'].f['conv_obj_hub_'])
        self.ids = c.nvec(v.f['id_op_vector_'])

    def inv(self):
        c = self.c
        i, j = q('i'), q('j')
        eq = c.ip.models.eqpred[TEN[1]]
        return [('state machine: ' + l, x) for l, x in self.fsm.inv()] + [
            ('one identity operator per site', z3.And(self.fsm.n == self.n, self.ids.len == self.n)),
            ('label 0 is the coefficient one', z3.And(self.cof.len >= 1, self.cof.arr[0] == 1)),
            ('coefficient labels are pairwise different', z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < self.cof.len), self.cof.arr[i] != self.cof.arr[j]), patterns=[z3.MultiPattern(self.cof.arr[i], self.cof.arr[j])])),
            ('operator labels are pairwise different', z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < self.ops.len), z3.Not(eq(self.ops.arr[i], self.ops.arr[j]))), patterns=[z3.MultiPattern(self.ops.arr[i], self.ops.arr[j])])),
            ('site identities of the machine are the identity operators', z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < self.n), meaning(c, self, self.fsm.ids.arr[i], None, self.ids.arr[i])), patterns=[self.fsm.ids.arr[i]])),
        ]


def meaning(c, G, e, coef, ten):
    """the symbolic operator e means  coef * ten  (coef None: one): exactly one basis operator, whose label names an
    equal tensor; its coefficient is a single label naming the number"""
    g = gof(c)
    eq = c.ip.models.eqpred[TEN[1]]
    card = c.ip.models.mapfns(('int', 64, True))[0]
    l = q('l')
    d, v = g.dom(e), g.val(e)
    x = g.lst(v[l])
    w = x.arr[0]
    return z3.And(card(d) == 1,
                  z3.ForAll([l], z3.Implies(d[l], z3.And(0 <= l, l < G.ops.len, eq(G.ops.arr[l], ten), x.len == 1,
                                                         w == 0 if coef is None else z3.And(0 <= w, w < G.cof.len, G.cof.arr[w] == coef))), patterns=[d[l]]))


def small(c, x):
    y = sy(c)
    lt = z3.Function('dbllt', c.S.dbl, c.S.dbl, B)
    return z3.Or(x == 0, lt(y.ABS(x), z3.Const('dbl_1.0000000000000001E-15', c.S.dbl)))


def addterm(CS):
    P = 'MPOGenerator::'
    n3 = lambda f: len(ptypes(f)) == 3

    def args(c):
        return c.a(0), c.nvec(c.a(1)), c.nvec(c.a(2))

    def pre(c):
        G = GV(c, c.this0)
        coef, ops, idx = args(c)
        i, j = q('i'), q('j')
        return G.inv() + [('at least one operator, one site for each', z3.And(ops.len >= 1, ops.len == idx.len)),
                          ('sites of the chain', z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < idx.len), z3.And(idx.arr[i] >= 0, idx.arr[i] < G.n)), patterns=[idx.arr[i]])),
                          ('every site at most once', z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < idx.len), idx.arr[i] != idx.arr[j]), patterns=[z3.MultiPattern(idx.arr[i], idx.arr[j])])),
                          ('sizes', z3.And(G.ops.len < (1 << 55), G.cof.len < (1 << 55), G.fsm.paths.len < (1 << 55), G.n < (1 << 55), ops.len < (1 << 55)))]

    def unchanged(a, b):
        p = q()
        return [('tables and paths unchanged', z3.And(b.cof.len == a.cof.len, b.ops.len == a.ops.len, b.fsm.paths.len == a.fsm.paths.len,
                                                      z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < a.fsm.paths.len), b.fsm.paths.arr[p] == a.fsm.paths.arr[p]), patterns=[b.fsm.paths.arr[p]])))]

    def kept(a, b):
        p = q()
        pre = lambda x, y: z3.And(y.len >= x.len, z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < x.len), y.arr[p] == x.arr[p]), patterns=[y.arr[p]]))
        return [('labels given out stay', z3.And(pre(a.cof, b.cof), pre(a.ops, b.ops))),
                ('earlier terms unchanged', pre(a.fsm.paths, b.fsm.paths)),
                ('chain unchanged', b.n == a.n)]

    def post(c):
        a, b = GV(c, c.this0), GV(c, c.this1)
        coef, ops, idx = args(c)
        y = sy(c)
        return termpost(c, a, b, coef, ops.arr, idx.arr, idx.len)

    def termpost(c, a, b, coef, oarr, iarr, n):
        y = sy(c)
        s, i = q('s'), q('i')
        none = small(c, coef)
        k = a.fsm.paths.len
        N = b.fsm.path(k)
        r = FIRST(iarr, n, s)
        first = ISLEAST(iarr, n, s)
        dom = z3.And(z3.Not(none), 0 <= s, s < a.n)
        F = y.SGN(coef, oarr, n)
        M = lambda cf, t: meaning(c, b, N.op(s), cf, t)
        return frame(c, a, b, none) + [
            ('identity on every site without an operator', z3.ForAll([s], z3.Implies(z3.And(dom, r == n), M(None, a.ids.arr[s])), patterns=[N.op(s)])),
            ('the coefficient, with the signs of the operators, on the first site', z3.ForAll([s], z3.Implies(z3.And(dom, r < n, first), M(F, y.norm(oarr[r]))), patterns=[N.op(s)])),
            ('the other operators on their sites, sign taken out', z3.ForAll([s], z3.Implies(z3.And(dom, r < n, z3.Not(first)), M(None, y.norm(oarr[r]))), patterns=[N.op(s)])),
        ] + [('invariant: ' + l, x) for l, x in b.inv()]

    def frame(c, a, b, none):
        k = a.fsm.paths.len
        return kept(a, b) + [
            ('a zero or negligible coefficient adds nothing', z3.Implies(none, z3.And(b.fsm.paths.len == k, b.cof.len == a.cof.len, b.ops.len == a.ops.len))),
            ('otherwise one path more', z3.Implies(z3.Not(none), b.fsm.paths.len == k + 1))]

    def hints(lc):
        c = lc.fctx
        y = sy(c)
        a = GV(c, c.this0)
        coef = c.a(0)
        out = []
        idx0, ops0 = c.nvec(c.a(2)), c.nvec(c.a(1))
        n = idx0.len
        if not lc.param(2):
            return []
        opl, idl = [lc.param(1)], [lc.param(2)]
        ch, ce = lc.param(0)
        for ih, ie in idl:
            if True:
                p, m = q('p'), q('m')
                out.append(('sites ascending', z3.And(ih.len == n, z3.ForAll([p, m], z3.Implies(z3.And(0 <= p, p < m, m < n), ih.arr[p] < ih.arr[m]), patterns=[z3.MultiPattern(ih.arr[p], ih.arr[m])]))))
                out.append(('the same sites', z3.ForAll([p], (FIRST(ih.arr, n, p) < n) == (FIRST(idx0.arr, n, p) < n), patterns=[FIRST(ih.arr, n, p), FIRST(idx0.arr, n, p)])))
        for t in lc.ts:
            p = q()
            for h, e in opl:
                for ih, ie in idl:
                    r = FIRST(idx0.arr, n, ih.arr[p])
                    out.append(('operators follow their sites, signs taken out so far', z3.And(h.len == n, z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < n), z3.And(r < n, h.arr[p] == z3.If(p < t, y.norm(ops0.arr[r]), ops0.arr[r]))), patterns=[h.arr[p]]))))
                    out.append(('operators follow their sites', z3.And(h.len == n, z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < n), z3.And(r < n, h.arr[p] == y.norm(ops0.arr[r]))), patterns=[h.arr[p]]))))
                out.append(('coefficient so far', ch == y.SGN(ce, e.arr, t)))
            for hv, e, cell in lc.recs(c.this0.t[1]):
                b = GV(c, hv)
                be = GV(c, e)
                out += [('inv ' + l, x) for l, x in b.inv()]
                out.append(('labels so far', z3.And(b.ops.len >= be.ops.len, b.ops.len <= be.ops.len + t)))
                out.append(('labels stay', z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < be.ops.len), b.ops.arr[p] == be.ops.arr[p]), patterns=[b.ops.arr[p]])))
                for rv, re_ in lc.vecs(TO):
                    for ih, ie in idl:
                        for x in lc.ints():
                            at = ih.arr[0] + t
                            out.append(('cursor at the first operator ahead', z3.And(0 <= x, x <= n, z3.Or(x == n, ih.arr[x] >= at), z3.Or(x == 0, ih.arr[x - 1] < at), (x == 0) == (t == 0))))
                        out.append(('within the range', z3.Or(t == 0, ih.arr[0] + t <= ih.arr[ih.len - 1] + 1)))
                        s = ih.arr[0] + p
                        r = FIRST(idx0.arr, n, s)
                        dom = lambda *x: z3.And(0 <= p, p < t, *x)
                        M = lambda cf, o: meaning(c, b, rv.arr[p], cf, o)
                        R = lambda l, cond, f: out.append(('operators so far: ' + l, z3.And(rv.len == t, z3.ForAll([p], z3.Implies(dom(cond), f), patterns=[rv.arr[p]]))))
                        R('id', r == n, M(None, a.ids.arr[s]))
                        R('op', z3.And(r < n, p > 0), M(None, y.norm(ops0.arr[r])))
                        for cl in lc.ints():
                            out.append(('coefficient label', z3.And(0 <= cl, cl < b.cof.len, b.cof.arr[cl] == ch)))
                            R('first', z3.And(r < n, p == 0), M(b.cof.arr[cl], y.norm(ops0.arr[r])))
                            R('firstc', z3.And(r < n, p == 0), M(ch, y.norm(ops0.arr[r])))
        return out
    CS.add(Contract(P + 'AddTerm#ops', requires=pre, ensures=post, modifies=['this'], sel=n3, hints=hints))
    strings(CS, P, termpost)


def strings(CS, P, termpost):
    def args(c):
        return c.a(0), c.nvec(c.a(1)), c.nvec(c.a(2)), c.nvec(c.a(3)), c.nvec(c.a(4))

    class Str:
        def __init__(self, c):
            y = sy(c)
            a = GV(c, c.this0)
            self.coef, self.P, self.X, self.Q, self.V = args(c)
            n = self.n = self.X.len
            self.uniform = self.V.len == 0
            self.tail = self.Q.len == n
            last = self.X.arr[n - 1]
            self.ulen = z3.If(self.tail, a.n - self.X.arr[0], last - self.X.arr[0] + 1)
            self.llen = y.OFFS(self.V.arr, n - 1) + 1 + z3.If(self.tail, y.vlen(self.V.arr[n - 1]), 0)
            self.U = y.FILL(self.X.arr, n, self.P.arr, self.Q.arr)
            self.L = y.LIST(self.P.arr, self.Q.arr, self.V.arr)
            self.LX = y.LISTX(self.X.arr, self.V.arr)

    def pre(c):
        G = GV(c, c.this0)
        y = sy(c)
        d = Str(c)
        i, j = q('i'), q('j')
        n = d.n
        return G.inv() + [
            ('at least one operator, a site for each, a string for each gap (and one for the tail)', z3.And(n >= 1, d.P.len == n, z3.Or(d.Q.len == n - 1, d.Q.len == n))),
            ('listed strings: a list for each', z3.Or(d.uniform, d.V.len == d.Q.len)),
            ('sites of the chain', z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(d.X.arr[i] >= 0, d.X.arr[i] < G.n)), patterns=[d.X.arr[i]])),
            ('filled strings: sites in ascending order', z3.Implies(d.uniform, z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), d.X.arr[i] < d.X.arr[j]), patterns=[z3.MultiPattern(d.X.arr[i], d.X.arr[j])]))),
            ('listed strings: sites of the chain, each at most once', z3.Implies(z3.Not(d.uniform), z3.And(
                z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < d.llen), z3.And(d.LX[i] >= 0, d.LX[i] < G.n)), patterns=[d.LX[i]]),
                z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < d.llen), d.LX[i] != d.LX[j]), patterns=[z3.MultiPattern(d.LX[i], d.LX[j])])))),
            ('sizes', z3.And(G.ops.len < (1 << 55), G.cof.len < (1 << 55), G.fsm.paths.len < (1 << 55), G.n < (1 << 55), d.P.len < (1 << 55), z3.Implies(z3.Not(d.uniform), d.llen < (1 << 55))))]

    def post(c):
        d = Str(c)
        a, b = GV(c, c.this0), GV(c, c.this1)
        u = termpost(c, a, b, d.coef, d.U, RUN(d.X.arr[0]), d.ulen)
        l = termpost(c, a, b, d.coef, d.L, d.LX, d.llen)
        split = 5
        return u[:split] + [('strings filling the gaps: ' + n, z3.Implies(d.uniform, f)) for n, f in u[split:split + 3]] + \
            [('strings on listed sites: ' + n, z3.Implies(z3.Not(d.uniform), f)) for n, f in l[split:split + 3]] + u[split + 3:]

    def hints(lc):
        c = lc.fctx
        y = sy(c)
        d = Str(c)
        out = []
        tv = [(h, e) for h, e in lc.vecs(TEN) if e is not None and h is not e and not h.arr.eq(e.arr)]
        xv = [(h, e) for h, e in lc.vecs(ULONG) if e is not None and h is not e and not h.arr.eq(e.arr)]
        for t in lc.ts:
            p = q()
            for hs, arr in ((tv, lambda p: (d.U[p], d.L[p])), (xv, lambda p: (d.X.arr[0] + p, d.LX[p]))):
                for h, e in hs:
                    u, l = arr(p)
                    out.append(('as many as there are so far (filled)', z3.Implies(d.uniform, h.len == d.X.arr[t] - d.X.arr[0])))
                    out.append(('as many as there are so far (listed)', z3.Implies(z3.Not(d.uniform), h.len == y.OFFS(d.V.arr, t))))
                    out.append(('one more each time', h.len == e.len + t))
                    out.append(('list so far (filled)', z3.Implies(d.uniform, z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < h.len), h.arr[p] == u), patterns=[h.arr[p]]))))
                    out.append(('list so far (listed)', z3.Implies(z3.Not(d.uniform), z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < h.len), h.arr[p] == l), patterns=[h.arr[p]]))))
        return out
    CS.add(Contract(P + 'AddTerm#strings', requires=pre, ensures=post, modifies=['this'], sel=lambda f: len(ptypes(f)) == 5, hints=hints))
    pair(CS, P, termpost)


def pair(CS, P, termpost):
    class Pair:
        def __init__(self, c):
            self.coef, self.o1, self.x1, self.o2, self.x2, self.inst = [c.a(i) for i in range(6)]
            self.v = c.nvec(c.a(6))
            eq = c.ip.models.eqpred[TEN[1]]
            no = c.default(TEN)
            self.one = eq(self.o2, no)
            self.bare = z3.And(z3.Not(self.one), eq(self.inst, no))
            self.fill = z3.And(z3.Not(self.one), z3.Not(eq(self.inst, no)), self.v.len == 0)
            self.listed = z3.And(z3.Not(self.one), z3.Not(eq(self.inst, no)), self.v.len != 0)

    def pre(c):
        G = GV(c, c.this0)
        d = Pair(c)
        v = d.v
        i, j = q('i'), q('j')
        on = lambda x: z3.And(x >= 0, x < G.n)
        return G.inv() + [
            ('position facts', sy(c).MARK(d.x1)),
            ('site of the chain', on(d.x1)),
            ('two operators: another site of the chain', z3.Implies(z3.Not(d.one), z3.And(on(d.x2), d.x1 != d.x2))),
            ('string between the operators: second one behind the first', z3.Implies(d.fill, d.x1 < d.x2)),
            ('string on listed sites: other sites of the chain, each at most once', z3.Implies(d.listed, z3.And(
                z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < v.len), z3.And(on(v.arr[i]), v.arr[i] != d.x1, v.arr[i] != d.x2)), patterns=[v.arr[i]]),
                z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < v.len), v.arr[i] != v.arr[j]), patterns=[z3.MultiPattern(v.arr[i], v.arr[j])])))),
            ('sizes', z3.And(G.ops.len < (1 << 55), G.cof.len < (1 << 55), G.fsm.paths.len < (1 << 55), G.n < (1 << 55), v.len < (1 << 54)))]

    def post(c):
        y = sy(c)
        d = Pair(c)
        a, b = GV(c, c.this0), GV(c, c.this1)
        cases = [('one operator', d.one, z3.K(I, d.o1), RUN(d.x1), iv(1)),
                 ('two operators', d.bare, y.PAIR(d.o1, d.o2, d.inst, 1), y.PAIRX(d.x1, d.x2, d.v.arr, 1), iv(2)),
                 ('string between the operators', d.fill, y.PAIR(d.o1, d.o2, d.inst, d.x2 - d.x1), RUN(d.x1), d.x2 - d.x1 + 1),
                 ('string on listed sites', d.listed, y.PAIR(d.o1, d.o2, d.inst, d.v.len + 1), y.PAIRX(d.x1, d.x2, d.v.arr, d.v.len + 1), d.v.len + 2)]
        out = []
        for name, when, oarr, iarr, n in cases:
            ps = termpost(c, a, b, d.coef, oarr, iarr, n)
            if not out:
                out += ps[:5] + ps[8:]
            out += [(name + ': ' + l, z3.Implies(when, f)) for l, f in ps[5:8]]
        return out
    CS.add(Contract(P + 'AddTerm#pair', requires=pre, ensures=post, modifies=['this'], sel=lambda f: len(ptypes(f)) == 7))


SITES = ('rec', 'SiteVec<VNum, VQN>')


class Tabs:
    """a pair of label tables (stand-in for the generator in `meaning`)"""

    def __init__(self, cof, ops):
        self.cof, self.ops = cof, ops


def ctors(CS):
    hub = lambda c, v: c.nvec(v.f['conv_obj_hub_'])

    def sv(c, v):
        return v.f['size'], c.nvec(v.f['sites']), c.nvec(v.f['id_ops'])

    def different(c, b):
        i, j = q('i'), q('j')
        return z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < b.len), z3.Not(c.ip.models.eqpred[TEN[1]](b.arr[i], b.arr[j]))), patterns=[z3.MultiPattern(b.arr[i], b.arr[j])])

    def idpre(c):
        n, sites, ids = sv(c, c.a(0))
        h = hub(c, c.a(1))
        return [('a site vector', z3.And(ids.len == n, sites.len == n, n < (1 << 55))), ('operator labels are pairwise different', different(c, h)), ('sizes', h.len < (1 << 55))]

    def idpost(c):
        n, sites, ids = sv(c, c.a(0))
        a, b = hub(c, c.a(1)), hub(c, c.a1(1))
        i = q('i')
        r = c.nvec(c.r)
        return [('one operator per site', r.len == n),
                ('each means the identity of its site', z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), meaning(c, Tabs(None, b), r.arr[i], None, ids.arr[i])), patterns=[r.arr[i]])),
                ('operator labels are pairwise different', different(c, b)),
                ('labels given out stay', z3.And(b.len >= a.len, b.len <= a.len + n, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < a.len), b.arr[i] == a.arr[i]), patterns=[b.arr[i]])))]

    def idhints(lc):
        c = lc.fctx
        n, sites, ids = sv(c, c.a(0))
        out = []
        i = q('i')
        ph = lc.param(1)
        if not ph:
            return []
        b, a = hub(c, ph[0]), hub(c, c.a(1))
        for t in lc.ts:
            out += [('different', different(c, b)), ('labels', z3.And(b.len >= a.len, b.len <= a.len + t)),
                    ('stay', z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < a.len), b.arr[i] == a.arr[i]), patterns=[b.arr[i]]))]
            for rv, re_ in lc.vecs(TO):
                out.append(('so far', z3.And(rv.len == t, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < t), meaning(c, Tabs(None, b), rv.arr[i], None, ids.arr[i])), patterns=[rv.arr[i]]))))
        return out
    CS.add(Contract('GenIdOpReprs', requires=idpre, ensures=idpost, modifies=[1], hints=idhints))

    def pre(c):
        n, sites, ids = sv(c, c.a(0))
        return [('a site vector', z3.And(n >= 1, ids.len == n, sites.len == n, n < (1 << 55)))]

    def post(c):
        n, sites, ids = sv(c, c.a(0))
        b = GV(c, c.this1)
        i = q('i')
        po, pi = c.nvec(c.this1.f['pb_out_vector_']), c.nvec(c.this1.f['pb_in_vector_'])
        return [('no term yet', b.fsm.paths.len == 0), ('the chain of the site vector', b.n == n),
                ('the identity operators of the site vector', z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), b.ids.arr[i] == ids.arr[i]), patterns=[b.ids.arr[i]])),
                ('one pair of physical indexes per site', z3.And(po.len == n, pi.len == n, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), po.arr[i] == sites.arr[i]), patterns=[po.arr[i]]), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), pi.arr[i] == sy(c).INV(sites.arr[i])), patterns=[pi.arr[i]]))),
                ] + [('invariant: ' + l, x) for l, x in b.inv()]
    def hints(lc):
        c = lc.fctx
        n, sites, ids = sv(c, c.a(0))
        out = []
        i = q('i')
        for h, e, cell in lc.recs(c.this1.t[1]):
            po, pi = c.nvec(h.f['pb_out_vector_']), c.nvec(h.f['pb_in_vector_'])
            for t in lc.ts:
                out.append(('indexes so far', z3.And(po.len == t, pi.len == t, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < t), po.arr[i] == sites.arr[i]), patterns=[po.arr[i]]), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < t), pi.arr[i] == sy(c).INV(sites.arr[i])), patterns=[pi.arr[i]]))))
        return out
    CS.add(Contract('MPOGenerator::MPOGenerator#div', hints=hints, requires=pre, ensures=post, modifies=['this'], sel=lambda f: len(ptypes(f)) == 2))
    CS.add(Contract('MPOGenerator::MPOGenerator#sites', requires=pre, ensures=post, modifies=['this'], sel=lambda f: len(ptypes(f)) == 1 and ptypes(f)[0] == ('ref', SITES)))


def contracts(CS):
    ctors(CS)
    c1 = Contract('Real', ensures=lambda c: [('', z3.Function('VREALNEG', c.S.opaque['VReal'], B)(c.r) == sy(c).REALNEG(c.a(0)))], sel=lambda f: ptypes(f) == [('ref', NUM)])
    c2 = Contract('qlten::abs', ensures=lambda c: [('', c.r == sy(c).ABS(c.a(0)))])
    c3 = Contract('qlten::InverseIndex', ensures=lambda c: [('', c.r == sy(c).INV(c.a(0)))])
    for c in (c1, c2, c3):
        c.assumed = True
        CS.add(c)
    addterm(CS)
