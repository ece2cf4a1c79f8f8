"""Coefficient and operator representations: multiset / linear-combination algebra.

CS(w,c)    value of coefficient expression c under the assignment w of numbers to labels
OS(w,o,l)  coefficient of basis operator l in operator expression o under w
(w ranges over all assignments into a commutative group; equality of representations is
exactly equality under every assignment, by the counting assignments CNT)
"""
import z3
from values import *
from ctypes_ import *
from solver import *
from contract import *
from stdmodel import *

TC = ('rec', 'CoefRepr')
TO = ('rec', 'OpRepr')
LV = ('vec', ('int', 64, True))
MT = ('map', ('int', 64, True), TC)


class G:
    """symbols shared by all contracts of a session"""

    def __init__(self, s):
        S = s.sorts
        self.s, self.S = s, S
        self.sc, self.so = S.sort(TC), S.sort(TO)
        self.CS = z3.Function('CS', WT, self.sc, I)
        self.OS = z3.Function('OS', WT, self.so, I, I)
        self.OEQ = z3.Function('OEQ', self.so, self.so, B)
        self.OD = z3.Function('OD', self.so, self.so, I)
        self.ISID = z3.Function('ISID', self.sc, B)     # coefficient expression equal to the single identity label

    def fwl(self, w, l, body):
        """forall assignments w and labels l: body; instantiated for every (w,l) any operator expression is looked at with"""
        X = z3.Const(fresh_name('X'), self.so)
        return z3.ForAll([w, l, X], body, patterns=[self.OS(w, X, l)])

    def lst(self, c):
        return field(self.S.unpack(c, TC), 'coef_label_list_', LV, self.S)

    def mp(self, o):
        return field(self.S.unpack(o, TO), 'op_label_coef_repr_map_', MT, self.S)

    def ceq(self, a, b):
        x, y = self.lst(a), self.lst(b)
        return PERM(x.arr, x.len, y.arr, y.len)

    def dom(self, o):
        return self.mp(o).dom

    def val(self, o):
        return self.mp(o).val

    def axioms(self):
        w = z3.Const('w', WT)
        a, b, c = z3.Consts('oa ob oc', self.so)
        x = z3.Const('cx', self.sc)
        l = z3.Int('l')
        FA = z3.ForAll
        X = self.lst(x)
        d = self.OD(a, b)
        idc = self.idc()
        th = self.s.theory
        th.add(['CS'], [FA([w, x], self.CS(w, x) == SUM(w, X.arr, X.len), patterns=[self.CS(w, x)])])
        th.add(['OS'], [FA([w, a, l], self.OS(w, a, l) == z3.If(self.dom(a)[l], self.CS(w, self.val(a)[l]), 0), patterns=[self.OS(w, a, l)])])
        th.add(['OEQ'], [
            FA([a, b], z3.Implies(self.OEQ(a, b), self.dom(a) == self.dom(b)), patterns=[self.OEQ(a, b)]),
            FA([a, b, l], z3.Implies(z3.And(self.OEQ(a, b), self.dom(a)[l]), self.ceq(self.val(a)[l], self.val(b)[l])),
               patterns=[z3.MultiPattern(self.OEQ(a, b), self.val(a)[l]), z3.MultiPattern(self.OEQ(a, b), self.val(b)[l])]),
            FA([a, b], z3.Implies(z3.Not(self.OEQ(a, b)), z3.Or(self.dom(a) != self.dom(b), z3.And(self.dom(a)[d], self.dom(b)[d], z3.Not(self.ceq(self.val(a)[d], self.val(b)[d]))))), patterns=[self.OEQ(a, b)]),
            FA([a], self.OEQ(a, a), patterns=[self.OEQ(a, a)]),
        ])
        th.add(['ISID'], [FA([x], self.ISID(x) == z3.And(X.len == 1, X.arr[0] == 0), patterns=[self.ISID(x)])])

    def idc(self):
        return None


_g = {}


def get(s):
    if id(s) not in _g:
        _g[id(s)] = G(s)
    return _g[id(s)]


def setup(s):
    g = get(s)
    s.models.eqpred['CoefRepr'] = g.ceq
    s.models.eqpred['OpRepr'] = lambda a, b: g.OEQ(a, b)
    g.axioms()
    s.ip.algebra = g
    _fs(g)


def gof(c):
    return c.ip.algebra


def clist(c, v):
    return field(v, 'coef_label_list_', LV, c.S)


def omap(c, v):
    return field(v, 'op_label_coef_repr_map_', MT, c.S)


def qw():
    return z3.Const(fresh_name('w'), WT)


def SUMV(w, v):
    return SUM(w, v.arr, v.len)


def contracts(CSet):
    # ------------------------------------------------ CoefRepr
    def lists_equal(a, b):
        p = z3.Int(fresh_name('p'))
        return z3.And(a.len == b.len, z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < b.len), a.arr[p] == b.arr[p]), patterns=[a.arr[p]]))

    def same_value(c, a, b):
        w = qw()
        return z3.ForAll([w], SUMV(w, a) == SUMV(w, b), patterns=[SUMV(w, a)])
    P = 'CoefRepr::'
    sel = lambda f: [t[1] if t[0] == 'ref' else t for t in ptypes(f)]
    CSet.add(Contract(P + 'CoefRepr#default', ensures=lambda c: [('the empty sum (zero)', clist(c, c.this1).len == 0)], modifies=['this'], sel=lambda f: not ptypes(f)))
    CSet.add(Contract(P + 'CoefRepr#label', ensures=lambda c: [('a single term', z3.And(clist(c, c.this1).len == 1, clist(c, c.this1).arr[0] == c.a(0)))], modifies=['this'], sel=lambda f: sel(f) == [('int', 64, True)]))
    CSet.add(Contract(P + 'CoefRepr#list', ensures=lambda c: [('the terms given, in order', lists_equal(clist(c, c.this1), c.nvec(c.a(0))))], modifies=['this'], sel=lambda f: sel(f) == [LV]))
    perm = lambda a, b: PERM(a.arr, a.len, b.arr, b.len)
    CSet.add(Contract(P + 'CoefRepr#copy', ensures=lambda c: [('same terms', lists_equal(c.nvec(clist(c, c.this1)), clist(c, c.a(0)))), ('equal to the source', perm(c.nvec(clist(c, c.this1)), clist(c, c.a(0))))], modifies=['this'], sel=lambda f: sel(f) == [TC] and not is_rref(f)))
    CSet.add(Contract(P + 'CoefRepr#move', ensures=lambda c: [('takes over the terms', lists_equal(c.nvec(clist(c, c.this1)), clist(c, c.a(0))))], modifies=['this', 0], sel=lambda f: sel(f) == [TC] and is_rref(f)))
    CSet.add(Contract(P + 'operator=#copy', ensures=lambda c: [('same terms', lists_equal(c.nvec(clist(c, c.this1)), clist(c, c.a(0)))), ('equal to the source', perm(c.nvec(clist(c, c.this1)), clist(c, c.a(0)))), ('right-hand side unchanged', lists_equal(c.nvec(clist(c, c.a1(0))), clist(c, c.a(0))))], modifies=['this'], aliases=[{0: 'this'}], sel=lambda f: not is_rref(f)))
    CSet.add(Contract(P + 'operator=#move', ensures=lambda c: [('takes over the terms', lists_equal(c.nvec(clist(c, c.this1)), clist(c, c.a(0))))], modifies=['this', 0], sel=is_rref))
    CSet.add(Contract(P + 'GetCoefLabelList', ensures=lambda c: [('the terms in order', lists_equal(c.nvec(c.r), clist(c, c.this0)))]))

    def eqpost(neg):
        def post(c):
            a, b = clist(c, c.this0), clist(c, c.a(0))
            r = z3.Not(c.r) if neg else c.r
            w = qw()
            return [('true exactly for the same multiset of terms', r == PERM(a.arr, a.len, b.arr, b.len)),
                    ('equal expressions have equal values under every assignment', z3.Implies(r, z3.ForAll([w], SUMV(w, a) == SUMV(w, b), patterns=[SUMV(w, a)]))),
                    ('different expressions have different values under some assignment', z3.Implies(z3.Not(r), SUMV(CNT(PERMDIFF(a.arr, a.len, b.arr, b.len)), a) != SUMV(CNT(PERMDIFF(a.arr, a.len, b.arr, b.len)), b)))]
        return post
    CSet.add(Contract(P + 'operator==', ensures=eqpost(False)))
    CSet.add(Contract(P + 'operator!=', ensures=eqpost(True)))

    def addpost(res):
        def post(c):
            a, b, r = clist(c, c.this0), clist(c, c.a(0)), res(c)
            w = qw()
            return [('as many terms as both together', r.len == a.len + b.len),
                    ('value is the sum of the values, under every assignment', z3.ForAll([w], SUMV(w, r) == SUMV(w, a) + SUMV(w, b), patterns=[SUMV(w, r)]))]
        return post
    room = lambda c: [('representable size', clist(c, c.this0).len + clist(c, c.a(0)).len < (1 << 58))]
    def sumhints(lc):
        c = lc.fctx
        a, b = clist(c, c.this0), clist(c, c.a(0))
        out = []
        for h, e, cell in lc.recs('CoefRepr'):
            if e is None or not lc.modified(h, e):
                continue
            x = c.ip.algebra.lst(c.pack(h, TC))
            for t in lc.ts:
                w, p = qw(), z3.Int(fresh_name('p'))
                out.append(('terms so far', z3.And(x.len == a.len + t, z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < a.len), x.arr[p] == a.arr[p]), patterns=[x.arr[p]]))))
                out.append(('value so far', z3.ForAll([w], SUM(w, x.arr, x.len) == SUM(w, a.arr, a.len) + SUM(w, b.arr, t), patterns=[SUM(w, x.arr, x.len)])))
        return out
    CSet.add(Contract(P + 'operator+=', ensures=addpost(lambda c: clist(c, c.this1)), modifies=['this'], aliases=[{0: 'this'}], hints=sumhints))
    CSet.add(Contract(P + 'operator+', hints=sumhints, ensures=addpost(lambda c: clist(c, c.r)), aliases=[{0: 'this'}]))

    def catpost(c):
        a, b, r = c.a(0), c.a(1), c.nvec(c.r)
        p = z3.Int(fresh_name('p'))
        w = qw()
        out = [('length', r.len == a.len + b.len),
               ('first part', z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < a.len), r.arr[p] == a.arr[p]), patterns=[r.arr[p]])),
               ('second part', z3.ForAll([p], z3.Implies(z3.And(a.len <= p, p < a.len + b.len), r.arr[p] == b.arr[p - a.len]), patterns=[r.arr[p]]))]
        if r.arr.sort() == AI:
            out.append(('sum over the concatenation', z3.ForAll([w], SUMV(w, r) == SUMV(w, a) + SUMV(w, b), patterns=[SUMV(w, r)])))
        return out
    CSet.add(Contract('ConcatenateTwoVec', ensures=catpost, aliases=[]))

    def elempost(c):
        v = c.a(1)
        et = v.et
        pos = c.a1(2)
        p = z3.Int(fresh_name('p'))
        at = lambda i: c.S.unpack(v.arr[i], et)
        eq = lambda i: c.eq(c.a(0), at(i), et)
        return [('found: position in range and holding an equal element', z3.Implies(c.r, z3.And(pos >= 0, pos < v.len, eq(pos)))),
                ('found: the first such position', z3.Implies(c.r, z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < pos), z3.Not(eq(p))), patterns=[v.arr[p]]))),
                ('not found: position -1 and no equal element', z3.Implies(z3.Not(c.r), z3.And(pos == -1, z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < v.len), z3.Not(eq(p))), patterns=[v.arr[p]]))))]

    def elemhints(lc):
        c = lc.fctx
        v = c.a(1)
        et = v.et
        out = []
        p = z3.Int(fresh_name('p'))
        for t in lc.ts:
            out.append(('no equal element so far', z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < t), z3.Not(c.eq(c.a(0), c.S.unpack(v.arr[p], et), et))), patterns=[v.arr[p]])))
        return out
    CSet.add(Contract('ElemInVec', ensures=elempost, modifies=[2], hints=elemhints))


def is_rref(f):
    return any('&&' in p['type']['qualType'] for p in nparams(f))


# =============================================================== operators
FS = None


def _fs(g):
    """FS(w, coefs, labels, l, n): sum of coefs[i] over the i<n with labels[i]==l; OCC: some such i exists"""
    if hasattr(g, 'FS'):
        return
    S = g.S
    ca = z3.ArraySort(I, g.sc)
    g.FS = z3.Function('FS', WT, ca, AI, I, I, I)
    g.OCC = z3.Function('OCC', AI, I, I, B)
    g.WOF = z3.Function('WOF', AI, WT)
    g.RS = z3.Function('RS', WT, AI, S.sort(MT), I, I)      # realised operator: sum over the first n map entries
    w = z3.Const('w', WT)
    a = z3.Const('ca', ca)
    b = z3.Const('la', AI)
    m = z3.Const('mm', S.sort(MT))
    l, n, k = z3.Ints('l n k')
    FA = z3.ForAll
    th = g.s.theory
    th.add(['FS'], [FA([w, a, b, l, n], z3.Implies(n <= 0, g.FS(w, a, b, l, n) == 0), patterns=[g.FS(w, a, b, l, n)]),
                    FA([w, a, b, l, n, k], z3.Implies(z3.And(n >= 0, k == n + 1), g.FS(w, a, b, l, k) == g.FS(w, a, b, l, n) + z3.If(b[n] == l, g.CS(w, a[n]), 0)), patterns=[z3.MultiPattern(g.FS(w, a, b, l, n), g.FS(w, a, b, l, k))])])
    th.add(['OCC'], [FA([b, l, n], z3.Implies(n <= 0, z3.Not(g.OCC(b, l, n))), patterns=[g.OCC(b, l, n)]),
                     FA([b, l, n, k], z3.Implies(z3.And(n >= 0, k == n + 1), g.OCC(b, l, k) == z3.Or(g.OCC(b, l, n), b[n] == l)), patterns=[z3.MultiPattern(g.OCC(b, l, n), g.OCC(b, l, k))])])
    th.add(['WOF'], [FA([b, l], W(g.WOF(b), l) == b[l], patterns=[W(g.WOF(b), l)])])
    card, keyat, rank = g.s.models.mapfns(('int', 64, True))
    M = S.unpack(m, MT)
    g.keyfns = (card, keyat, rank)
    term = lambda i: MUL(g.CS(w, M.val[keyat(M.dom, i)]), b[keyat(M.dom, i)])
    th.add(['RS'], [FA([w, b, m, n], z3.Implies(n <= 0, g.RS(w, b, m, n) == 0), patterns=[g.RS(w, b, m, n)]),
                    FA([w, b, m, n], z3.Implies(n == 1, g.RS(w, b, m, n) == term(0)), patterns=[g.RS(w, b, m, n)]),
                    FA([w, b, m, n, k], z3.Implies(z3.And(n >= 0, k == n + 1), g.RS(w, b, m, k) == g.RS(w, b, m, n) + term(n)), patterns=[z3.MultiPattern(g.RS(w, b, m, n), g.RS(w, b, m, k))])])


class OV:
    """view of an OpRepr value"""

    def __init__(self, c, v):
        self.c = c
        self.g = g = c.ip.algebra
        self.p = v if isinstance(v, z3.ExprRef) else c.S.pack(v, TO)
        m = g.mp(self.p) if isinstance(v, z3.ExprRef) else omap(c, v)
        self.dom, self.val = m.dom, m.val
        self.card, self.keyat, self.rank = g.keyfns

    @property
    def n(self):
        return self.card(self.dom)

    def os(self, w, l):
        return self.g.OS(w, self.p, l)


def ql():
    return z3.Int(fresh_name('l'))


def idcoef(c, x):
    """coefficient expression equal to the identity label"""
    g = c.ip.algebra
    return g.ceq(x, c.packid)


def id_of(c):
    """packed CoefRepr holding just label 0"""
    g = c.ip.algebra
    if not hasattr(g, 'idconst'):
        g.idconst = z3.Const('coef_identity', g.sc)
        v = g.lst(g.idconst)
        g.s.theory.add(['coef_identity'], [v.len == 1, v.arr[0] == 0])
    return g.idconst


def allid(c, o, upto=None, at=None):
    """every coefficient of the operator expression is the identity"""
    l = ql()
    g = c.ip.algebra
    return z3.ForAll([l], z3.Implies(o.dom[l], g.ceq(o.val[l], id_of(c))), patterns=[o.val[l]])


def op_contracts(CSet):
    P = 'OpRepr::'
    L1 = ('int', 64, True)
    CV = ('vec', TC)
    sel = lambda f: [t[1] if t[0] == 'ref' else t for t in ptypes(f)]

    def single(coef):
        def post(c):
            o = OV(c, c.this1)
            g = c.ip.algebra
            l = ql()
            lab = c.a(1) if coef else c.a(0)
            x = c.pack(c.a(0), TC) if coef else id_of(c)
            return [('one term', z3.ForAll([l], o.dom[l] == (l == lab), patterns=[o.dom[l]])),
                    ('its coefficient', g.ceq(o.val[lab], x)), ('one term counted', o.n == 1)]
        return post
    CSet.add(Contract(P + 'OpRepr#default', ensures=lambda c: [('no term (zero operator)', OV(c, c.this1).n == 0), ('is the zero operator', OV(c, c.this1).p == c.default(TO))], modifies=['this'], sel=lambda f: not ptypes(f)))
    CSet.add(Contract(P + 'OpRepr#label', ensures=single(False), modifies=['this'], sel=lambda f: sel(f) == [L1]))
    CSet.add(Contract(P + 'OpRepr#coef_label', ensures=single(True), modifies=['this'], sel=lambda f: sel(f) == [TC, L1]))

    def listpost(c):
        g = c.ip.algebra
        o = OV(c, c.this1)
        cs, ls = c.a(0), c.a(1)
        w, l = qw(), ql()
        return [('a term for exactly the labels listed', z3.ForAll([l], o.dom[l] == g.OCC(ls.arr, l, ls.len), patterns=[o.dom[l]])),
                ('coefficient of a label is the sum of its coefficients', c.ip.algebra.fwl(w, l, o.os(w, l) == g.FS(w, cs.arr, ls.arr, l, ls.len)))]

    def listhints(lc):
        c = lc.fctx
        g = c.ip.algebra
        out = []
        cs, ls = c.a(0), c.a(1)
        for h, e, cell in lc.recs('OpRepr'):
            if e is None or not lc.modified(h, e):
                continue
            o = OV(c, h)
            for t in lc.ts:
                w, l = qw(), ql()
                out.append(('labels so far', z3.ForAll([l], o.dom[l] == g.OCC(ls.arr, l, t), patterns=[o.dom[l]])))
                out.append(('sums so far', c.ip.algebra.fwl(w, l, o.os(w, l) == g.FS(w, cs.arr, ls.arr, l, t))))
        return out
    CSet.add(Contract(P + 'OpRepr#lists', requires=lambda c: [('a coefficient for every label', c.a(0).len >= c.a(1).len)], ensures=listpost, modifies=['this'], hints=listhints, sel=lambda f: sel(f) == [CV, ('vec', L1)]))

    def samep(get):
        def post(c):
            g = c.ip.algebra
            return [('same expression', g.OEQ(c.pack(get(c), TO), c.pack(c.a(0), TO))), ('identical terms', OV(c, get(c)).dom == OV(c, c.a(0)).dom),
                    ('identical representation', c.pack(get(c), TO) == c.pack(c.a(0), TO))]
        return post
    CSet.add(Contract(P + 'OpRepr#copy', ensures=samep(lambda c: c.this1), modifies=['this'], sel=lambda f: sel(f) == [TO]))
    CSet.add(Contract(P + 'operator=', ensures=samep(lambda c: c.this1), modifies=['this'], aliases=[{0: 'this'}]))

    def listing(what):
        def post(c):
            o = OV(c, c.this0)
            r = c.nvec(c.r)
            p = z3.Int(fresh_name('p'))
            v = lambda i: o.val[o.keyat(o.dom, i)] if what == 'c' else o.keyat(o.dom, i)
            return [('one entry per term', r.len == o.n), ('in label order', z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < o.n), r.arr[p] == v(p)), patterns=[r.arr[p]]))]
        return post

    def listinghints(lc):
        c = lc.fctx
        o = OV(c, c.this0)
        out = []
        for et, v in ((TC, lambda i: o.val[o.keyat(o.dom, i)]), (L1, lambda i: o.keyat(o.dom, i))):
            for h, e in lc.vecs(et):
                if e is None or h.arr.eq(e.arr):
                    continue
                p = z3.Int(fresh_name('p'))
                out.append(('entries so far', z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < h.len), h.arr[p] == v(p)), patterns=[h.arr[p]])))
        return out
    CSet.add(Contract(P + 'GetCoefReprList', ensures=listing('c'), hints=listinghints))
    CSet.add(Contract(P + 'GetOpLabelList', ensures=listing('l'), hints=listinghints))

    def eqp(neg):
        def post(c):
            g = c.ip.algebra
            r = z3.Not(c.r) if neg else c.r
            a, b = OV(c, c.this0), OV(c, c.a(0))
            w, l = qw(), ql()
            return [('true exactly for the same terms with equal coefficients', r == g.OEQ(a.p, b.p)),
                    ('equal expressions have equal coefficients under every assignment', z3.Implies(r, c.ip.algebra.fwl(w, l, a.os(w, l) == b.os(w, l))))]
        return post
    CSet.add(Contract(P + 'operator==', ensures=eqp(False)))
    CSet.add(Contract(P + 'operator!=', ensures=eqp(True)))

    def addpost(res):
        def post(c):
            a, b, r = OV(c, c.this0), OV(c, c.a(0)), OV(c, res(c))
            w, l = qw(), ql()
            return [('terms of either summand', z3.ForAll([l], r.dom[l] == z3.Or(a.dom[l], b.dom[l]), patterns=[r.dom[l]])),
                    ('coefficients add, label by label, under every assignment', c.ip.algebra.fwl(w, l, r.os(w, l) == a.os(w, l) + b.os(w, l)))]
        return post

    def addhints(lc):
        c = lc.fctx
        out = []
        a, b = OV(c, c.this0), OV(c, c.a(0))
        for h, e, cell in lc.recs('OpRepr'):
            if e is None or not lc.modified(h, e):
                continue
            o = OV(c, h)
            out.append(('label set unchanged', o.dom == a.dom))
            for t in lc.ts:
                w, l = qw(), ql()
                done = lambda l: z3.And(b.dom[l], b.rank(b.dom, l) < t)
                out.append(('terms so far', z3.ForAll([l], o.dom[l] == z3.Or(a.dom[l], done(l)), patterns=[o.dom[l]])))
                out.append(('coefficients so far', c.ip.algebra.fwl(w, l, o.os(w, l) == a.os(w, l) + z3.If(done(l), b.g.CS(w, b.val[l]), 0))))
                out.append(('not yet reached', z3.ForAll([l], z3.Implies(z3.Not(done(l)), z3.And(o.dom[l] == a.dom[l], o.val[l] == a.val[l])), patterns=[o.val[l]])))
        return out
    CSet.add(Contract(P + 'operator+=', ensures=addpost(lambda c: c.this1), modifies=['this'], hints=addhints, aliases=[{0: 'this'}]))
    CSet.add(Contract(P + 'operator+', ensures=addpost(lambda c: c.r), aliases=[{0: 'this'}]))

    # ------------------------------------------------ coefficient * base
    def seppost(c):
        g = c.ip.algebra
        o = OV(c, c.a(0))
        r = c.r
        k = c.pack(r.a, TC)
        b = OV(c, r.b)
        l, l2, w = ql(), ql(), qw()
        W1 = lambda w: g.CS(w, id_of(c)) == 1
        uniform = z3.ForAll([l, l2], z3.Implies(z3.And(o.dom[l], o.dom[l2]), g.ceq(o.val[l], o.val[l2])), patterns=[z3.MultiPattern(o.val[l], o.val[l2])])
        return [('base has the same terms', b.dom == o.dom),
                ('zero operator: zero coefficient and zero base', z3.Implies(o.n == 0, z3.And(g.lst(k).len == 0, b.n == 0))),
                ('either the base has identity coefficients only, or nothing is split off', z3.Or(
                    z3.And(allid(c, b), z3.ForAll([l], z3.Implies(o.dom[l], g.ceq(o.val[l], k)), patterns=[o.val[l]])),
                    z3.And(g.ceq(k, id_of(c)), g.OEQ(b.p, o.p)))),
                ('a coefficient shared by all terms is split off', z3.Implies(uniform, allid(c, b))),
                ('coefficient times base is the operator, under every assignment', c.ip.algebra.fwl(w, l, z3.Implies(W1(w), o.os(w, l) == MUL(g.CS(w, k), b.os(w, l))))),
                ]

    def sephints(lc):
        c = lc.fctx
        g = c.ip.algebra
        o = OV(c, c.a(0))
        out = []
        l = ql()
        for t in lc.ts:
            for h, e, cell in lc.recs('CoefRepr'):
                x = c.pack(h, TC)
                for k in (0, 1):
                    out.append(('coefficients equal so far', z3.ForAll([l], z3.Implies(z3.And(o.dom[l], o.rank(o.dom, l) < t + k), g.ceq(o.val[l], x)), patterns=[o.val[l]])))
            for h, e, cell in lc.recs('OpRepr'):
                if e is None or not lc.modified(h, e):
                    continue
                b = OV(c, h)
                out.append(('terms kept', b.dom == o.dom))
                out.append(('coefficients ahead unchanged', z3.ForAll([l], z3.Implies(z3.And(b.dom[l], o.rank(o.dom, l) >= t), b.val[l] == o.val[l]), patterns=[b.val[l]])))
                out.append(('coefficients reset so far', z3.ForAll([l], z3.Implies(z3.And(b.dom[l], o.rank(o.dom, l) < t), g.ceq(b.val[l], id_of(c))), patterns=[b.val[l]])))
                out.append(('terms collected so far', z3.ForAll([l], b.dom[l] == z3.And(o.dom[l], o.rank(o.dom, l) < t), patterns=[b.dom[l]])))
                out.append(('coefficients of the collected terms', z3.ForAll([l], z3.Implies(b.dom[l], g.ceq(b.val[l], id_of(c))), patterns=[b.val[l]])))
                out.append(('coefficients copied so far', z3.ForAll([l], z3.Implies(b.dom[l], b.val[l] == o.val[l]), patterns=[b.val[l]])))
        return out
    CSet.add(Contract('SeparateCoefAndBase', ensures=seppost, hints=sephints))
    CSet.add(Contract('GetOpReprCoef', ensures=lambda c: [
        ('zero operator: zero coefficient', z3.Implies(OV(c, c.a(0)).n == 0, c.ip.algebra.lst(c.pack(c.r, TC)).len == 0)),
        ('a common coefficient of all terms, else the identity', z3.Or(c.ip.algebra.ceq(c.pack(c.r, TC), id_of(c)), (lambda o, l: z3.ForAll([l], z3.Implies(o.dom[l], c.ip.algebra.ceq(o.val[l], c.pack(c.r, TC))), patterns=[o.val[l]]))(OV(c, c.a(0)), ql())))]))

    def multipre(c):
        o = OV(c, c.a(1))
        g = c.ip.algebra
        return [('operator zero, coefficient identity, or identity coefficients only', z3.Or(o.n == 0, g.ceq(c.pack(c.a(0), TC), id_of(c)), allid(c, o)))]

    def multipost(c):
        g = c.ip.algebra
        k = c.pack(c.a(0), TC)
        o, r = OV(c, c.a(1)), OV(c, c.r)
        l, w = ql(), qw()
        return [('same terms', r.dom == o.dom),
                ('zero stays zero', z3.Implies(o.n == 0, g.OEQ(r.p, c.default(TO)))),
                ('coefficient is multiplied onto every term, under every assignment', c.ip.algebra.fwl(w, l, z3.Implies(g.CS(w, id_of(c)) == 1, r.os(w, l) == MUL(g.CS(w, k), o.os(w, l)))))]

    def multihints(lc):
        c = lc.fctx
        g = c.ip.algebra
        k = c.pack(c.a(0), TC)
        o = OV(c, c.a(1))
        out = []
        l = ql()
        for h, e, cell in lc.recs('OpRepr'):
            if e is None or not lc.modified(h, e):
                continue
            b = OV(c, h)
            out.append(('terms kept', b.dom == o.dom))
            for t in lc.ts:
                out.append(('coefficients set so far', z3.ForAll([l], z3.Implies(z3.And(b.dom[l], o.rank(o.dom, l) < t), g.ceq(b.val[l], k)), patterns=[b.val[l]])))
                out.append(('terms collected so far', z3.ForAll([l], b.dom[l] == z3.And(o.dom[l], o.rank(o.dom, l) < t), patterns=[b.dom[l]])))
                out.append(('coefficients of the collected terms', z3.ForAll([l], z3.Implies(b.dom[l], g.ceq(b.val[l], k)), patterns=[b.val[l]])))
        return out
    CSet.add(Contract('CoefReprOpReprIncompleteMulti', requires=multipre, ensures=multipost, hints=multihints))


def realize_contracts(CSet):
    def inlabels(c, lst, n):
        p = z3.Int(fresh_name('p'))
        return z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < lst.len), z3.And(lst.arr[p] >= 0, lst.arr[p] < n)), patterns=[lst.arr[p]])

    def wof(c, v):
        return c.ip.algebra.WOF(v.arr)
    CSet.add(Contract('CoefRepr::Realize', requires=lambda c: [('every label has a value', inlabels(c, clist(c, c.this0), c.a(0).len))],
                      ensures=lambda c: [('the sum of the values of its labels', c.r == SUMV(wof(c, c.nvec(c.a(0))), clist(c, c.this0)))],
                      hints=lambda lc: [('sum so far', v == SUM(wof(lc.fctx, lc.fctx.nvec(lc.fctx.a(0))), clist(lc.fctx, lc.fctx.this0).arr, t)) for v in ring_cells(lc, 'VNum') for t in lc.ts]))

    def opre(c):
        o = OV(c, c.this0)
        g = c.ip.algebra
        l = ql()
        lst = g.lst(o.val[l])
        p = z3.Int(fresh_name('p'))
        return [('every operator label has an operator', z3.ForAll([l], z3.Implies(o.dom[l], z3.And(l >= 0, l < c.a(1).len)), patterns=[o.dom[l]])),
                ('every coefficient label has a value', z3.ForAll([l, p], z3.Implies(z3.And(o.dom[l], 0 <= p, p < lst.len), z3.And(lst.arr[p] >= 0, lst.arr[p] < c.a(0).len)), patterns=[lst.arr[p]]))]

    def rs(c, n):
        g = c.ip.algebra
        o = OV(c, c.this0)
        return g.RS(wof(c, c.nvec(c.a(0))), c.nvec(c.a(1)).arr, c.S.pack(omap(c, c.this0), MT), n)
    CSet.add(Contract('OpRepr::Realize', requires=opre, ensures=lambda c: [('the linear combination of the basis operators with the values of their coefficients', c.r == rs(c, OV(c, c.this0).n))],
                      hints=lambda lc: [('terms so far', v == rs(lc.fctx, t + k)) for v in ring_cells(lc, 'VOp') for t in lc.ts for k in (0, 1)]))


def ring_cells(lc, name):
    return [v for c, v in lc.H.cells.items() if lc.H.types.get(c) == ('rec', name) and isinstance(v, z3.ExprRef)]


_c0 = contracts


def contracts(CSet):          # noqa
    _c0(CSet)
    op_contracts(CSet)
    realize_contracts(CSet)
