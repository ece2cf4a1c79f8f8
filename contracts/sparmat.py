"""SparMat<T>: abstract view M(x,y), representation invariant, and one contract per operation."""
import z3
from values import *
from ctypes_ import *
from solver import *
from contract import *

LONGV = ('vec', ('int', 64, True))


class View:
    """abstract view of a SparMat value"""

    def __init__(self, c, v):
        S = c.S
        self.c, self.v = c, v
        self.rows = v.f['rows']
        self.cols = v.f['cols']
        self.idx = c.nvec(field(v, 'indexes', LONGV, S))
        dv = [f for f, ft in S.fields(v.t) if ft[0] == 'vec' and ft != LONGV]
        self.data = c.nvec(field(v, 'data' if 'data' in v.f else dv[0], None, S))
        self.T = self.data.et
        self.null = c.default(self.T)

    def o(self, x, y):
        return OFF(self.cols, x, y)

    def i(self, x, y):
        return self.idx.arr[self.o(x, y)]

    def isnull(self, x, y):
        return self.i(x, y) == -1

    def at(self, x, y):
        return z3.If(self.i(x, y) == -1, self.null, self.data.arr[self.i(x, y)])

    def inr(self, x, y):
        return z3.And(x >= 0, x < self.rows, y >= 0, y < self.cols)

    def inv(self, nonnull=True):
        p = z3.Int(fresh_name('p'))
        x, y = xy()
        x2, y2 = xy()
        out = [
            ('shape: one index per cell', z3.And(self.idx.len == MUL(self.rows, self.cols), self.rows >= 0, self.cols >= 0)),
            ('every index is -1 or refers to a stored element', z3.ForAll([x, y], z3.Implies(self.inr(x, y), z3.And(self.i(x, y) >= -1, self.i(x, y) < self.data.len)), patterns=[self.o(x, y)])),
            ('no two cells share a stored element', z3.ForAll([x, y, x2, y2], z3.Implies(z3.And(self.inr(x, y), self.inr(x2, y2), self.i(x, y) != -1, self.i(x, y) == self.i(x2, y2)), z3.And(x == x2, y == y2)), patterns=[z3.MultiPattern(self.o(x, y), self.o(x2, y2))])),
        ]
        if nonnull:
            out.append(('stored elements are not null', z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < self.data.len), z3.Not(self.isnullelem(self.data.arr[p]))), patterns=[self.data.arr[p]])))
        return out

    def isnullelem(self, e):
        c = self.c
        return c.ip.models.eqpred[show(self.T)](e, self.null)


def xy():
    return z3.Ints('%s %s' % (fresh_name('x'), fresh_name('y')))


def inv0(c):
    return View(c, c.this0).inv()


def with_inv(c, v, posts):
    return posts + View(c, v).inv()


def all_cells(V, body, pats=None):
    """forall cells of V: body(x,y)"""
    x, y = xy()
    return z3.ForAll([x, y], z3.Implies(V.inr(x, y), body(x, y)), patterns=pats(x, y) if pats else [V.o(x, y)])


def same_dims(a, b):
    return z3.And(a.rows == b.rows, a.cols == b.cols)


def same_elems(a, b):
    """identical stored data (nothing copied, moved or lost among the stored elements)"""
    p = z3.Int(fresh_name('p'))
    return z3.And(a.data.len == b.data.len, z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < b.data.len), a.data.arr[p] == b.data.arr[p]), patterns=[a.data.arr[p]]))


# ---- loop-invariant candidates shared by the index-permuting operations ------
def guards(lc):
    ints = lc.ints()
    ts = lc.ts
    vs = list(ts) + [v for v in ints if not z3.is_int_value(v)]
    seen, out = set(), []
    for v in vs:
        if v.get_id() not in seen:
            seen.add(v.get_id())
            out.append(v)
    return out[:10]


def mover_hints(F, ncols=None, elem=None, nrows=None, sh=0):
    """candidates for loops which rearrange a vector<long>: F(c, e0, x, y) = source value of the final content"""
    def hints(lc):
        out = []
        c = lc.fctx
        V0 = View(c, c.this0)
        for h, e in lc.vecs(('int', 64, True)):
            if e is None or h.arr.eq(e.arr):
                continue
            x, y = xy()
            vs = [x, y]
            nc = ncols(c, V0) if ncols else V0.cols
            pos = OFF(nc, x, y)
            dom = z3.And(x >= 0, y >= 0, x < (nrows(V0) if nrows else V0.rows), y < nc)
            final = F(c, V0, x, y)
            if sh:
                x = x + sh
            alld = z3.And(x - sh >= 0, y >= 0, x - sh < V0.rows, y < nc)
            if not h.len.eq(e.len):
                continue
            # the function-entry content, not the content at this loop's entry
            base = V0.idx.arr
            gs = guards(lc)
            outer = gs

            def cand(nm, G):
                out.append((nm + ' moved', z3.ForAll(vs, z3.Implies(z3.And(dom, G), h.arr[pos] == final), patterns=[pos])))
                out.append((nm + ' rest untouched', z3.ForAll(vs, z3.Implies(z3.And(alld, z3.Not(G)), h.arr[pos] == base[pos]), patterns=[pos])))
            for g in gs:
                cand('rows below %s' % g, x < g)
                cand('columns below %s' % g, y < g)
            for g in gs:
                for k in gs:
                    if g is not k:
                        cand('lex rows %s,%s' % (g, k), z3.Or(x < g, z3.And(x == g, y < k)))
                        cand('lex cols %s,%s' % (g, k), z3.Or(y < g, z3.And(y == g, x < k)))
        return out + builder_hints(lc, F, V0.rows, ncols(c, V0) if ncols else V0.cols)
    return hints


def builder_hints(lc, F, rows, nc, adj=()):
    """candidates for loops which build the new index table by appending: its length is a row-major position and
    every cell before the end is final"""
    out = []
    c = lc.fctx
    V0 = View(c, c.this0)
    gs = guards(lc)
    rows_ = gs + [iv(0)]
    ins = [iv(0)] + [g for k in gs for g in [k] + [a(k) for a in adj]]
    for h, e in lc.vecs(('int', 64, True)):
        if e is None or h.len.eq(e.len):
            continue
        for a in rows_:
            for b in ins:
                if a.eq(b) and not z3.is_int_value(a):
                    continue
                out.append(('length is position (%s,%s)' % (a, b), z3.And(h.len == OFF(nc, a, b), h.len == MUL(a, nc) + b)))
                x, y = xy()
                G = z3.Or(x < a, z3.And(x == a, y < b))
                pos = OFF(nc, x, y)
                out.append(('appended cells before (%s,%s) are final' % (a, b), z3.ForAll([x, y], z3.Implies(z3.And(x >= 0, y >= 0, x < rows, y < nc, G), h.arr[pos] == F(c, V0, x, y)), patterns=[pos])))
    return out


def removecol_hints(lc):
    out = []
    c = lc.fctx
    V0 = View(c, c.this0)
    col = c.a(0)
    nc = V0.cols - 1
    oc = V0.cols
    out += builder_hints(lc, lambda c, V0, x, y: V0.idx.arr[OFF(oc, x, z3.If(y < col, y, y + 1))], V0.rows, nc, [lambda k: z3.If(k <= col, k, k - 1)])
    ints = guards(lc)
    curs = [OFF(nc, v, col) for v in ints] + [a + b for a in ints for b in ints if a.get_id() < b.get_id()] + ints
    for h, e in lc.vecs(('int', 64, True)):
        if e is None or h.arr.eq(e.arr):
            continue
        for cur in curs:
            x, y = xy()
            p = z3.Int(fresh_name('p'))
            pos = OFF(nc, x, y)
            out.append(('cells before %s are final' % cur, z3.ForAll([x, y], z3.Implies(z3.And(x >= 0, x < V0.rows, y >= 0, y < nc, pos < cur), h.arr[pos] == V0.idx.arr[OFF(oc, x, z3.If(y < col, y, y + 1))]), patterns=[pos])))
            out.append(('content from %s on is still the original' % cur, z3.ForAll([p], z3.Implies(p >= cur, h.arr[p] == V0.idx.arr[p]), patterns=[h.arr[p]])))
    return out


def contracts(CS, T=None):
    def arg_in(c, i, bound):
        return z3.And(c.a(i) >= 0, c.a(i) < bound)

    def cells(c, idxs):
        V = View(c, c.this0)
        return [('row in range', z3.And(c.a(0) >= 0, c.a(0) < V.rows)), ('column in range', z3.And(c.a(1) >= 0, c.a(1) < V.cols))]
    B_ = 'SparMat::'

    # constructors -----------------------------------------------------------
    def ctor_default(c):
        V = View(c, c.this1)
        return [('empty matrix', z3.And(V.rows == 0, V.cols == 0, V.data.len == 0))]

    CS.add(Contract(B_ + 'SparMat#default', ensures=(lambda f: lambda c: with_inv(c, c.this1, f(c)))(ctor_default), modifies=['this'], sel=lambda f: len(nparams(f)) == 0))

    def ctor_dims(c):
        V = View(c, c.this1)
        return [('dimensions as requested', z3.And(V.rows == c.a(0), V.cols == c.a(1))), ('nothing stored', V.data.len == 0),
                          ('every element null', all_cells(V, lambda x, y: V.isnull(x, y)))]

    CS.add(Contract(B_ + 'SparMat#dims', ensures=(lambda f: lambda c: with_inv(c, c.this1, f(c)))(ctor_dims), modifies=['this'], sel=lambda f: len(nparams(f)) == 2))

    def copy_post(c, dst):
        V, R = View(c, dst), View(c, c.a(0))
        p = z3.Int(fresh_name('p'))
        return [('dimensions copied', same_dims(V, R)),
                          ('every element copied', all_cells(V, lambda x, y: V.at(x, y) == R.at(x, y))),
                          ('null pattern copied', all_cells(V, lambda x, y: V.isnull(x, y) == R.isnull(x, y)))]

    CS.add(Contract(B_ + 'SparMat#copy', requires=lambda c: View(c, c.a(0)).inv(), ensures=lambda c: with_inv(c, c.this1, copy_post(c, c.this1)), modifies=['this'], sel=lambda f: len(nparams(f)) == 1))
    CS.add(Contract(B_ + 'operator=', requires=lambda c: inv0(c) + View(c, c.a(0)).inv(), ensures=lambda c: with_inv(c, c.this1, copy_post(c, c.this1)), modifies=['this'], aliases=[{0: 'this'}]))

    # element access -----------------------------------------------------------
    def get_post(c):
        V = View(c, c.this0)
        return [('returns the element of that cell', c.pack(c.r, V.T) == V.at(c.a(0), c.a(1)))]

    CS.add(Contract(B_ + 'operator()', requires=lambda c: inv0(c) + cells(c, 2), ensures=get_post))
    CS.add(Contract(B_ + 'IsNull', requires=lambda c: inv0(c) + cells(c, 2), ensures=lambda c: [
        ('true exactly when the cell was never set', c.r == View(c, c.this0).isnull(c.a(0), c.a(1))),
        ('true exactly when the element equals the null element', c.r == View(c, c.this0).isnullelem(View(c, c.this0).at(c.a(0), c.a(1))))]))

    def set_post(c):
        V0, V = View(c, c.this0), View(c, c.this1)
        e = c.pack(c.a(2), V.T)
        noop = V0.isnullelem(e)
        r, k = c.a(0), c.a(1)
        return [('dimensions unchanged', same_dims(V, V0)),
                          ('the cell holds the element', z3.Implies(z3.Not(noop), V.at(r, k) == e)),
                          ('setting a null element changes nothing', z3.Implies(noop, all_cells(V, lambda x, y: V.at(x, y) == V0.at(x, y)))),
                          ('every other cell unchanged', all_cells(V, lambda x, y: z3.Implies(z3.Not(z3.And(x == r, y == k)), z3.And(V.at(x, y) == V0.at(x, y), V.isnull(x, y) == V0.isnull(x, y)))))]

    CS.add(Contract(B_ + 'SetElem', requires=lambda c: inv0(c) + cells(c, 2), ensures=(lambda f: lambda c: with_inv(c, c.this1, f(c)))(set_post), modifies=['this']))
    CS.add(Contract(B_ + 'Reserve', requires=inv0, ensures=lambda c: [], modifies=[]))

    def line_post(row):
        def post(c):
            V = View(c, c.this0)
            p = z3.Int(fresh_name('p'))
            r = c.nvec(c.r)
            n = V.cols if row else V.rows
            el = (lambda q: V.at(c.a(0), q)) if row else (lambda q: V.at(q, c.a(0)))
            of_ = (lambda q: V.o(c.a(0), q)) if row else (lambda q: V.o(q, c.a(0)))
            return [('length', r.len == n), ('elements in order', z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < n), r.arr[p] == el(p)), patterns=[r.arr[p]]))]
        return post

    def line_hints(row):
        def hints(lc):
            c = lc.fctx
            V = View(c, c.this0)
            out = []
            el = (lambda q: V.at(c.a(0), q)) if row else (lambda q: V.at(q, c.a(0)))
            for h, e in lc.vecs(V.T):
                if e is None or h.arr.eq(e.arr):
                    continue
                p = z3.Int(fresh_name('p'))
                ii = (lambda q: V.i(c.a(0), q)) if row else (lambda q: V.i(q, c.a(0)))
                out.append(('elements collected so far', z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < h.len), z3.And(z3.Implies(ii(p) == -1, h.arr[p] == V.null), z3.Implies(ii(p) != -1, h.arr[p] == V.data.arr[ii(p)]))), patterns=[h.arr[p]])))
                for g in guards(lc):
                    q = z3.Int(fresh_name('q'))
                    out.append(('elements placed before %s' % g, z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < g), z3.And(z3.Implies(ii(q) == -1, h.arr[q] == V.null), z3.Implies(ii(q) != -1, h.arr[q] == V.data.arr[ii(q)]))), patterns=[h.arr[q]])))
            return out
        return hints

    CS.add(Contract(B_ + 'GetRow', requires=lambda c: inv0(c) + [('row in range', arg_in(c, 0, View(c, c.this0).rows))], ensures=line_post(True), hints=line_hints(True)))
    CS.add(Contract(B_ + 'GetCol', requires=lambda c: inv0(c) + [('column in range', arg_in(c, 0, View(c, c.this0).cols))], ensures=line_post(False), hints=line_hints(False)))

    # comparison -----------------------------------------------------------------
    def eq_post(c):
        A, B_ = View(c, c.this0), View(c, c.a(0))
        eqp = c.ip.models.eqpred[show(A.T)]
        x, y = xy()
        alleq = z3.ForAll([x, y], z3.Implies(A.inr(x, y), eqp(A.at(x, y), B_.at(x, y))), patterns=[A.o(x, y), B_.o(x, y)])
        dx, dy = fresh('dx', I), fresh('dy', I)
        return [('equal matrices have equal shape and elements', z3.Implies(c.r, z3.And(same_dims(A, B_), alleq))),
                ('matrices reported different differ', z3.Implies(z3.Not(c.r), z3.Not(z3.And(same_dims(A, B_), alleq))))]

    def eq_hints(lc):
        c = lc.fctx
        A, B_ = View(c, c.this0), View(c, c.a(0))
        eqp = c.ip.models.eqpred[show(A.T)]
        out = []
        gs = guards(lc)
        x, y = xy()

        def cand(nm, G):
            out.append((nm, z3.ForAll([x, y], z3.Implies(z3.And(A.inr(x, y), G), eqp(A.at(x, y), B_.at(x, y))), patterns=[A.o(x, y), B_.o(x, y)])))
        alleq = z3.ForAll([x, y], z3.Implies(A.inr(x, y), eqp(A.at(x, y), B_.at(x, y))), patterns=[A.o(x, y), B_.o(x, y)])
        for f in list(lc.bools()) + [v == 0 for v in lc.ints() if not z3.is_int_value(v)][:6]:
            for neg in (False, True):
                flag = z3.Not(f) if neg else f
                out.append(('a lowered flag means a difference', z3.Implies(z3.Not(flag), z3.Not(alleq))))
                for g in gs:
                    out.append(('flag: cells before %s equal' % g, z3.Implies(flag, z3.ForAll([x, y], z3.Implies(z3.And(A.inr(x, y), A.o(x, y) < g), eqp(A.at(x, y), B_.at(x, y))), patterns=[A.o(x, y), B_.o(x, y)]))))
                    out.append(('flag: rows below %s equal' % g, z3.Implies(flag, z3.ForAll([x, y], z3.Implies(z3.And(A.inr(x, y), x < g), eqp(A.at(x, y), B_.at(x, y))), patterns=[A.o(x, y), B_.o(x, y)]))))
                    for k in gs:
                        if g is not k:
                            out.append(('flag: lex %s,%s equal' % (g, k), z3.Implies(flag, z3.ForAll([x, y], z3.Implies(z3.And(A.inr(x, y), z3.Or(x < g, z3.And(x == g, y < k))), eqp(A.at(x, y), B_.at(x, y))), patterns=[A.o(x, y), B_.o(x, y)]))))
                            out.append(('flag: column lex %s,%s equal' % (g, k), z3.Implies(flag, z3.ForAll([x, y], z3.Implies(z3.And(A.inr(x, y), z3.Or(y < g, z3.And(y == g, x < k))), eqp(A.at(x, y), B_.at(x, y))), patterns=[A.o(x, y), B_.o(x, y)]))))
                    out.append(('flag: columns below %s equal' % g, z3.Implies(flag, z3.ForAll([x, y], z3.Implies(z3.And(A.inr(x, y), y < g), eqp(A.at(x, y), B_.at(x, y))), patterns=[A.o(x, y), B_.o(x, y)]))))
        for g in gs:
            cand('cells before %s equal' % g, A.o(x, y) < g)
            cand('rows below %s equal' % g, x < g)
            for k in gs:
                if g is not k:
                    cand('lex %s,%s equal' % (g, k), z3.Or(x < g, z3.And(x == g, y < k)))
        return out

    CS.add(Contract(B_ + 'operator==', requires=lambda c: inv0(c) + View(c, c.a(0)).inv(), ensures=eq_post, hints=eq_hints))

    # removal ----------------------------------------------------------------------
    def rmrow_post(c):
        V0, V = View(c, c.this0), View(c, c.this1)
        r = c.a(0)
        last = V0.rows == 1
        return [('one row less', z3.Implies(z3.Not(last), z3.And(V.rows == V0.rows - 1, V.cols == V0.cols))),
                          ('removing the only row leaves the empty matrix', z3.Implies(last, z3.And(V.rows == 0, V.cols == 0))),
                          ('remaining rows keep their elements and order', all_cells(V, lambda x, y: V.at(x, y) == V0.at(z3.If(x < r, x, x + 1), y))),
                          ('null pattern kept', all_cells(V, lambda x, y: V.isnull(x, y) == V0.isnull(z3.If(x < r, x, x + 1), y))),
                          ('indexes moved alike', all_cells(V, lambda x, y: V.i(x, y) == V0.i(z3.If(x < r, x, x + 1), y))),
                          ('stored elements unchanged', z3.Implies(z3.Not(last), same_elems(V, V0)))]

    def rmcol_post(c):
        V0, V = View(c, c.this0), View(c, c.this1)
        r = c.a(0)
        last = V0.cols == 1
        return [('one column less', z3.Implies(z3.Not(last), z3.And(V.cols == V0.cols - 1, V.rows == V0.rows))),
                          ('removing the only column leaves the empty matrix', z3.Implies(last, z3.And(V.rows == 0, V.cols == 0))),
                          ('remaining columns keep their elements and order', all_cells(V, lambda x, y: V.at(x, y) == V0.at(x, z3.If(y < r, y, y + 1)))),
                          ('null pattern kept', all_cells(V, lambda x, y: V.isnull(x, y) == V0.isnull(x, z3.If(y < r, y, y + 1)))),
                          ('indexes moved alike', all_cells(V, lambda x, y: V.i(x, y) == V0.i(x, z3.If(y < r, y, y + 1)))),
                          ('stored elements unchanged', z3.Implies(z3.Not(last), same_elems(V, V0)))]

    CS.add(Contract(B_ + 'RemoveRow', requires=lambda c: inv0(c) + [('row in range', arg_in(c, 0, View(c, c.this0).rows))], ensures=(lambda f: lambda c: with_inv(c, c.this1, f(c)))(rmrow_post), modifies=['this'],
                        hints=mover_hints(lambda c, V0, x, y: V0.i(z3.If(x < c.a(0), x, x + 1), y), nrows=lambda V0: V0.rows - 1, sh=1)))
    CS.add(Contract(B_ + 'RemoveCol', requires=lambda c: inv0(c) + [('column in range', arg_in(c, 0, View(c, c.this0).cols)), ('has rows', View(c, c.this0).rows > 0)], ensures=(lambda f: lambda c: with_inv(c, c.this1, f(c)))(rmcol_post), modifies=['this'], hints=removecol_hints))

    # permutation --------------------------------------------------------------------
    def sw(v, a, b):
        return z3.If(v == a, b, z3.If(v == b, a, v))

    def swap_post(row):
        def post(c):
            V0, V = View(c, c.this0), View(c, c.this1)
            a, b = c.a(0), c.a(1)
            src = (lambda x, y: (sw(x, a, b), y)) if row else (lambda x, y: (x, sw(y, a, b)))
            return [('dimensions unchanged', same_dims(V, V0)),
                              ('exactly the two lines are exchanged', all_cells(V, lambda x, y: V.at(x, y) == V0.at(*src(x, y)))),
                              ('null pattern exchanged alike', all_cells(V, lambda x, y: V.isnull(x, y) == V0.isnull(*src(x, y)))),
                              ('indexes moved alike', all_cells(V, lambda x, y: V.i(x, y) == V0.i(*src(x, y)))), ('stored elements unchanged', same_elems(V, V0))]
        return post
    for row in (True, False):
        def F(c, V0, x, y, row=row):
            a, b = c.a(0), c.a(1)
            return V0.i(sw(x, a, b), y) if row else V0.i(x, sw(y, a, b))
        CS.add(Contract(B_ + ('SwapTwoRows' if row else 'SwapTwoCols'),
                        requires=lambda c, row=row: inv0(c) + [('lines in range', z3.And(arg_in(c, 0, View(c, c.this0).rows if row else View(c, c.this0).cols), arg_in(c, 1, View(c, c.this0).rows if row else View(c, c.this0).cols)))],
                        ensures=(lambda f: lambda c: with_inv(c, c.this1, f(c)))(swap_post(row)), modifies=['this'], hints=mover_hints(F)))

    def perm_req(row):
        def req(c):
            V = View(c, c.this0)
            n = V.rows if row else V.cols
            s = c.a(0)
            p, q = z3.Ints('%s %s' % (fresh_name('p'), fresh_name('q')))
            return inv0(c) + [('one source per line', s.len == n),
                              ('sources in range', z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < n), z3.And(s.arr[p] >= 0, s.arr[p] < n)), patterns=[s.arr[p]])),
                              ('sources distinct (a permutation)', z3.ForAll([p, q], z3.Implies(z3.And(0 <= p, p < q, q < n), s.arr[p] != s.arr[q]), patterns=[z3.MultiPattern(s.arr[p], s.arr[q])]))]
        return req

    def perm_post(row):
        def post(c):
            V0, V = View(c, c.this0), View(c, c.this1)
            s = c.a(0)
            src = (lambda x, y: (s.arr[x], y)) if row else (lambda x, y: (x, s.arr[y]))
            return [('dimensions unchanged', same_dims(V, V0)), ('stored elements unchanged', same_elems(V, V0)),
                              ('line i is the old line given by the permutation', all_cells(V, lambda x, y: V.at(x, y) == V0.at(*src(x, y)))),
                              ('indexes moved alike', all_cells(V, lambda x, y: V.i(x, y) == V0.i(*src(x, y))))]
        return post
    for row in (True, False):
        def F2(c, V0, x, y, row=row):
            s = c.a(0)
            return V0.i(s.arr[x], y) if row else V0.i(x, s.arr[y])
        CS.add(Contract(B_ + ('TransposeRows' if row else 'TransposeCols'), requires=perm_req(row), ensures=(lambda f: lambda c: with_inv(c, c.this1, f(c)))(perm_post(row)), modifies=['this'], hints=mover_hints(F2)))
    CS.add(Contract(B_ + 'CalcOffset', inline=True), Contract(B_ + 'CalcOffset_', inline=True))
