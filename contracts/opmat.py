"""Symbolic operator matrices: sorting, line analysis, products (on top of sparmat.py and coefop.py)."""
import z3
from values import *
from ctypes_ import *
from solver import *
from contract import *
from stdmodel import *
from sparmat import View, xy, all_cells, same_dims, same_elems, with_inv, inv0, guards
from coefop import TC, TO, OV, ptypes, is_rref, allid, id_of, qw, ql, gof

ULONG = ('int', 64, False)
LONG = ('int', 64, True)
UP = ('pair', ULONG, ULONG)
P = 'SparOpReprMat::'


def q(n='p'):
    return z3.Int(fresh_name(n))


def setup(s):
    prod_setup(s)
    g = s.ip.algebra
    if hasattr(g, 'RN'):
        return
    # RN(idx,cols,x,n): non-null elements among the first n of row x;  CN(idx,cols,y,n): of column y
    g.RN = z3.Function('RN', AI, I, I, I, I)
    g.CN = z3.Function('CN', AI, I, I, I, I)
    a = z3.Const('a', AI)
    c, x, n, k = z3.Ints('c x n k')
    FA = z3.ForAll
    for nm, F, cell in (('RN', g.RN, lambda i: OFF(c, x, i)), ('CN', g.CN, lambda i: OFF(c, i, x))):
        s.theory.add([nm], [FA([a, c, x, n], z3.Implies(n <= 0, F(a, c, x, n) == 0), patterns=[F(a, c, x, n)]),
                            FA([a, c, x, n, k], z3.Implies(z3.And(n >= 0, k == n + 1), F(a, c, x, k) == F(a, c, x, n) + z3.If(a[cell(n)] != -1, 1, 0)), patterns=[z3.MultiPattern(F(a, c, x, n), F(a, c, x, k))])])
    # LCR(w,cmb,idx,dat,cols,j,l,n): sum over the first n lines i of value(cmb[i]) * coefficient of l in cell (i,j);  LCC: cell (j,i)
    ca = z3.ArraySort(I, g.sc)
    oa = z3.ArraySort(I, g.so)
    w, cm, d = z3.Const('w', WT), z3.Const('cm', ca), z3.Const('d', oa)
    j, l = z3.Ints('j l')
    g.LCR = z3.Function('LCR', WT, ca, AI, oa, I, I, I, I, I)
    g.LCC = z3.Function('LCC', WT, ca, AI, oa, I, I, I, I, I)
    for nm, F, cell in (('LCR', g.LCR, lambda i: OFF(c, i, j)), ('LCC', g.LCC, lambda i: OFF(c, j, i))):
        A = lambda n: F(w, cm, a, d, c, j, l, n)
        s.theory.add([nm], [FA([w, cm, a, d, c, j, l, n], z3.Implies(n <= 0, A(n) == 0), patterns=[A(n)]),
                            FA([w, cm, a, d, c, j, l, n, k], z3.Implies(z3.And(n >= 0, k == n + 1), A(k) == A(n) + z3.If(a[cell(n)] == -1, 0, MUL(g.CS(w, cm[n]), g.OS(w, d[a[cell(n)]], l)))), patterns=[z3.MultiPattern(A(n), A(k))])])


def count(c, V, row, i, n):
    g = gof(c)
    return (g.RN if row else g.CN)(V.idx.arr, V.cols, i, n)


def pairof(c, e):
    s = c.S.sort(UP)
    return s.accessor(0, 0)(e), s.accessor(0, 1)(e)


def mat_contracts(CS):
    sel = lambda f: [t[1] if t[0] == 'ref' else t for t in ptypes(f)]

    def dflt(c):
        V = View(c, c.this1)
        return [('empty matrix', z3.And(V.rows == 0, V.cols == 0, V.data.len == 0))] + V.inv()
    CS.add(Contract(P + 'SparOpReprMat#default', ensures=dflt, modifies=['this'], sel=lambda f: not ptypes(f)))

    def dims(c):
        V = View(c, c.this1)
        return [('dimensions as requested', z3.And(V.rows == c.a(0), V.cols == c.a(1))), ('nothing stored', V.data.len == 0), ('every element null', all_cells(V, lambda x, y: V.isnull(x, y)))] + V.inv()
    CS.add(Contract(P + 'SparOpReprMat#dims', ensures=dims, modifies=['this'], sel=lambda f: len(ptypes(f)) == 2))

    def copied(c):
        V, R = View(c, c.this1), View(c, c.a(0))
        return [('dimensions copied', same_dims(V, R)), ('every element copied', all_cells(V, lambda x, y: V.at(x, y) == R.at(x, y))), ('null pattern copied', all_cells(V, lambda x, y: V.isnull(x, y) == R.isnull(x, y)))] + V.inv()
    CS.add(Contract(P + 'SparOpReprMat#copy', requires=lambda c: View(c, c.a(0)).inv(), ensures=copied, modifies=['this'], sel=lambda f: len(ptypes(f)) == 1 and not is_rref(f)))
    CS.add(Contract(P + 'operator=', requires=lambda c: inv0(c) + View(c, c.a(0)).inv(), ensures=copied, modifies=['this'], aliases=[{0: 'this'}], sel=lambda f: not is_rref(f)))


def sort_contracts(CS):
    def lines(V, row):
        return (V.rows, V.cols) if row else (V.cols, V.rows)

    def mapped(c, V, m, row, upto):
        p = q()
        n, k = lines(V, row)
        a, b = pairof(c, m.arr[p])
        return z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < upto), z3.And(a == count(c, V, row, p, k), b == p)), patterns=[m.arr[p]])

    def hints(row):
        def h(lc):
            c = lc.fctx
            V = View(c, c.this0)
            out = []
            for hv, e in lc.vecs(UP):
                if e is None or hv.arr.eq(e.arr):
                    continue
                out.append(('counted lines so far', mapped(c, V, hv, row, hv.len)))
            for hv, e in lc.vecs(ULONG):
                if e is None or hv.arr.eq(e.arr):
                    continue
                for mv, _ in lc.vecs(UP):
                    p = q()
                    for t in lc.ts:
                        out.append(('order read off so far', z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < t), hv.arr[p] == pairof(c, mv.arr[p])[1]), patterns=[hv.arr[p]])))
            n, k = lines(V, row)
            ints = [x for x in lc.ints()]
            for x in ints:
                for i in ints + list(lc.ts):
                    for t in lc.ts:
                        out.append(('count so far', x == count(c, V, row, i, t)))
                        out.append(('count so far', x == t - count(c, V, row, i, t)))
            return out
        return h

    def genpost(row):
        def post(c):
            V = View(c, c.this0)
            m = c.nvec(c.r)
            n, k = lines(V, row)
            return [('one entry per line', m.len == n), ('number of non-null elements and index of each line', mapped(c, V, m, row, n))]
        return post

    def sortpost(row):
        def post(c):
            V0, V = View(c, c.this0), View(c, c.this1)
            r = c.nvec(c.r)
            n, k = lines(V0, row)
            p, p2 = q(), q()
            inr = lambda p: z3.And(0 <= p, p < n)
            src = (lambda x, y: (r.arr[x], y)) if row else (lambda x, y: (x, r.arr[y]))
            return [('one index per line', r.len == n),
                    ('indices of lines', z3.ForAll([p], z3.Implies(inr(p), inr(r.arr[p])), patterns=[r.arr[p]])),
                    ('a permutation', z3.ForAll([p, p2], z3.Implies(z3.And(inr(p), inr(p2), p != p2), r.arr[p] != r.arr[p2]), patterns=[z3.MultiPattern(r.arr[p], r.arr[p2])])),
                    ('dimensions unchanged', same_dims(V, V0)),
                    ('line i is the old line listed at i', all_cells(V, lambda x, y: V.at(x, y) == V0.at(*src(x, y)))),
                    ('indexes moved alike', all_cells(V, lambda x, y: V.i(x, y) == V0.i(*src(x, y)))), ('stored elements unchanged', same_elems(V, V0)),
                    ('lines ordered by the number of non-null elements', z3.ForAll([p, p2], z3.Implies(z3.And(inr(p), inr(p2), p < p2), count(c, V0, row, r.arr[p], k) <= count(c, V0, row, r.arr[p2], k)), patterns=[z3.MultiPattern(r.arr[p], r.arr[p2])])),
                    ] + V.inv()
        return post
    for row in (True, False):
        n = 'Rows' if row else 'Cols'
        CS.add(Contract(P + 'GenSort%sMapping_' % n, requires=inv0, ensures=genpost(row), hints=hints(row)))
        CS.add(Contract(P + 'Sort' + n, requires=inv0, ensures=sortpost(row), modifies=['this'], hints=hints(row)))


# ---------------------------------------------------------------- lines
def w1(c, w):
    """assignments that give the identity label the value one"""
    return gof(c).CS(w, id_of(c)) == 1


def line(V, row, i):
    """(number of cells, cell(j) -> (x, y)) of line i"""
    return (V.cols, lambda j: (i, j)) if row else (V.rows, lambda j: (j, i))


def terms_have(c, e, k):
    """every term of operator e has coefficient k"""
    g = gof(c)
    l = ql()
    o = OV(c, e)
    return z3.ForAll([l], z3.Implies(o.dom[l], g.ceq(o.val[l], k)), patterns=[o.val[l]])


def uniform(c, e):
    o, l, l2 = OV(c, e), ql(), ql()
    return z3.ForAll([l, l2], z3.Implies(z3.And(o.dom[l], o.dom[l2]), gof(c).ceq(o.val[l], o.val[l2])), patterns=[z3.MultiPattern(o.val[l], o.val[l2])])


def osat(c, V, w, xy_, l):
    return z3.If(V.isnull(*xy_), 0, gof(c).OS(w, V.data.arr[V.i(*xy_)], l))


def zero_coef(c, k):
    return gof(c).lst(k).len == 0


def is_id(c, k):
    return gof(c).ceq(k, id_of(c))


def analysis_contracts(CS):
    def inline_(c, row):
        V = View(c, c.this0)
        return [('line in range', z3.And(c.a(0) >= 0, c.a(0) < (V.rows if row else V.cols)))]

    def nonnull_have(c, V, row, i, k, upto):
        """all terms of the non-null elements before upto have coefficient k"""
        g = gof(c)
        n, cell = line(V, row, i)
        j, l = q('j'), ql()
        e = V.data.arr[V.i(*cell(j))]
        o = OV(c, e)
        return z3.ForAll([j, l], z3.Implies(z3.And(0 <= j, j < upto, z3.Not(V.isnull(*cell(j))), o.dom[l]), g.ceq(o.val[l], k)), patterns=[o.val[l]])

    def allnull(V, row, i, upto):
        n, cell = line(V, row, i)
        j = q('j')
        return z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < upto), V.isnull(*cell(j))), patterns=[V.o(*cell(j))])

    def divpost(row):
        def post(c):
            V = View(c, c.this0)
            k = c.pack(c.r, TC)
            n, cell = line(V, row, c.a(0))
            return [('zero for an empty line', z3.Implies(allnull(V, row, c.a(0), n), zero_coef(c, k))),
                    ('the identity, or a coefficient of every term of every non-null element', z3.Or(is_id(c, k), nonnull_have(c, V, row, c.a(0), k, n)))]
        return post

    def divhints(row):
        def h(lc):
            c = lc.fctx
            V = View(c, c.this0)
            out = []
            cnts = lc.ints()
            for t in lc.ts:
                for x in cnts:
                    if not x.eq(t):
                        out.append(('counter is zero exactly while the line is empty', (x == 0) == allnull(V, row, c.a(0), t)))
                        out.append(('counter is not negative', x >= 0))
                flags = [f2 for f in lc.bools() for f2 in (f, z3.Not(f))]
                for f in flags:
                    out.append(('flag is lowered exactly while the line is empty', z3.Not(f) == allnull(V, row, c.a(0), t)))
                for hv, e, cell in lc.recs('CoefRepr'):
                    if e is None or not lc.modified(hv, e):
                        continue
                    k = c.pack(hv, TC)
                    out.append(('common coefficient so far', z3.Or(is_id(c, k), nonnull_have(c, V, row, c.a(0), k, t))))
                    for x in cnts:
                        out.append(('zero coefficient as long as nothing was found', z3.Implies(x == 0, zero_coef(c, k))))
                    for f in flags:
                        out.append(('zero coefficient as long as nothing was found', z3.Or(f, zero_coef(c, k))))
                    out.append(('zero coefficient for an empty line', z3.Implies(allnull(V, row, c.a(0), t), zero_coef(c, k))))
            return out
        return h

    def removed(c, V0, V, row, i, upto):
        """line i of V up to position upto is that of V0 with common coefficients taken off"""
        n, cell = line(V, row, i)
        j, l, l2 = q('j'), ql(), ql()
        e0, e1 = V0.data.arr[V0.i(*cell(j))], V.data.arr[V.i(*cell(j))]
        o0, o1 = OV(c, e0), OV(c, e1)
        g = gof(c)
        dom = z3.And(0 <= j, j < upto, z3.Not(V0.isnull(*cell(j))))
        return [('null pattern of the line kept', z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), V.isnull(*cell(j)) == V0.isnull(*cell(j))), patterns=[V.o(*cell(j))])),
                ('terms of every element kept', z3.ForAll([j], z3.Implies(dom, o1.dom == o0.dom), patterns=[V.o(*cell(j))])),
                ('elements without a common coefficient unchanged', z3.ForAll([j], z3.Implies(dom, z3.Or(allid(c, o1), g.OEQ(o1.p, o0.p))), patterns=[V.o(*cell(j))])),
                ('common coefficients replaced by the identity', z3.ForAll([j], z3.Implies(z3.And(dom, uniform(c, e0)), allid(c, o1)), patterns=[V.o(*cell(j))])),
                ]

    def rest(V0, V, row, i, frm=None):
        x, y = xy()
        cond = (x != i if row else y != i)
        if frm is not None:
            cond = z3.Or(cond, (y if row else x) >= frm)
        return ('other elements unchanged', z3.ForAll([x, y], z3.Implies(z3.And(V.inr(x, y), cond), z3.And(V.at(x, y) == V0.at(x, y), V.isnull(x, y) == V0.isnull(x, y))), patterns=[V.o(x, y)]))

    def rmpost(row):
        def post(c):
            V0, V = View(c, c.this0), View(c, c.this1)
            i = c.a(0)
            n, cell = line(V0, row, i)
            j, l, w = q('j'), ql(), qw()
            g = gof(c)
            e0, e1 = V0.data.arr[V0.i(*cell(j))], V.data.arr[V.i(*cell(j))]
            k = z3.Const(fresh_name('k'), g.sc)
            return [('dimensions unchanged', same_dims(V, V0)), rest(V0, V, row, i)] + removed(c, V0, V, row, i, n) + [
                ('the coefficient taken off times what is left is the original, under every assignment', z3.ForAll([j, w, l], z3.Implies(z3.And(0 <= j, j < n, z3.Not(V0.isnull(*cell(j))), w1(c, w), uniform(c, e0), OV(c, e0).dom[l]),
                    g.OS(w, e0, l) == MUL(g.CS(w, OV(c, e0).val[l]), g.OS(w, e1, l))), patterns=[g.OS(w, e0, l)]))] + View(c, c.this1).inv()
        return post

    def rmhints(row):
        def h(lc):
            c = lc.fctx
            V0 = View(c, c.this0)
            i = c.a(0)
            out = []
            for hv, e, cell in lc.recs('SparOpReprMat'):
                if e is None or not lc.modified(hv, e):
                    continue
                V = View(c, hv)
                out.append(('dimensions', same_dims(V, V0)))
                out += V.inv()
                for t in lc.ts:
                    out.append(rest(V0, V, row, i, t))
                    out += removed(c, V0, V, row, i, t)
            return out
        return h

    for row in (True, False):
        n = 'Row' if row else 'Col'
        CS.add(Contract(P + 'TryCatch%sCommonDivisorCoef' % n, requires=lambda c, row=row: inv0(c) + inline_(c, row), ensures=divpost(row), hints=divhints(row)))
        CS.add(Contract(P + 'Remove%sCoef' % n, requires=lambda c, row=row: inv0(c) + inline_(c, row), ensures=rmpost(row), modifies=['this'], hints=rmhints(row)))

    # ---- overlap of a given line with line i of the matrix
    def over(c, V, row, vec, i, k, upto):
        """cell by cell, vec is k times line i"""
        g = gof(c)
        n, cell = line(V, row, i)
        j, l, w = q('j'), ql(), qw()
        e = V.data.arr[V.i(*cell(j))]
        return z3.ForAll([j, w, l], z3.Implies(z3.And(0 <= j, j < upto, z3.Not(V.isnull(*cell(j))), w1(c, w)), g.OS(w, vec.arr[j], l) == MUL(g.CS(w, k), g.OS(w, e, l))),
                         patterns=[g.OS(w, vec.arr[j], l), g.OS(w, e, l)])

    def overpre(row):
        def pre(c):
            V = View(c, c.this0)
            n, cell = line(V, row, c.a(1))
            return inv0(c) + [('line in range', z3.And(c.a(1) >= 0, c.a(1) < (V.rows if row else V.cols))), ('one element per cell of a line', c.a(0).len == n)]
        return pre

    def overpost(row):
        def post(c):
            V = View(c, c.this0)
            k = c.pack(c.r, TC)
            n, cell = line(V, row, c.a(1))
            return [('zero, or the factor between the lines wherever the matrix line is not null', z3.Or(zero_coef(c, k), over(c, V, row, c.a(0), c.a(1), k, n)))]
        return post

    def overhints(row):
        def h(lc):
            c = lc.fctx
            V = View(c, c.this0)
            out = []
            for hv, e in lc.vecs(TC):
                if e is None or hv.arr.eq(e.arr):
                    continue
                p = q()
                g = gof(c)
                out.append(('possible factors agree', z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < hv.len), g.ceq(hv.arr[p], hv.arr[0])), patterns=[hv.arr[p]])))
                for t in lc.ts:
                    out.append(('factor so far', z3.Implies(hv.len > 0, over(c, V, row, c.a(0), c.a(1), hv.arr[0], t))))
                    out.append(('no factor while the line is empty', z3.Implies(hv.len == 0, allnull(V, row, c.a(1), t))))
            return out
        return h
    for row in (True, False):
        n = 'Row' if row else 'Col'
        CS.add(Contract(P + 'Calc%sOverlap_' % n, requires=overpre(row), ensures=overpost(row), hints=overhints(row)))


def lincmb_contracts(CS):
    def cmbpost(row):
        def post(c):
            V = View(c, c.this0)
            g = gof(c)
            i = c.a(0)
            r = c.nvec(c.r)
            n, cell = line(V, row, i)
            x, j, w, l = q('x'), q('j'), qw(), ql()
            cx = (lambda x, j: (x, j)) if row else (lambda x, j: (j, x))
            inx = z3.And(0 <= x, x < i)
            e = V.data.arr[V.i(*cx(x, j))]
            whole = z3.And(is_id(c, r.arr[x]), z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), g.OEQ(V.at(*cell(j)), V.at(*cx(x, j)))), patterns=[V.o(*cx(x, j))]))
            factor = z3.ForAll([j, w, l], z3.Implies(z3.And(0 <= j, j < n, z3.Not(V.isnull(*cx(x, j))), w1(c, w)), osat(c, V, w, cell(j), l) == MUL(g.CS(w, r.arr[x]), g.OS(w, e, l))), patterns=[g.OS(w, e, l)])
            return [('one coefficient for every line before', r.len == i),
                    ('each coefficient is zero or the factor between the lines wherever the earlier one is not null', z3.ForAll([x], z3.Implies(inx, z3.Or(zero_coef(c, r.arr[x]), factor, whole)), patterns=[r.arr[x]]))]
        return post

    def cmbhints(row):
        def h(lc):
            c = lc.fctx
            V = View(c, c.this0)
            g = gof(c)
            i = c.a(0)
            n, cell = line(V, row, i)
            cx = (lambda x, j: (x, j)) if row else (lambda x, j: (j, x))
            out = []
            for hv, e_ in lc.vecs(TC):
                if e_ is None or hv.arr.eq(e_.arr):
                    continue
                x, j, w, l = q('x'), q('j'), qw(), ql()
                e = V.data.arr[V.i(*cx(x, j))]
                factor = z3.ForAll([j, w, l], z3.Implies(z3.And(0 <= j, j < n, z3.Not(V.isnull(*cx(x, j))), w1(c, w)), osat(c, V, w, cell(j), l) == MUL(g.CS(w, hv.arr[x]), g.OS(w, e, l))), patterns=[g.OS(w, e, l)])
                out.append(('factors so far', z3.ForAll([x], z3.Implies(z3.And(0 <= x, x < hv.len), z3.Or(zero_coef(c, hv.arr[x]), factor)), patterns=[hv.arr[x]])))
            return out
        return h
    for row in (True, False):
        n = 'Row' if row else 'Col'
        CS.add(Contract(P + 'Calc%sLinCmb' % n, requires=lambda c, row=row: inv0(c) + [('line in range', z3.And(c.a(0) >= 0, c.a(0) < (View(c, c.this0).rows if row else View(c, c.this0).cols)))],
                        ensures=cmbpost(row), hints=cmbhints(row)))

    # ---- linear combination of the first lines
    def LC(c, M, row, cmb, w, j, l, n):
        g = gof(c)
        return (g.LCR if row else g.LCC)(w, cmb.arr, M.idx.arr, M.data.arr, M.cols, j, l, n)

    def cells_of(M, row):
        return (M.cols, lambda i, j: (i, j)) if row else (M.rows, lambda i, j: (j, i))

    def lcpre(row):
        def pre(c):
            M = View(c, c.a(0))
            n, cell = cells_of(M, row)
            cmb = c.nvec(c.a(1))
            i, j, l = q('i'), q('j'), ql()
            o = OV(c, M.data.arr[M.i(*cell(i, j))])
            return M.inv() + [('coefficients for lines of the matrix', cmb.len <= (M.rows if row else M.cols)),
                              ('product defined: coefficient zero or identity, or line with identity coefficients only', z3.ForAll([i, j, l], z3.Implies(z3.And(0 <= i, i < cmb.len, 0 <= j, j < n, z3.Not(M.isnull(*cell(i, j))), o.dom[l]),
                                  z3.Or(is_id(c, cmb.arr[i]), zero_coef(c, cmb.arr[i]), gof(c).ceq(o.val[l], id_of(c)))), patterns=[o.val[l]]))]
        return pre

    def lcpost(row):
        def post(c):
            M = View(c, c.a(0))
            g = gof(c)
            n, cell = cells_of(M, row)
            cmb = c.nvec(c.a(1))
            r = c.nvec(c.r)
            j, l, w = q('j'), ql(), qw()
            return [('one element per cell of a line', r.len == n),
                    ('the sum of coefficient times line, element by element and term by term, under every assignment', z3.ForAll([j, w, l], z3.Implies(z3.And(0 <= j, j < n, w1(c, w)), g.OS(w, r.arr[j], l) == LC(c, M, row, cmb, w, j, l, cmb.len)), patterns=[g.OS(w, r.arr[j], l)]))]
        return post

    def lchints(row):
        def h(lc):
            c = lc.fctx
            M = View(c, c.a(0))
            g = gof(c)
            n, cell = cells_of(M, row)
            cmb = c.nvec(c.a(1))
            out = []
            for hv, e in lc.vecs(TO):
                if e is None or hv.arr.eq(e.arr):
                    continue
                j, l, w = q('j'), ql(), qw()
                for t in lc.ts:
                    for t2 in lc.ts:
                        if t2 is t:
                            out.append(('combined so far', z3.ForAll([j, w, l], z3.Implies(z3.And(0 <= j, j < n, w1(c, w)), g.OS(w, hv.arr[j], l) == LC(c, M, row, cmb, w, j, l, t)), patterns=[g.OS(w, hv.arr[j], l)])))
                        else:
                            out.append(('combined so far in this line', z3.ForAll([j, w, l], z3.Implies(z3.And(0 <= j, j < n, w1(c, w)), g.OS(w, hv.arr[j], l) == z3.If(j < t2, LC(c, M, row, cmb, w, j, l, t + 1), LC(c, M, row, cmb, w, j, l, t))), patterns=[g.OS(w, hv.arr[j], l)])))
            for hv, e, cell_ in lc.recs('OpRepr'):
                if e is None or not lc.modified(hv, e):
                    continue
                b, b0 = OV(c, hv), OV(c, e)
                l = ql()
                out.append(('terms kept', b.dom == b0.dom))
                for t in lc.ts:
                    for k, _, kc in lc.recs('CoefRepr'):
                        out.append(('coefficients set so far', z3.ForAll([l], z3.Implies(z3.And(b.dom[l], b0.rank(b0.dom, l) < t), g.ceq(b.val[l], c.pack(k, TC))), patterns=[b.val[l]])))
            return out
        return h
    for row in (True, False):
        n = 'Row' if row else 'Col'
        CS.add(Contract('CalcSparOpReprMat%sLinCmb' % n, requires=lcpre(row), ensures=lcpost(row), hints=lchints(row)))


def contracts(CS):
    prod_contracts(CS)
    lincmb_contracts(CS)
    analysis_contracts(CS)
    mat_contracts(CS)
    sort_contracts(CS)


# ---------------------------------------------------------------- products
def prod_setup(s):
    g = s.ip.algebra
    if hasattr(g, 'PK'):
        return
    ca, oa = z3.ArraySort(I, g.sc), z3.ArraySort(I, g.so)
    w, ci, cd, oi, od = z3.Const('w', WT), z3.Const('ci', AI), z3.Const('cd', ca), z3.Const('oi', AI), z3.Const('od', oa)
    cc, oc, x, y, l, n, k = z3.Ints('cc oc x y l n k')
    # PK: sum over the first n channels of (coefficient (x,k)) * (operator (k,y));  PO: operator (x,k) times coefficient (k,y)
    g.PK = z3.Function('PK', WT, AI, ca, I, AI, oa, I, I, I, I, I, I)
    g.PO = z3.Function('PO', WT, AI, ca, I, AI, oa, I, I, I, I, I, I)
    FA = z3.ForAll
    for nm, F, cc_, oc_ in (('PK', g.PK, lambda k: OFF(cc, x, k), lambda k: OFF(oc, k, y)), ('PO', g.PO, lambda k: OFF(cc, k, y), lambda k: OFF(oc, x, k))):
        A = lambda n: F(w, ci, cd, cc, oi, od, oc, x, y, l, n)
        vs = [w, ci, cd, cc, oi, od, oc, x, y, l, n]
        s.theory.add([nm], [FA(vs, z3.Implies(n <= 0, A(n) == 0), patterns=[A(n)]),
                            FA(vs + [k], z3.Implies(z3.And(n >= 0, k == n + 1), A(k) == A(n) + z3.If(z3.Or(ci[cc_(n)] == -1, oi[oc_(n)] == -1), 0, MUL(g.CS(w, cd[ci[cc_(n)]]), g.OS(w, od[oi[oc_(n)]], l)))), patterns=[z3.MultiPattern(A(n), A(k))])])


def prod_contracts(CS):
    def parts(c, left):
        """(coefficient matrix, operator matrix) for coefficient * operator (left) or operator * coefficient"""
        a, b = View(c, c.a(0)), View(c, c.a(1))
        return (a, b) if left else (b, a)

    def PV(c, left, C, O, w, x, y, l, n):
        g = gof(c)
        return (g.PK if left else g.PO)(w, C.idx.arr, C.data.arr, C.cols, O.idx.arr, O.data.arr, O.cols, x, y, l, n)

    def shape(left, C, O):
        """rows, cols, channels of the product"""
        return (C.rows, O.cols, C.cols) if left else (O.rows, C.cols, O.cols)

    def ccell(left, x, y, k):
        return (x, k) if left else (k, y)

    def ocell(left, x, y, k):
        return (k, y) if left else (x, k)

    def defined(c, left, C, O, x=None, y=None):
        k, l = q('k'), ql()
        vs = [k, l]
        rg = [0 <= k, k < shape(left, C, O)[2]]
        if x is None:
            x, y = xy()
            vs += [x, y]
            rg += [0 <= x, x < shape(left, C, O)[0], 0 <= y, y < shape(left, C, O)[1]]
        cc, oc = ccell(left, x, y, k), ocell(left, x, y, k)
        o = OV(c, O.data.arr[O.i(*oc)])
        return z3.ForAll(vs, z3.Implies(z3.And(*rg, z3.Not(C.isnull(*cc)), z3.Not(O.isnull(*oc)), o.dom[l]),
                                        z3.Or(is_id(c, C.data.arr[C.i(*cc)]), gof(c).ceq(o.val[l], id_of(c)))), patterns=[z3.MultiPattern(C.o(*cc), o.val[l])])

    def is_prod(c, left, C, O, R, x, y, w, l):
        return osat(c, R, w, (x, y), l) == PV(c, left, C, O, w, x, y, l, shape(left, C, O)[2])

    def fits(C, O):
        return ('stored elements can be numbered by an int', z3.And(C.data.len < (1 << 31), O.data.len < (1 << 31)))

    def kpre(left):
        def pre(c):
            C, O = parts(c, left)
            x, y = c.a(2), c.a(3)
            R = View(c, c.a(4))
            r, cl, n = shape(left, C, O)
            return C.inv() + O.inv() + R.inv() + [fits(C, O), ('matching inner dimension', (C.cols == O.rows) if left else (O.cols == C.rows)), ('shape of the result', z3.And(R.rows == r, R.cols == cl)),
                    ('cell in range', R.inr(x, y)), ('cell still null', R.isnull(x, y)), ('product defined: identity coefficient, or operator with identity coefficients', defined(c, left, C, O, x, y))]
        return pre

    def kpost(left):
        def post(c):
            C, O = parts(c, left)
            x, y = c.a(2), c.a(3)
            R0, R = View(c, c.a(4)), View(c, c.a1(4))
            w, l = qw(), ql()
            x2, y2 = xy()
            return [('dimensions unchanged', same_dims(R, R0)),
                    ('other cells unchanged', z3.ForAll([x2, y2], z3.Implies(z3.And(R.inr(x2, y2), z3.Or(x2 != x, y2 != y)), z3.And(R.at(x2, y2) == R0.at(x2, y2), R.isnull(x2, y2) == R0.isnull(x2, y2))), patterns=[R.o(x2, y2)])),
                    ('the cell is the sum over the channels of coefficient times operator, under every assignment',
                     z3.ForAll([w, l], z3.Implies(w1(c, w), is_prod(c, left, C, O, R, x, y, w, l)), patterns=[PV(c, left, C, O, w, x, y, l, shape(left, C, O)[2])]))] + R.inv()
        return post

    def khints(left):
        def h(lc):
            c = lc.fctx
            C, O = parts(c, left)
            x, y = c.a(2), c.a(3)
            out = []
            w, l = qw(), ql()
            g = gof(c)
            for t in lc.ts:
                for i in lc.ints():
                    out.append(('running offset', i == OFF(C.cols, *ccell(left, x, y, t))))
                    out.append(('running offset', i == OFF(O.cols, *ocell(left, x, y, t))))
                for hv, e, cell in lc.recs('OpRepr'):
                    if e is None or not lc.modified(hv, e):
                        continue
                    out.append(('sum so far', z3.ForAll([w, l], z3.Implies(w1(c, w), g.OS(w, c.pack(hv, TO), l) == PV(c, left, C, O, w, x, y, l, t)), patterns=[PV(c, left, C, O, w, x, y, l, t), g.OS(w, c.pack(hv, TO), l)])))
            return out
        return h

    def mpre(left):
        def pre(c):
            C, O = parts(c, left)
            return C.inv() + O.inv() + [fits(C, O), ('matching inner dimension', (C.cols == O.rows) if left else (O.cols == C.rows)),
                                        ('product defined: identity coefficients, or operators with identity coefficients', defined(c, left, C, O))]
        return pre

    def mpost(left):
        def post(c):
            C, O = parts(c, left)
            R = View(c, c.r)
            r, cl, n = shape(left, C, O)
            w, l = qw(), ql()
            x, y = xy()
            return [('shape', z3.And(R.rows == r, R.cols == cl)),
                    ('every element is the sum over the channels of coefficient times operator, under every assignment',
                     z3.ForAll([x, y, w, l], z3.Implies(z3.And(R.inr(x, y), w1(c, w)), is_prod(c, left, C, O, R, x, y, w, l)), patterns=[PV(c, left, C, O, w, x, y, l, n)]))] + R.inv()
        return post

    def mhints(left):
        def h(lc):
            c = lc.fctx
            C, O = parts(c, left)
            r, cl, n = shape(left, C, O)
            out = []
            for hv, e, cell in lc.recs('SparOpReprMat'):
                if e is None or not lc.modified(hv, e):
                    continue
                R = View(c, hv)
                out.append(('dimensions', z3.And(R.rows == r, R.cols == cl)))
                out += R.inv()
                w, l = qw(), ql()
                x, y = xy()
                done = [(('rows', x < t)) for t in lc.ts[-1:]]
                if len(lc.ts) == 2:
                    t1, t2 = lc.ts
                    opts = [z3.Or(x < t1, z3.And(x == t1, y < t2)), z3.Or(x < t2, z3.And(x == t2, y < t1))]
                else:
                    opts = [x < t for t in lc.ts] + [R.o(x, y) < t for t in lc.ts]
                for d in opts:
                    out.append(('cells computed so far', z3.ForAll([x, y, w, l], z3.Implies(z3.And(R.inr(x, y), d, w1(c, w)), is_prod(c, left, C, O, R, x, y, w, l)), patterns=[PV(c, left, C, O, w, x, y, l, n)])))
                    out.append(('cells ahead are null', z3.ForAll([x, y], z3.Implies(z3.And(R.inr(x, y), z3.Not(d)), R.isnull(x, y)), patterns=[R.o(x, y)])))
            return out
        return h
    for left, a in ((True, 'SparCoefReprMatSparOpReprMat'), (False, 'SparOpReprMatSparCoefReprMat')):
        CS.add(Contract(a + 'IncompleteMultiKernel', requires=kpre(left), ensures=kpost(left), modifies=[4], hints=khints(left)))
        CS.add(Contract(a + 'IncompleteMulti', requires=mpre(left), ensures=mpost(left), hints=mhints(left)))
