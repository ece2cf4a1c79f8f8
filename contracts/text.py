"""Printed form of coefficient and operator expressions."""
import z3
from values import *
from ctypes_ import *
from solver import *
from contract import *
from stdmodel import *
import coefop
from coefop import TC, TO, LV, MT, field

ST = z3.StringSort()
SYM = z3.Function('SYM', I, ST)               # symbol of a coefficient label
OPS = z3.Function('OPSYM', I, ST)             # symbol of an operator label
JOIN = z3.Function('JOIN', AI, I, ST)         # symbols of the first n labels, separated by +
CT = z3.Function('COEFTEXT', AI, I, ST)       # printed form of a coefficient with that label list
V = z3.StringVal


def setup(s):
    a, n, l, k = z3.Const('a', AI), z3.Int('n'), z3.Int('l'), z3.Int('k')
    FA, C = z3.ForAll, z3.Concat
    ch = s.models.chr
    s.theory.add(['SYM', 'JOIN', 'COEFTEXT', 'OPSYM', 'CHR'], [
        FA([l], z3.Length(ch(l)) == 1, patterns=[ch(l)]),
        FA([l], z3.Length(OPS(l)) >= 1, patterns=[OPS(l)]),
        FA([l], SYM(l) == z3.If(l == 0, V('1'), ch(l + 96)), patterns=[SYM(l)]),
        FA([a], JOIN(a, 0) == V(''), patterns=[JOIN(a, 0)]),
        FA([a], JOIN(a, 1) == SYM(a[0]), patterns=[JOIN(a, 1)]),
        FA([a, n, k], z3.Implies(z3.And(n >= 1, k == n + 1), JOIN(a, k) == C(JOIN(a, n), V('+'), SYM(a[n]))), patterns=[z3.MultiPattern(JOIN(a, n), JOIN(a, k))]),
        FA([a, n], z3.Implies(n >= 1, JOIN(a, n + 1) == C(JOIN(a, n), V('+'), SYM(a[n]))), patterns=[JOIN(a, n + 1)]),
        FA([a, n], CT(a, n) == z3.If(n == 0, V('0'), z3.If(n == 1, SYM(a[0]), C(V('('), JOIN(a, n), V(')')))), patterns=[CT(a, n)]),
        FA([l], OPS(l) == z3.If(l == 0, V('Id'), z3.If(l <= 26, ch(l + 64), C(ch((l - 1) % 26 + 65), z3.Function('ITOS', I, ST)((l - 1) / 26)))), patterns=[OPS(l)]),
    ])
    so = s.sorts.sort(TO)
    OJ = s.OJ = s.ip.OJ = z3.Function('OPJOIN', so, I, ST)     # printed form of the first n terms in label order
    o = z3.Const('o', so)
    g = s.ip.algebra
    card, keyat, rank = s.models.mapfns(('int', 64, True))

    def term(o, i):
        key = keyat(g.dom(o), i)
        x = g.lst(g.val(o)[key])
        return C(CT(x.arr, x.len), OPS(key))
    s.theory.add(['OPJOIN'], [
        FA([o], OJ(o, 1) == term(o, 0), patterns=[OJ(o, 1)]),
        FA([o], OJ(o, 0) == V(''), patterns=[OJ(o, 0)]),
        FA([o, k], z3.Implies(k == 0, OJ(o, k) == V('')), patterns=[OJ(o, k)]),
        FA([o, k], z3.Implies(k == 1, OJ(o, k) == term(o, 0)), patterns=[OJ(o, k)]),
        FA([o, n, k], z3.Implies(z3.And(n >= 1, k == n + 1), OJ(o, k) == C(OJ(o, n), V('+'), term(o, n))), patterns=[z3.MultiPattern(OJ(o, n), OJ(o, k))]),
    ])


def contracts(CS):
    lst = lambda c: coefop.clist(c, c.this0)

    def strs(lc):
        return [v for cid, v in lc.H.cells.items() if isinstance(v, z3.ExprRef) and v.sort() == ST and v.decl().kind() == z3.Z3_OP_UNINTERPRETED]

    def labels_ok(l):
        p = z3.Int(fresh_name('p'))
        return z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < l.len), z3.And(l.arr[p] >= 0, l.arr[p] <= 26)), patterns=[l.arr[p]])

    def chints(lc):
        l = lst(lc.fctx)
        out = []
        for v in strs(lc):
            for t in lc.ts:
                for u in (t, t + 1):
                    J = JOIN(l.arr, u)
                    out += [('printed so far', v == z3.Concat(V('('), J)), ('printed so far, separator ahead', v == z3.Concat(V('('), z3.If(u == 0, V(''), z3.Concat(J, V('+'))))),
                            ('printed so far, separator or end', v == z3.Concat(V('('), z3.If(u == 0, V(''), z3.Concat(J, z3.If(u < l.len, V('+'), V(')')))))), ('symbols so far', v == J),
                            ('symbols so far, separator ahead', v == z3.If(u == 0, V(''), z3.Concat(J, V('+'))))]
        return out
    CS.add(Contract('CoefRepr::ToString', requires=lambda c: [('labels have a letter', labels_ok(lst(c)))],
                    ensures=lambda c: [('every summand once, in order', c.r == CT(lst(c).arr, lst(c).len))], hints=chints, sel=lambda f: not ptypes(f)))
    CS.add(Contract('OpRepr::OpLabelToString_', requires=lambda c: [('label not negative', c.a(0) >= 0)], ensures=lambda c: [('the symbol of the label', c.r == OPS(c.a(0)))]))

    def opre(c):
        o = coefop.OV(c, c.this0)
        g = c.ip.algebra
        l, p = z3.Int(fresh_name('l')), z3.Int(fresh_name('p'))
        x = g.lst(o.val[l])
        return [('operator labels not negative', z3.ForAll([l], z3.Implies(o.dom[l], l >= 0), patterns=[o.dom[l]])),
                ('coefficient labels have a letter', z3.ForAll([l, p], z3.Implies(z3.And(o.dom[l], 0 <= p, p < x.len), z3.And(x.arr[p] >= 0, x.arr[p] <= 26)), patterns=[x.arr[p]]))]

    def oj(c, n):
        return c.ip.OJ(c.S.pack(c.this0, TO), n)

    def ohints(lc):
        return [('terms so far', v == z3.Concat(oj(lc.fctx, u), z3.If(u == 0, V(''), V(sep)))) for v in strs(lc) for t in lc.ts for u in (t, t + 1) for sep in ('', '+')] + [('text once a term is written', (v == V('')) == (t == 0)) for v in strs(lc) for t in lc.ts]
    CS.add(Contract('OpRepr::ToString', requires=opre, ensures=lambda c: [('every term once, in label order', c.r == z3.If(coefop.OV(c, c.this0).n == 0, V('0'), oj(c, coefop.OV(c, c.this0).n)))],
                    hints=ohints, sel=lambda f: not ptypes(f)))
