"""FSM nodes, paths, path insertion; label table."""
import re
import z3
from values import *
from ctypes_ import *
from solver import *
from contract import *
from coefop import ptypes, is_rref, OV, TO

NODE = ('rec', 'FSMNode')
LONG = ('int', 64, True)
ULONG = ('int', 64, False)
READY, FINAL = 0, -1


def q(n='p'):
    return z3.Int(fresh_name(n))


def nf(v):
    return v.f['fsm_site_idx'], v.f['fsm_stat_idx']


def node_contracts(CS):
    P = 'FSMNode::'
    sel = lambda f: [t[1] if t[0] == 'ref' else t for t in ptypes(f)]

    def cmp(k):
        def post(c):
            (s, t), (s2, t2) = nf(c.this0), nf(c.a(0))
            lt = lambda a, b, x, y: z3.Or(a < x, z3.And(a == x, b < y))
            r = {'lt': lt(s, t, s2, t2), 'gt': lt(s2, t2, s, t), 'eq': z3.And(s == s2, t == t2)}[k]
            return [('lexicographic (site, state) comparison', c.r == r)]
        return post
    CS.add(Contract(P + 'operator<', ensures=cmp('lt')))
    CS.add(Contract(P + 'operator>', ensures=cmp('gt')))
    CS.add(Contract(P + 'operator==', ensures=cmp('eq')))
    CS.add(Contract(P + 'Site', ensures=lambda c: [('the site component', c.r == nf(c.this0)[0])]))
    CS.add(Contract(P + 'Stat', ensures=lambda c: [('the state component', c.r == nf(c.this0)[1])]))
    CS.add(Contract(P + 'SetSite', ensures=lambda c: [('site set', nf(c.this1)[0] == c.a(0)), ('state kept', nf(c.this1)[1] == nf(c.this0)[1])], modifies=['this']))
    CS.add(Contract(P + 'SetStat', ensures=lambda c: [('state set', nf(c.this1)[1] == c.a(0)), ('site kept', nf(c.this1)[0] == nf(c.this0)[0])], modifies=['this']))
    CS.add(Contract(P + 'FSMNode#pair', ensures=lambda c: [('components as given', z3.And(nf(c.this1)[0] == c.a(0), nf(c.this1)[1] == c.a(1)))], modifies=['this'], sel=lambda f: sel(f) == [ULONG, LONG]))
    same = lambda c: [('same components', z3.And(nf(c.this1)[0] == nf(c.a(0))[0], nf(c.this1)[1] == nf(c.a(0))[1]))]
    CS.add(Contract(P + 'FSMNode#copy', ensures=same, modifies=['this'], sel=lambda f: sel(f) == [NODE] and not is_rref(f)))
    CS.add(Contract(P + 'operator=', ensures=same, modifies=['this'], aliases=[{0: 'this'}], sel=lambda f: not is_rref(f)))


class PV:
    """view of an FSMPath value"""

    def __init__(self, c, v):
        self.c = c
        v = c.S.unpack(v, ('rec', 'FSMPath')) if isinstance(v, z3.ExprRef) else v
        self.nodes = c.nvec(field(v, 'fsm_nodes', ('vec', NODE), c.S))
        self.ops = c.nvec(field(v, 'op_reprs', ('vec', TO), c.S))
        NS = c.S.sort(NODE)
        fs = [f for f, _ in c.S.fields(NODE)]
        self.site = lambda i: NS.accessor(0, fs.index('fsm_site_idx'))(self.nodes.arr[i])
        self.stat = lambda i: NS.accessor(0, fs.index('fsm_stat_idx'))(self.nodes.arr[i])


def path_contracts(CS):
    P = 'FSMPath::'

    def others(new, old, i):
        p = q()
        return z3.And(new.len == old.len, z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < old.len, p != i), new.arr[p] == old.arr[p]), patterns=[new.arr[p]]))

    def ctor(c):
        v = PV(c, c.this1)
        return [('one node more than sites', v.nodes.len == c.a(0) + 1), ('one operator per site', v.ops.len == c.a(0))]
    CS.add(Contract(P + 'FSMPath', requires=lambda c: [('size', c.a(0) < (1 << 58))], ensures=ctor, modifies=['this'], sel=lambda f: ptypes(f) == [ULONG]))
    CS.add(Contract(P + 'Node', throws=lambda c: c.a(0) >= PV(c, c.this0).nodes.len, ensures=lambda c: [('the node stored there', c.pack(c.r, NODE) == PV(c, c.this0).nodes.arr[c.a(0)])]))
    CS.add(Contract(P + 'Opr', throws=lambda c: c.a(0) >= PV(c, c.this0).ops.len, ensures=lambda c: [('the operator stored there', c.pack(c.r, TO) == PV(c, c.this0).ops.arr[c.a(0)])]))

    def setter(w):
        def post(c):
            a, b = PV(c, c.this0), PV(c, c.this1)
            x, y = (a.nodes, b.nodes) if w == 'n' else (a.ops, b.ops)
            u, v = (a.ops, b.ops) if w == 'n' else (a.nodes, b.nodes)
            return [('stored', y.arr[c.a(0)] == c.pack(c.a(1), NODE if w == 'n' else TO)), ('other positions kept', others(y, x, c.a(0))), ('other list kept', others(v, u, z3.IntVal(-1)))]
        return post
    CS.add(Contract(P + 'AddNode', requires=lambda c: [('position', c.a(0) < PV(c, c.this0).nodes.len)], ensures=setter('n'), modifies=['this']))
    CS.add(Contract(P + 'SetOpr', requires=lambda c: [('position', c.a(0) < PV(c, c.this0).ops.len)], ensures=setter('o'), modifies=['this']))


PATH = ('rec', 'FSMPath')


class FV:
    """view of an FSM value"""

    def __init__(self, c, v):
        self.c = c
        g = lambda n, t=None: field(v, n, t, c.S)
        self.n = g('phys_site_num_')
        self.m = g('fsm_site_num_')
        self.mid = c.nvec(g('mid_stat_nums_', ('vec', ULONG)))
        self.rdy = c.nvec(g('has_readys_'))
        self.fin = c.nvec(g('has_finals_'))
        self.paths = c.nvec(g('fsm_paths_', ('vec', PATH)))
        self.ids = c.nvec(g('id_ops_', ('vec', TO)))

    def path(self, k):
        return RawPath(self.c, self.paths.arr[k])

    def inv(self):
        n, m = self.n, self.m
        p, k, k2 = q(), q('k'), q('k')
        P = self.path(k)
        out = [('sizes', z3.And(n >= 0, n < (1 << 58), m == n + 1, self.mid.len == m, self.rdy.len == m, self.fin.len == m, self.ids.len == n)),
               ('paths are complete', z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < self.paths.len), z3.And(P.nlen == m, P.olen == n)), patterns=[self.paths.arr[k]])),
               ('states used are known', z3.ForAll([k, p], z3.Implies(z3.And(0 <= k, k < self.paths.len, 0 <= p, p < m), self.state_ok(P.stat(p), p)), patterns=[P.stat(p)])),
               ('nodes sit at their site', z3.ForAll([k, p], z3.Implies(z3.And(0 <= k, k < self.paths.len, 0 <= p, p < m), P.site(p) == p), patterns=[P.site(p)])),
               ('no two paths share an intermediate state', z3.ForAll([k, k2, p], z3.Implies(z3.And(0 <= k, k < self.paths.len, 0 <= k2, k2 < self.paths.len, k != k2, 0 <= p, p < m, P.stat(p) >= 1), P.stat(p) != self.path(k2).stat(p)),
                                                                     patterns=[z3.MultiPattern(P.stat(p), self.path(k2).stat(p))])),
               ('intermediate state numbers do not overflow', z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < m), z3.And(self.mid.arr[p] >= 0, self.mid.arr[p] <= self.paths.len)), patterns=[self.mid.arr[p]])),
               ('both ends of the chain', z3.And(self.mid.arr[0] == 0, z3.Not(self.fin.arr[0]), self.rdy.arr[0] == (self.paths.len > 0), self.mid.arr[n] == 0, z3.Not(self.rdy.arr[n]), self.fin.arr[n] == (self.paths.len > 0))),
               ('paths lead from ready to final', z3.ForAll([k, p], z3.Implies(z3.And(0 <= k, k < self.paths.len, 0 <= p, p <= n), z3.And(z3.Implies(p == 0, P.stat(p) == READY), z3.Implies(p == n, P.stat(p) == FINAL))), patterns=[P.stat(p)])),
               ('once final always final, ready only from the start', z3.ForAll([k, p, k2], z3.Implies(z3.And(0 <= k, k < self.paths.len, 0 <= p, k2 == p + 1, k2 <= n), z3.And(z3.Implies(P.stat(p) == FINAL, P.stat(k2) == FINAL), z3.Implies(P.stat(k2) == READY, P.stat(p) == READY))),
                                                                                   patterns=[z3.MultiPattern(P.stat(p), P.stat(k2))])),
               ('ready and final links carry the site identity', z3.ForAll([k, p], z3.Implies(z3.And(0 <= k, k < self.paths.len, 0 <= p, p < n, P.stat(p) <= 0, P.stat(p) == P.stat(p + 1)), P.op(p) == self.ids.arr[p]), patterns=[P.op(p)])),
               ]
        return out

    def state_ok(self, s, p):
        return z3.Or(z3.And(s == READY, self.rdy.arr[p]), z3.And(s == FINAL, self.fin.arr[p]), z3.And(s >= 1, s <= self.mid.arr[p]))


class RawPath:
    """path stored in a list: accessor terms"""

    def __init__(self, c, e):
        S = c.S
        ps, ns = S.sort(PATH), S.sort(NODE)
        fs = [f for f, _ in S.fields(PATH)]
        nfs = [f for f, _ in S.fields(NODE)]
        vn, vo = S.sort(('vec', NODE)), S.sort(('vec', TO))
        nv = ps.accessor(0, fs.index('fsm_nodes'))(e)
        ov = ps.accessor(0, fs.index('op_reprs'))(e)
        self.nlen, na = vn.accessor(0, 0)(nv), vn.accessor(0, 1)(nv)
        self.olen, oa = vo.accessor(0, 0)(ov), vo.accessor(0, 1)(ov)
        self.site = lambda i: ns.accessor(0, nfs.index('fsm_site_idx'))(na[i])
        self.stat = lambda i: ns.accessor(0, nfs.index('fsm_stat_idx'))(na[i])
        self.op = lambda i: oa[i]


def addpath(CS):
    def ctor(idgiven):
        def post(c):
            f = FV(c, c.this1)
            p = q()
            out = f.inv() + [('no path', f.paths.len == 0), ('chain length', f.n == c.a(0)),
                             ('no state used', z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < f.m), z3.And(f.mid.arr[p] == 0, z3.Not(f.rdy.arr[p]), z3.Not(f.fin.arr[p]))), patterns=[f.mid.arr[p]]))]
            if idgiven:
                out.append(('site identities as given', z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < f.n), f.ids.arr[p] == c.nvec(c.a(1)).arr[p]), patterns=[f.ids.arr[p]])))
            return out
        return post
    CS.add(Contract('FSM::FSM#ids', requires=lambda c: [('size', c.a(0) < (1 << 57)), ('one identity per site', c.a(1).len == c.a(0))], ensures=ctor(True), modifies=['this'], sel=lambda f: len(ptypes(f)) == 2))
    CS.add(Contract('FSM::FSM#size', requires=lambda c: [('size', c.a(0) < (1 << 57))], ensures=ctor(False), modifies=['this'], sel=lambda f: ptypes(f) == [ULONG],
                    hints=lambda lc: []))
    CS.add(Contract('FSM::phys_size', requires=lambda c: FV(c, c.this0).inv(), ensures=lambda c: [('number of physical sites', c.r == FV(c, c.this0).n)]))
    CS.add(Contract('FSM::fsm_size', requires=lambda c: FV(c, c.this0).inv(), ensures=lambda c: [('number of machine sites', c.r == FV(c, c.this0).n + 1)]))

    def listed(c):
        f = FV(c, c.this0)
        r = c.nvec(c.r)
        p = q()
        return [('every path, in order', z3.And(r.len == f.paths.len, z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < r.len), r.arr[p] == f.paths.arr[p]), patterns=[r.arr[p]])))]
    CS.add(Contract('FSM::GetFSMPaths', requires=lambda c: FV(c, c.this0).inv(), ensures=listed))

    def pre(c):
        f = FV(c, c.this0)
        h, t, ops = c.a(0), c.a(1), c.a(2)
        return f.inv() + [('range of sites inside the chain', z3.And(h <= t, t < f.n)), ('one operator per site of the range', h + ops.len == t + 1), ('number of paths', f.paths.len < (1 << 57))]

    def post(c):
        a, b = FV(c, c.this0), FV(c, c.this1)
        h, t, ops = c.a(0), c.a(1), c.nvec(c.a(2))
        k = a.paths.len
        N = b.path(k)
        p = q()
        rng = z3.And(0 <= p, p < a.n)
        j = q('j')
        return [('one path more', b.paths.len == k + 1),
                ('paths so far unchanged', z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < k), b.paths.arr[p] == a.paths.arr[p]), patterns=[b.paths.arr[p]])),
                ('given operators inside the range', z3.ForAll([p], z3.Implies(z3.And(rng, h <= p, p <= t), N.op(p) == ops.arr[p - h]), patterns=[N.op(p)])),
                ('identities outside the range', z3.ForAll([p], z3.Implies(z3.And(rng, z3.Or(p < h, p > t)), N.op(p) == a.ids.arr[p]), patterns=[N.op(p)])),
                ('ready up to the range', z3.ForAll([p], z3.Implies(z3.And(0 <= p, p <= h), N.stat(p) == READY), patterns=[N.stat(p)])),
                ('final behind the range', z3.ForAll([p], z3.Implies(z3.And(t < p, p <= a.n), N.stat(p) == FINAL), patterns=[N.stat(p)])),
                ('a new intermediate state inside', z3.ForAll([p], z3.Implies(z3.And(h < p, p <= t), z3.And(N.stat(p) >= 1, N.stat(p) == a.mid.arr[p] + 1, b.mid.arr[p] == a.mid.arr[p] + 1)), patterns=[N.stat(p)])),
                ('intermediate states elsewhere', z3.ForAll([p], z3.Implies(z3.And(0 <= p, p <= a.n, z3.Or(p <= h, p > t)), b.mid.arr[p] == a.mid.arr[p]), patterns=[b.mid.arr[p]])),
                ('ready and final marks', z3.ForAll([p], z3.Implies(z3.And(0 <= p, p <= a.n), z3.And(b.rdy.arr[p] == z3.Or(a.rdy.arr[p], p <= h), b.fin.arr[p] == z3.Or(a.fin.arr[p], p > t))), patterns=[b.rdy.arr[p]])),
                ('nothing else changes', z3.And(b.n == a.n, b.m == a.m, b.ids.len == a.ids.len)),
                ('identities kept', z3.ForAll([p], z3.Implies(rng, b.ids.arr[p] == a.ids.arr[p]), patterns=[b.ids.arr[p]])),
                ] + [('invariant: ' + l, x) for l, x in b.inv()]

    def hints(lc):
        c = lc.fctx
        a = FV(c, c.this0)
        h, t, ops = c.a(0), c.a(1), c.nvec(c.a(2))
        out = []
        for i in lc.ts:
            for hv, e, cell in lc.recs('FSMPath'):
                N = PV(c, hv)
                p = q()
                inl = z3.And(0 <= p, p < i)
                out.append(('operators so far', z3.ForAll([p], z3.Implies(inl, N.ops.arr[p] == z3.If(z3.Or(p < h, p > t), a.ids.arr[p], ops.arr[p - h])), patterns=[N.ops.arr[p]])))
                out.append(('operators placed so far', z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < a.n), N.ops.arr[p] == z3.If(z3.And(h <= p, p < h + i), ops.arr[p - h], a.ids.arr[p])), patterns=[N.ops.arr[p]])))
                out.append(('as many operators', N.ops.len == a.n))
                le = z3.And(0 <= p, p <= i)
                out.append(('states so far', z3.ForAll([p], z3.Implies(le, N.stat(p) == z3.If(p <= h, READY, z3.If(p > t, FINAL, a.mid.arr[p] + 1))), patterns=[N.nodes.arr[p]])))
                out.append(('sites so far', z3.ForAll([p], z3.Implies(le, N.site(p) == p), patterns=[N.nodes.arr[p]])))
            for hv, e, cell in lc.recs('FSM'):
                b = FV(c, hv)
                p = q()
                dom = z3.And(0 <= p, p <= a.n)
                out.append(('counters so far', z3.ForAll([p], z3.Implies(dom, b.mid.arr[p] == a.mid.arr[p] + z3.If(z3.And(h < p, p <= t, p <= i), 1, 0)), patterns=[b.mid.arr[p]])))
                out.append(('ready marks so far', z3.ForAll([p], z3.Implies(dom, b.rdy.arr[p] == z3.Or(a.rdy.arr[p], z3.And(p <= h, p <= i))), patterns=[b.rdy.arr[p]])))
                out.append(('final marks so far', z3.ForAll([p], z3.Implies(dom, b.fin.arr[p] == z3.Or(a.fin.arr[p], z3.And(p > t, p <= i))), patterns=[b.fin.arr[p]])))
        return out
    CS.add(Contract('FSM::AddPath', requires=pre, ensures=post, modifies=['this'], hints=hints))


def labels(CS):
    P = 'LabelConvertor::'

    def objt(c):
        return parse(re.match(r'LabelConvertor<(.*)>$', c.this1.t[1]).group(1))

    def hub(c, v):
        return c.nvec(v if isinstance(v, VVec) else field(v, 'conv_obj_hub_', ('vec', objt(c)), c.S))

    def eq(c, a, b):
        n = show(objt(c))
        return a == b if n in c.S.rings else c.ip.models.eqpred[n](a, b)

    def inv(c, v):
        b = hub(c, v)
        i, j = q('i'), q('j')
        return [('labelled objects are pairwise different', z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < b.len), z3.Not(eq(c, b.arr[i], b.arr[j]))), patterns=[z3.MultiPattern(b.arr[i], b.arr[j])]))]

    def conv(c):
        a, b = hub(c, c.this0), hub(c, c.this1)
        x = c.a(0)
        p = q()
        found = z3.Exists([p], z3.And(0 <= p, p < a.len, eq(c, a.arr[p], x)))
        return [('labels given out stay', z3.And(b.len >= a.len, z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < a.len), b.arr[p] == a.arr[p]), patterns=[b.arr[p]]))),
                ('the label names an equal object', z3.And(c.r >= 0, c.r < b.len, eq(c, b.arr[c.r], x))),
                ('a new label only for a new object, the next free one', z3.If(c.r < a.len, b.len == a.len, z3.And(c.r == a.len, b.len == a.len + 1, b.arr[a.len] == x))),
                ('known objects keep their label', z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < a.len, eq(c, a.arr[p], x)), c.r == p), patterns=[a.arr[p]]))] + inv(c, c.this1)
    CS.add(Contract(P + 'Convert', requires=lambda c: inv(c, c.this0) + [('number of labels', hub(c, c.this0).len < (1 << 57))], ensures=conv, modifies=['this']))

    def same(get, src):
        def post(c):
            a, b = hub(c, src(c)), get(c)
            p = q()
            return [('the same objects under the same labels', z3.And(a.len == b.len, z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < a.len), b.arr[p] == a.arr[p]), patterns=[b.arr[p]])))]
        return post
    CS.add(Contract(P + 'LabelConvertor#id', ensures=lambda c: [('the identity has label 0', z3.And(hub(c, c.this1).len == 1, hub(c, c.this1).arr[0] == c.a(0)))] + inv(c, c.this1), modifies=['this'], sel=lambda f: len(ptypes(f)) == 1 and ptypes(f)[0][0] == 'ref' and not (ptypes(f)[0][1][0] == 'rec' and ptypes(f)[0][1][1].startswith('LabelConvertor')) and not is_rref(f)))
    CS.add(Contract(P + 'operator=', ensures=same(lambda c: hub(c, c.this1), lambda c: c.a(0)), modifies=['this'], aliases=[{0: 'this'}], sel=lambda f: not is_rref(f)))
    CS.add(Contract(P + 'GetLabelObjMapping', ensures=same(lambda c: c.nvec(c.r), lambda c: c.this0)))


def contracts(CS):
    node_contracts(CS)
    path_contracts(CS)
    addpath(CS)
    labels(CS)
