"""Loop rule: invariants are inferred (Houdini over candidate formulas) and then proved.

A loop is cut at its head: every leaf the body can modify is havocked, a ghost iteration
counter t is added, candidate invariants are generated (linear induction variables, bounds
from the loop's own conditions, pointwise closed forms of array writes, and the candidates
offered by the contract of the function being verified), candidates not implied initially or
not preserved are dropped until the rest is inductive.  The body's own obligations are then
generated from the head state with the surviving invariants.  No unrolling, no bound.
"""
import z3
from values import *
from solver import *

import os
import re
T_CAND = int(os.environ.get('T_CAND', '2000'))


class LoopCtx:
    """what a contract's hint function may look at"""

    def __init__(self, ip, E, H, t, ts, sub0, outs):
        self.ip, self.E, self.H, self.t, self.ts = ip, E, H, t, ts
        self.outs = outs
        self.fctx = ip.fctx          # verification context of the function (pre-state, this, args)
        self.sub0 = sub0

    def vecs(self, et=None, modified=None):
        """[(head value, entry value)] of every vector-valued cell (or record field) visible, by element type"""
        out = []
        for c, v in self.H.cells.items():
            t = self.H.types.get(c)
            ev = self.E.cells.get(c)
            out += list(self._vecs(v, ev))
        return [(h, e) for h, e in out if et is None or h.et == et]

    def _vecs(self, v, e):
        if isinstance(v, VVec):
            yield v, e
        elif isinstance(v, VRec):
            for f in v.f:
                yield from self._vecs(v.f[f], e.f[f] if isinstance(e, VRec) else None)
        elif isinstance(v, VPair):
            yield from self._vecs(v.a, e.a)
            yield from self._vecs(v.b, e.b)

    def param(self, i):
        """(head, entry) value of parameter i of the function under verification"""
        ps = [p for p in self.fctx.fn.inner if p.get('kind') == 'ParmVarDecl']
        for fr in self.H.frames:
            if ps[i]['id'] in fr:
                pl = fr[ps[i]['id']]
                return self.ip.rv(self.H, pl), self.ip.rv(self.E, pl)
        return None

    def ints(self):
        """integer terms of head-state scalar cells"""
        out = []
        for c, v in self.H.cells.items():
            t = self.H.types.get(c)
            if isinstance(v, z3.ExprRef) and z3.is_int(v) and t and t[0] == 'int':
                out.append(v)
            elif isinstance(v, VIter):
                out.append(v.idx)
        seen = set()
        r = []
        for x in out:
            if x.get_id() not in seen:
                seen.add(x.get_id())
                r.append(x)
        return r

    def bools(self):
        """boolean head-state scalars modified by the loop"""
        out = []
        for c, v in self.H.cells.items():
            if isinstance(v, z3.ExprRef) and z3.is_bool(v) and not z3.is_true(v) and not z3.is_false(v) and c in self.E.cells and not v.eq(self.E.cells[c]):
                out.append(v)
        return out[:4]

    def recs(self, name, modified=None):
        """[(head value, entry value, cell)] of record-valued cells of a class"""
        out = []
        for c, v in self.H.cells.items():
            if isinstance(v, VRec) and v.t[0] == 'rec' and v.t[1] == name:
                out.append((v, self.E.cells.get(c), c))
        return out

    def modified(self, h, e):
        return [p for (p, a), (_, b) in zip(leaves(h), leaves(e)) if not a.eq(b)]


class LoopEngine:
    def __init__(self, ip):
        self.ip = ip

    # Rounds of an enclosing loop only ever weaken the assumptions, so what a nested loop's candidates were refuted
    # for in one round they are refuted for in the next; nested loops are told apart by the order they are met in.
    # A wrong match can lose an invariant, never admit one.
    def enter(self):
        ip = self.ip
        if ip.memo and not ip.light:
            par = ip.memo[-1]
            k = par['at'] = par.get('at', 0) + 1
            memo = par.setdefault('in', {}).setdefault(k, {})
        else:
            memo = {}
        ip.memo.append(memo)
        return memo

    def leave(self):
        self.ip.memo.pop()

    def round(self, memo):
        memo['at'] = 0

    def leaves_of(self, st, cells):
        out = {}
        for c in cells:
            v = st.cells[c]
            for p, x in leaves(v):
                out[(c, p)] = x
            if isinstance(v, VIter):
                out[(c, '$place')] = v.place
                if v.ct[0] == 'map':
                    out[(c, '$ver')] = v.ver
            elif isinstance(v, VPtr):
                out[(c, '$ptr')] = v.place
        return out

    def diff(self, a, b):
        mods = set()
        for k, x in b.items():
            y = a.get(k)
            if k[1] == '$place' or k[1] == '$ptr':
                if y is None or same_place(x, y) is not True:
                    raise Unsupported('loop rebinds an iterator or pointer to another object')
                continue
            if k[1] == '$ver':
                if y is None or not x.eq(y):
                    raise Unsupported('loop re-reads a map iterator after key changes')
                continue
            if y is None:
                raise Unsupported('loop initialises storage declared outside it')
            if not x.eq(y):
                mods.add(k)
        return mods

    def linear(self, st, H, sym, t, outs):
        ids = {h.get_id() for h in sym.values()} | {t.get_id()}
        nexts = [s for s, k, v in outs if k == 'next']
        lin = {}
        for k, h in sym.items():
            if not z3.is_int(h):
                continue
            v0 = leaf_get(st.cells[k[0]], k[1])
            ds = [z3.simplify(leaf_get(s.cells[k[0]], k[1]) - h) for s in nexts]
            if any(not d.eq(ds[0]) for d in ds):
                continue
            d = ds[0]
            if z3.is_int_value(d):
                d = d.as_long()
                lin[k] = z3.simplify(v0 + t if d == 1 else v0 - t if d == -1 else v0 + d * t)
            elif not self.mentions(d, ids) and not self.has_body_symbols(d, ids, H, st):
                lin[k] = OFF(d, t, v0)
        return lin

    def mentions(self, e, ids):
        todo = [e]
        seen = set()
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if x.get_id() in ids:
                return True
            if z3.is_quantifier(x):
                todo.append(x.body())
            else:
                todo += x.children()
        return False

    def havoc(self, st, mods, t, closed=None):
        ip = self.ip
        H = st.fork()
        sym = {}
        for (c, p) in sorted(mods, key=str):
            old = leaf_get(H.cells[c], p)
            if closed and (c, p) in closed:
                H.cells[c] = leaf_set(H.cells[c], p, closed[(c, p)])
                continue
            h = fresh('h_%s_%s' % (str(c).split('!')[0], '_'.join(map(str, p))), old.sort())
            sym[(c, p)] = h
            H.cells[c] = leaf_set(H.cells[c], p, h)
        touched = {c for c, p in mods}
        for c in touched:
            ty = H.types.get(c)
            v = H.cells[c]
            if isinstance(v, VIter):
                H.assume(v.idx >= 0)
            elif ty is not None and not str(c).startswith('heap:') and not str(c).startswith('g:'):
                try:
                    H.assume(*ip.S.range_facts(v, ty if ty[0] != 'ref' else ty[1]))
                except (Unsupported, AttributeError, TypeError):
                    pass
        H.assume(t >= 0)
        return H, sym

    def subst(self, f, pairs):
        return z3.substitute(f, *pairs) if pairs else f

    def run(self, st, iterate, label):
        ip = self.ip
        cells = [c for c in st.cells]
        # ---------------- modified leaves
        t = fresh('t', I)
        mods = set()
        ip.loop_stack.append(t)
        memo = self.enter()
        try:
            for rnd in range(8):
                H, sym = self.havoc(st, mods, t)
                base = self.leaves_of(H, cells)
                # which storage the loop writes: loops inside are run without invariants
                ip.suppress += 1
                ip.light += 1
                try:
                    outs = list(iterate(H.fork()))
                finally:
                    ip.suppress -= 1
                    ip.light -= 1
                new = set()
                for s, k, v in outs:
                    if k == 'next':
                        new |= self.diff(base, self.leaves_of(s, cells))
                if new <= mods:
                    break
                mods |= new
            else:
                raise Unsupported('loop footprint does not stabilise')
            if not any(k == 'next' for _, k, _ in outs):
                # at most one iteration: no invariant needed
                self.round(memo)
                res = list(iterate(st.fork()))
                return [(s, 'normal' if k == 'done' else k, v) for s, k, v in res if k != 'next']
            # ---------------- induction variables: next - current is the same constant on every path,
            # so current == initial + t*step holds by induction; their closed form replaces them
            lin = self.linear(st, H, sym, t, outs)
            if lin:
                H, sym = self.havoc(st, mods, t, lin)
                for light in (1, 0):
                    ip.suppress += 1
                    ip.light += light
                    try:
                        outs = list(iterate(H.fork()))
                    finally:
                        ip.suppress -= 1
                        ip.light -= light
                    bad = None
                    for s, k, v in outs:
                        if k != 'next':
                            continue
                        for q, f in lin.items():
                            nx = leaf_get(s.cells[q[0]], q[1])
                            r, _ = ip.solver.prove(s.pc, nx == self.subst(f, [(t, t + 1)]), timeout=T_CAND * ip.solver.patience)
                            if r != 'proved':
                                bad = q
                    if bad is None:
                        break
                    if not light or ip.light:
                        raise Unsupported('induction variable %s not linear' % (bad,))
            if ip.light:
                return [(s, 'normal' if k == 'done' else k, v) for s, k, v in iterate(H.fork()) if k != 'next']
            self.lin = lin
            sub0 = [(sym[k], leaf_get(st.cells[k[0]], k[1])) for k in sym] + [(t, iv(0))]
            cands = self.candidates(st, H, sym, t, outs, mods, sub0)
            # ---------------- initiation
            live = []
            seen = set()
            uniq = []
            for name, f in cands:
                if f.get_id() not in seen:
                    seen.add(f.get_id())
                    uniq.append((name, f))
            # candidates already refuted under stronger assumptions (earlier rounds of the enclosing loop)
            names = tuple(re.sub(r'!\d+', '', n) for n, _ in uniq)
            if memo.get('names') == names:
                keyed = [(i, x) for i, x in enumerate(uniq) if i not in memo['rej']]
            else:
                memo.clear()
                memo.update(names=names, rej=set())
                keyed = list(enumerate(uniq))
            number = {x[1].get_id(): i for i, x in keyed}
            uniq = [x for _, x in keyed]
            rs = ip.solver.prove_many([(st.pc, self.subst(f, sub0)) for _, f in uniq], timeout=T_CAND * ip.solver.patience)
            for (name, f), r in zip(uniq, rs):
                if r[0] == 'proved':
                    live.append((name, f))
                else:
                    memo['rej'].add(number[f.get_id()])
                    ip.rejected.append((ip.fn, label, 'init', name))
            # ---------------- preservation
            for rnd in range(40):
                Hc = H.fork()
                for _, f in live:
                    Hc.assume(f)
                ip.suppress += 1
                self.round(memo)
                try:
                    outs = list(iterate(Hc.fork()))
                finally:
                    ip.suppress -= 1
                bad = set()
                tasks, grp = [], []
                for s, k, v in outs:
                    if k != 'next':
                        continue
                    d = self.diff(self.leaves_of(Hc, cells), self.leaves_of(s, cells))
                    if not d <= mods:
                        raise Unsupported('loop footprint changed under invariants')
                    subn = [(sym[q], leaf_get(s.cells[q[0]], q[1])) for q in sym] + [(t, t + 1)]
                    for i, (name, f) in enumerate(live):
                        tasks.append((s.pc, self.subst(f, subn)))
                        grp.append(i)
                for i, r in zip(grp, ip.solver.prove_many(tasks, timeout=T_CAND * ip.solver.patience, skip=grp)):
                    if r[0] != 'proved' and i not in bad:
                        bad.add(i)
                        memo['rej'].add(number[live[i][1].get_id()])
                        ip.rejected.append((ip.fn, label, 'step', live[i][0]))
                if not bad:
                    break
                live = [x for i, x in enumerate(live) if i not in bad]
            else:
                raise Unsupported('invariant inference does not terminate')
            if not ip.suppress:
                for name, f in live:
                    ip.record(label + ' invariant established and preserved: ' + name)
                for q in self.lin:
                    ip.record(label + ' induction variable %s' % str(q[0]).split('!')[0])
                ip.loop_log.append((ip.fn, label, [n for n, _ in live]))
            Hc = H.fork()
            for _, f in live:
                Hc.assume(f)
            self.round(memo)
            res = list(iterate(Hc))
            return [(s, 'normal' if k == 'done' else k, v) for s, k, v in res if k != 'next']
        finally:
            ip.loop_stack.pop()
            self.leave()

    # ------------------------------------------------------------ candidates
    def candidates(self, st, H, sym, t, outs, mods, sub0):
        ip = self.ip
        C = []
        hs = {s.get_id(): k for k, s in sym.items()}
        hset = set(hs)
        nexts = [s for s, k, v in outs if k == 'next']
        lin = []         # (h, closed form in t)

        def mentions(e, ids):
            todo = [e]
            seen = set()
            while todo:
                x = todo.pop()
                if x.get_id() in seen:
                    continue
                seen.add(x.get_id())
                if x.get_id() in ids:
                    return True
                if z3.is_quantifier(x):
                    todo.append(x.body())
                else:
                    todo += x.children()
            return False
        ids = hset | {t.get_id()}
        for k, h in sym.items():
            if not z3.is_int(h):
                continue
            v0 = leaf_get(st.cells[k[0]], k[1])
            ds = [z3.simplify(leaf_get(s.cells[k[0]], k[1]) - h) for s in nexts]
            nm = '%s%s' % (str(k[0]).split('!')[0], '.' + '.'.join(map(str, k[1])) if k[1] else '')
            C.append((nm + ' >= initial', h >= v0))
            C.append((nm + ' <= initial', h <= v0))
            if all(z3.is_int_value(d) for d in ds):
                vals = {d.as_long() for d in ds}
                if min(vals) >= 0:
                    C.append((nm + ' <= initial + max*t', h <= v0 + max(vals) * t))
        lsub = [(h, f) for h, f, d in lin]
        # bounds from the loop's own conditions
        base_n = len(H.pc)
        atoms = {}
        for s, k, v in outs:
            for f in s.pc[base_n:base_n + 12]:
                for g in self.atoms(f):
                    if mentions(g, ids) and not self.has_body_symbols(g, ids, H, st):
                        atoms[g.get_id()] = g
        for g in list(atoms.values())[:16]:
            for h in self.weaken(g):
                C.append(('bound %s' % str(h)[:60], h))
        # what every continuing iteration found (search loops): the same for all iterations so far
        common = None
        for s in nexts:
            fs = {}
            for f in s.pc[base_n:base_n + 24]:
                for g in ([f] + (list(f.children()) if z3.is_and(f) else [])):
                    if not z3.is_quantifier(g) and self._looks_up(g, t) and not self._mention_h(g, ids, t) and not self.has_body_symbols(g, ids, H, st):
                        fs[g.get_id()] = g
            common = fs if common is None else {i: g for i, g in common.items() if i in fs}
        for g in list((common or {}).values())[:8]:
            q = z3.Int(fresh_name('s'))
            C.append(('every iteration so far: %s' % str(g)[:60], z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < t), z3.substitute(g, (t, q))))))
        # pointwise closed forms of array writes
        for k, h in sym.items():
            if not (k[1] and k[1][-1] == 'arr'):
                continue
            a0 = leaf_get(st.cells[k[0]], k[1])
            C += self.array_forms(st, H, k, h, a0, nexts, lsub, t, ids, lin)
        # entry facts that still hold about modified scalars are left to the contract
        for prov in ip.hint_providers:
            lc = LoopCtx(ip, st, H, t, list(ip.loop_stack), sub0, outs)
            try:
                C += list(prov(lc))
            except Unsupported:
                pass
        return C

    def has_body_symbols(self, g, ids, H, st):
        """symbols invented while executing the body are not available at the head"""
        known = getattr(self, '_known', None)
        if known is None or known[0] is not H:
            ks = set()
            for c, v in H.cells.items():
                for p, x in leaves(v):
                    self.consts(x, ks)
            for f in H.pc:
                self.consts(f, ks)
            self._known = known = (H, ks)
        cs = set()
        self.consts(g, cs)
        return not cs <= known[1]

    def consts(self, e, out):
        todo = [e]
        seen = set()
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                todo.append(x.body())
            elif z3.is_app(x):
                if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out.add(x.decl().name())
                todo += x.children()

    def atoms(self, f):
        if z3.is_and(f) or z3.is_or(f):
            for c in f.children():
                yield from self.atoms(c)
        elif z3.is_not(f):
            x = f.arg(0)
            if z3.is_or(x) or z3.is_and(x):
                for c in x.children():
                    yield from self.atoms(z3.Not(c))
            else:
                yield f
        elif not z3.is_quantifier(f):
            yield f

    def weaken(self, g):
        neg = False
        if z3.is_not(g):
            neg = True
            g = g.arg(0)
        if z3.is_app(g) and g.num_args() == 2 and z3.is_int(g.arg(0)):
            a, b = g.arg(0), g.arg(1)
            return [a <= b, b <= a]
        return []

    def array_forms(self, st, H, k, h, a0, nexts, lsub, t, ids, lin):
        C = []
        nm = str(k[0]).split('!')[0] + '.' + '.'.join(map(str, k[1]))
        if len(nexts) == 0:
            return C
        writes = []
        for s in nexts:
            a = leaf_get(s.cells[k[0]], k[1])
            w = []
            while z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE:
                w.append((a.arg(1), a.arg(2)))
                a = a.arg(0)
            if not a.eq(h):
                return C
            writes.append(w)
        p = z3.Int(fresh_name('p'))
        seen = set()
        for w in writes:
            for e, v in w:
                e2 = z3.simplify(z3.substitute(e, *lsub)) if lsub else e
                key = e2.get_id()
                # value in closed form: reads of the array itself read the initial array
                v2 = z3.substitute(v, *(lsub + [(h, a0)])) if lsub else z3.substitute(v, (h, a0))
                hid = {x.get_id() for x in [s for s in [h]]}
                off = z3.simplify(e2 - t)
                up = not self._has(off, t) and not self._mention_h(off, ids, t)
                dn = z3.simplify(e2 + t)
                down = not self._has(dn, t) and not self._mention_h(dn, ids, t)
                if up:
                    if key not in seen:
                        seen.add(key)
                        C.append((nm + ' unchanged outside the range written so far', z3.ForAll([p], z3.Or(z3.And(off <= p, p < off + t), h[p] == a0[p]), patterns=[h[p]])))
                        C.append((nm + ' not yet changed from the cursor on', z3.ForAll([p], z3.Implies(p >= off + t, h[p] == a0[p]), patterns=[h[p]])))
                        C.append((nm + ' unchanged before the start', z3.ForAll([p], z3.Implies(p < off, h[p] == a0[p]), patterns=[h[p]])))
                    if not self._mention_h(v2, ids, t) and all(len(x) == 1 for x in writes) and len(writes) == 1:
                        vp = z3.substitute(v2, (t, p - off))
                        C.append((nm + ' closed form of the elements written so far', z3.ForAll([p], z3.Implies(z3.And(off <= p, p < off + t), h[p] == z3.simplify(vp)), patterns=[h[p]])))
                        C.append((nm + ' closed form (value read unsimplified)', z3.ForAll([p], z3.Implies(z3.And(off <= p, p < off + t), h[p] == vp), patterns=[h[p]])))
                elif down:
                    C.append((nm + ' unchanged outside the range written so far (down)', z3.ForAll([p], z3.Or(z3.And(dn - t < p, p <= dn), h[p] == a0[p]), patterns=[h[p]])))
                    if not self._mention_h(v2, ids, t) and len(writes) == 1:
                        vp = z3.substitute(v2, (t, dn - p))
                        C.append((nm + ' closed form (down)', z3.ForAll([p], z3.Implies(z3.And(dn - t < p, p <= dn), h[p] == vp), patterns=[h[p]])))
                elif not self._mention_h(e2, ids, t) and self._has(e2, t):
                    q = z3.Int(fresh_name('s'))
                    eq_ = z3.substitute(e2, (t, q))
                    if not self._mention_h(v2, ids, t):
                        vq = z3.substitute(v2, (t, q))
                        C.append((nm + ' strided closed form', z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < t), h[eq_] == vq), patterns=[h[eq_]])))
        return C

    def _looks_up(self, e, t):
        """does the formula apply an array or an uninterpreted function to a term with t (other than plain arithmetic)"""
        todo = [e]
        while todo:
            x = todo.pop()
            if z3.is_app(x) and x.num_args() and (z3.is_select(x) or (x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() not in ('mul', 'off', 'quo', 'rem'))) and self._has(x, t):
                return True
            todo += x.children()
        return False

    def _has(self, e, t):
        todo = [e]
        while todo:
            x = todo.pop()
            if x.eq(t):
                return True
            todo += x.children()
        return False

    def _mention_h(self, e, ids, t):
        todo = [e]
        seen = set()
        while todo:
            x = todo.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            if i in ids and not x.eq(t):
                return True
            if z3.is_quantifier(x):
                todo.append(x.body())
            else:
                todo += x.children()
        return False
