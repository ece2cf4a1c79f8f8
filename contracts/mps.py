"""Tensor vectors and matrix product states: files, slots, canonical form records.

Files are a ghost state: which files can be opened, which hold a readable tensor, and which tensor.  Assumed of the C++
stream and tensor library: reading a file yields the tensor last written to it, a file that cannot be opened or read sets the
stream's error state, a failed write shows in the stream state no later than after close().
"""
import importlib.util
import os
import z3
from values import *
from ctypes_ import *
from solver import *
from contract import *
from stdmodel import *

TEN = ('rec', 'qlten::QLTensor<VNum, VQN>')
STEN = ('rec', 'qlten::QLTensor<double, VQN>')
FH = 'heap:files'
ST = z3.StringSort()
V = z3.StringVal

_sp = importlib.util.spec_from_file_location('duovec_mps', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'duovec.py'))
dv = importlib.util.module_from_spec(_sp)
_sp.loader.exec_module(dv)
dv.T, dv.H, dv.PV = TEN, 'heap:' + show(TEN), ('vec', ('ptr', TEN))
H = dv.H
q, inr = dv.q, dv.inr

NAME = z3.Function('MPSTENFILE', ST, I, ST)      # file of a site tensor in a directory
IDX = z3.Function('MPSTENSITE', ST, I)           # the site a file name is for
DIRN = z3.Function('DIRNAME', ST, ST)            # directory a file is in
WOPEN = z3.Function('CANCREATE', ST, B)          # the file can be created (its directory existing)
WOK = z3.Function('CANWRITE', ST, B)             # writing and closing succeeds
LATE = z3.Function('FAILSLATE', ST, B)           # a failing write shows only after close
CLOSEOK = z3.Function('CANCLOSE', ST, B)
MKOK = z3.Function('CANMKDIR', ST, B)


def tensors(s):
    """what is assumed of the tensor library; legs are counted, contraction is associative, decompositions are exact"""
    global RANK, ISOL, ISOR, CT, REV, CON, EMB, STATE, STEP, WSTEP, NONE, LEFT, RIGHT
    ip, M = s.ip, s.models
    T, SS, QN = (s.sorts.opaque[n] for n in (TEN[1], STEN[1], 'VQN'))
    F = z3.Function
    RANK, ISOL, ISOR, REV = F('RANK', T, I), F('LEFTISOMETRY', T, B), F('RIGHTISOMETRY', T, B), F('REVERSED', T, T)
    CT, CON, EMB = F('JOIN', T, T, T), F('CONTRACT', T, T, I, I, T), F('AS_ELEMENT_TYPE', SS, T)
    AV = z3.ArraySort(I, T)
    STATE = F('STATE', AI, AV, I, T)
    STEP, WSTEP = F('STEP', AI, AV, AI, AV, I, I, B), F('WSTEP', AI, AV, AI, AV, I, I, I)
    NONE, LEFT, RIGHT = (z3.IntVal(ip.tu.enums[('MPSTenCanoType', n)]) for n in ('NONE', 'LEFT', 'RIGHT'))
    a, b, c = z3.Const('a', T), z3.Const('b', T), z3.Const('c', T)
    i, j, n, k = z3.Ints('i j n k')
    FA = z3.ForAll
    s.theory.add(['CONTRACT'], [
        FA([a, b, i, j], z3.Implies(z3.And(i == RANK(a) - 1, j == 0), CON(a, b, i, j) == CT(a, b)), patterns=[CON(a, b, i, j)]),
        FA([a, b, i, j], z3.Implies(z3.And(i == RANK(a) - 1, j == 1, RANK(b) == 2), CON(a, b, i, j) == CT(a, REV(b))), patterns=[CON(a, b, i, j)]),
        FA([a, b, i, j], z3.Implies(z3.And(i == 0, j == 0, RANK(a) == 2), CON(a, b, i, j) == CT(REV(a), b)), patterns=[CON(a, b, i, j)])])
    s.theory.add(['JOIN'], [
        FA([a, b], RANK(CT(a, b)) == RANK(a) + RANK(b) - 2, patterns=[CT(a, b)]),
        FA([a, b, c], z3.Implies(z3.And(RANK(a) >= 2, RANK(b) >= 2, RANK(c) >= 2), CT(CT(a, b), c) == CT(a, CT(b, c))), patterns=[CT(CT(a, b), c)])])
    s.theory.add(['REVERSED'], [
        FA([a], z3.And(REV(REV(a)) == a, RANK(REV(a)) == RANK(a), ISOR(REV(a)) == ISOL(a), ISOL(REV(a)) == ISOR(a)), patterns=[REV(a)]),
        FA([a, b], z3.Implies(z3.And(RANK(a) >= 2, RANK(b) >= 2), REV(CT(a, b)) == CT(REV(b), REV(a))), patterns=[REV(CT(a, b))])])
    x, y = z3.Const('x', AI), z3.Const('y', AI)
    v, w = z3.Const('v', AV), z3.Const('w', AV)
    d = WSTEP(x, v, y, w, n, i)
    s.theory.add(['STEP'], [
        # one step: two neighbours replaced by factors with the same product keep the state (lean/ChainProduct.lean)
        FA([x, v, y, w, n, i], z3.And(STEP(x, v, y, w, n, i), z3.Or(STATE(x, v, n) == STATE(y, w, n), i < 0, i + 1 >= n, CT(v[x[i]], v[x[i + 1]]) != CT(w[y[i]], w[y[i + 1]]),
                                      z3.And(0 <= d, d < n, d != i, d != i + 1, v[x[d]] != w[y[d]]))), patterns=[STEP(x, v, y, w, n, i)])])
    ip.assumed.add('tensor library: QR and SVD with nothing cut off give exact factors, the first with orthonormal columns (SVD: the last with orthonormal rows); contracting a chain of tensors is associative; reversing all legs swaps left and right isometries')
    ip.assumed.add('tensor elements: exact arithmetic')

    def val(st, x):
        x = ip.rv(st, x)
        if isinstance(x, VPtr):
            return ip.rv(st, x.place)
        st.assume() if False else None
        ip.oblige(st, 'tensor in use is in memory', z3.And(x != 0, st.cells[H].f['alive'][x]))
        v = st.cells[H].f['val'][x]
        return v

    def put(st, x, v):
        x = ip.rv(st, x)
        if isinstance(x, VPtr):
            ip.set(st, x.place, v)
            return
        ip.oblige(st, 'tensor written is in memory', z3.And(x != 0, st.cells[H].f['alive'][x]))
        hv = st.cells[H]
        st.cells[H] = VRec(hv.t, dict(hv.f, val=z3.Store(hv.f['val'], x, v)))

    def same_object(st, x, y):
        x, y = ip.rv(st, x), ip.rv(st, y)
        if isinstance(x, VPtr) or isinstance(y, VPtr):
            return z3.BoolVal(isinstance(x, VPtr) and isinstance(y, VPtr) and x.place == y.place)
        return x == y

    def apart(st, outs, ins):
        for k, o in enumerate(outs):
            for z in list(ins) + list(outs[:k]):
                ip.oblige(st, 'result is not an operand', z3.Not(same_object(st, o, z)))

    def emb(v):
        return EMB(v) if v.sort() == SS else v

    def ints(v):
        """a list of numbers known at this point"""
        if isinstance(v, VList):
            return [ints(x) for x in v.items]
        if isinstance(v, VVec):
            n = z3.simplify(v.len)
            if not z3.is_int_value(n):
                raise Unsupported('axes')
            out = []
            for k in range(n.as_long()):
                x = s.sorts.unpack(z3.simplify(v.arr[k]), v.et)
                out.append(ints(x))
            return out
        x = z3.simplify(v)
        return x.as_long() if z3.is_int_value(x) else x

    def contract(st, fn, args):
        pa, pb, ax, pc = args
        a, b = emb(val(st, pa)), emb(val(st, pb))
        ax = ints(ip.rv(st, ax))
        if len(ax) != 2 or len(ax[0]) != 1 or len(ax[1]) != 1:
            raise Unsupported('contraction of several legs')
        apart(st, [pc], [pa, pb])
        ip.oblige(st, 'contracted legs exist', z3.And(ax[0][0] >= 0, RANK(a) > ax[0][0], ax[1][0] >= 0, RANK(b) > ax[1][0]))
        put(st, pc, CON(a, b, z3.IntVal(ax[0][0]) if isinstance(ax[0][0], int) else ax[0][0], z3.IntVal(ax[1][0]) if isinstance(ax[1][0], int) else ax[1][0]))
        yield st, VOID

    def qr(st, fn, args):
        pt, k, qn, pq, pr = args
        t, k = val(st, pt), ip.rv(st, k)
        ip.rv(st, qn)
        ip.oblige(st, 'legs on both sides of a decomposition', z3.And(k >= 1, k < RANK(t)))
        apart(st, [pq, pr], [pt])
        q, r = fresh('q', T), fresh('r', T)
        st.assume(CT(q, r) == t, ISOL(q), RANK(q) == k + 1, RANK(r) == RANK(t) - k + 1)
        put(st, pq, q)
        put(st, pr, r)
        yield st, VOID

    def svd(st, fn, args):
        pt, k, qn, pu, ps, pv = args
        t, k = val(st, pt), ip.rv(st, k)
        ip.rv(st, qn)
        ip.oblige(st, 'legs on both sides of a decomposition', z3.And(k >= 1, k < RANK(t)))
        apart(st, [pu, ps, pv], [pt])
        u, sv, vt = fresh('u', T), fresh('s', SS), fresh('vt', T)
        st.assume(CT(CT(u, EMB(sv)), vt) == t, ISOL(u), ISOR(vt), RANK(u) == k + 1, RANK(EMB(sv)) == 2, RANK(vt) == RANK(t) - k + 1)
        put(st, pu, u)
        put(st, ps, sv)
        put(st, pv, vt)
        yield st, VOID
    DIV = F('Div', T, QN)

    def div(st, fn, args):
        yield st, DIV(ip.rv(st, args[0]))
    M.fn_models.update({'qlten::Contract': contract, 'qlten::QR': qr, 'mock_qlten::SVD': svd, 'qlten::Div': div})

    def tmeth(st, name, pl, args, e):
        if name != 'Transpose':
            raise Unsupported('tensor method ' + name)
        ax = ints(ip.rv(st, args[0]))
        t = ip.rv(st, pl)
        if not all(isinstance(x, int) for x in ax) or sorted(ax) != list(range(len(ax))):
            raise Unsupported('permutation of legs')
        ip.oblige(st, 'transposition names every leg', RANK(t) == len(ax))
        n = F('PERMUTED_' + '_'.join(map(str, ax)), T, T)(t)
        if ax == list(range(len(ax)))[::-1]:
            n = REV(t)
        elif ax == list(range(len(ax))):
            n = t
        ip.set(st, pl, n)
        yield st, VOID
    M.opaque_fns[TEN[1]] = tmeth
    M.opaque_ops['VQN'] = {'operator-': lambda st, name, vals, e: iter([(st, F('VQN.minus', QN, QN, QN)(*[ip.rv(st, x) for x in vals]))])}


def setup(s):
    dv.setup(s)
    tensors(s)
    ip, M = s.ip, s.models
    T = s.sorts.opaque[TEN[1]]
    AB = z3.ArraySort(ST, B)
    ip.ghost_heaps = {FH: {'open': AB, 'good': AB, 'dirs': AB, 'held': z3.ArraySort(ST, T)}}
    p, i = z3.Const('p', ST), z3.Int('i')
    s.theory.add(['MPSTENFILE'], [z3.ForAll([p, i], z3.And(z3.Implies(i >= 0, IDX(NAME(p, i)) == i), DIRN(NAME(p, i)) == p), patterns=[NAME(p, i)])])
    ip.assumed.add('decimal numerals of different numbers differ, and a file lies in the directory its name starts with')
    ip.assumed.add('files: reading yields the tensor last written; failures show in the stream state, write failures at the latest after close(); no other process touches the files')

    def root_file(e):
        while True:
            k = e.get('kind')
            if k == 'DeclRefExpr':
                return 'fstream' in e.get('type', {}).get('qualType', '')
            if k == 'CXXOperatorCallExpr':
                e = e.inner[1]
            elif e.inner:
                e = e.inner[0]
            else:
                return False
    M.is_file = root_file
    oc = M.construct

    def construct(st, t, ctor, args, e):
        if t[0] == 'rec' and ('basic_ifstream' in t[1] or 'basic_ofstream' in t[1]) and args:
            f = ip.rv(st, args[0])
            if not (isinstance(f, z3.ExprRef) and f.sort() == ST):
                raise Unsupported('file name')
            for x in args[1:]:
                if not mode_ok(e):
                    raise Unsupported('open mode')
            F = st.cells[FH].f
            if 'ifstream' in t[1]:
                op = F['open'][f]
            else:
                op = z3.And(F['dirs'][DIRN(f)], WOPEN(f))
                st.cells[FH] = VRec(('heap', None), dict(F, open=z3.If(op, z3.Store(F['open'], f, z3.BoolVal(True)), F['open']),
                                                         good=z3.If(op, z3.Store(F['good'], f, z3.BoolVal(False)), F['good'])))
            yield st, VRec(('stream', 'in' if 'ifstream' in t[1] else 'out'), {'file': f, 'open': op, 'ok': op, 'used': z3.BoolVal(False)})
            return
        yield from oc(st, t, ctor, args, e)
    M.construct = construct

    def mode_ok(e):
        """only binary / in / out / trunc"""
        bad = []

        def walk(x):
            if x.get('kind') in ('DeclRefExpr', 'MemberExpr'):
                n = x.get('name') or x.get('referencedDecl', {}).get('name')
                if n in ('app', 'ate'):
                    bad.append(n)
            for y in x.inner or []:
                walk(y)
        walk(e)
        return not bad
    om = M.method

    def stream(st, pl):
        if isinstance(pl, Place):
            try:
                v = ip.get(st, pl)
            except (KeyError, AttributeError):
                return None
            if isinstance(v, VRec) and v.t[0] == 'stream':
                return v
        return None

    def meth(st, ct, name, pl, args, e):
        v = stream(st, pl)
        if v is None:
            yield from om(st, ct, name, pl, args, e)
            return
        f = v.f
        if name == 'is_open':
            yield st, f['open']
        elif name in ('fail', 'operator!'):
            yield st, z3.Not(f['ok'])
        elif name == 'operator bool' or (name == 'good' and (v.t[1] == 'out' or z3.is_false(f['used']))):
            yield st, f['ok']
        elif name == 'flush':
            yield st, pl
        elif name == 'close':
            ok = z3.And(f['ok'], f['open'], CLOSEOK(f['file']) if v.t[1] == 'in' else z3.Or(z3.Not(f['used']), WOK(f['file'])))
            ip.set(st, pl, VRec(v.t, dict(f, open=z3.BoolVal(False), ok=ok)))
            yield st, VOID
        else:
            raise Unsupported('stream method ' + name)
    M.method = meth

    def io(st, name, ts, vals, e):
        if name not in ('operator>>', 'operator<<', 'operator!') or not vals:
            return None
        v = stream(st, vals[0])
        if v is None:
            return None
        if name == 'operator!':
            return iter([(st, z3.Not(v.f['ok']))])
        return doio(st, name, v, vals)

    def doio(st, name, v, vals):
        f = v.f
        F = st.cells[FH].f
        if name == 'operator<<':
            x = ip.rv(st, vals[1])
            if v.t[1] != 'out' or not (isinstance(x, z3.ExprRef) and x.sort() == T) or not z3.is_false(f['used']):
                raise Unsupported('output to a file')
            fn = f['file']
            st.cells[FH] = VRec(('heap', None), dict(F, good=z3.If(f['ok'], z3.Store(F['good'], fn, WOK(fn)), F['good']), held=z3.If(f['ok'], z3.Store(F['held'], fn, x), F['held'])))
            ip.set(st, vals[0], VRec(v.t, dict(f, ok=z3.And(f['ok'], z3.Or(WOK(fn), LATE(fn))), used=z3.BoolVal(True))))
            yield st, vals[0]
            return
        if v.t[1] != 'in' or not isinstance(vals[1], Place) or not z3.is_false(f['used']):
            raise Unsupported('input from a file')
        old = ip.rv(st, vals[1])
        good = F['good'][f['file']]
        ip.set(st, vals[1], z3.If(f['ok'], z3.If(good, F['held'][f['file']], fresh('damaged', T)), old))
        ip.set(st, vals[0], VRec(v.t, dict(f, ok=z3.And(f['ok'], good), used=z3.BoolVal(True))))
        yield st, vals[0]
    M.op_hooks.append(io)
    oh = M.hooked
    M.hooked = lambda st, name, vals, t0: (name in ('operator>>', 'operator<<', 'operator!') and bool(vals) and stream(st, vals[0]) is not None) or oh(st, name, vals, t0)


class Files:
    def __init__(self, c, st):
        f = st.cells[FH].f
        self.open, self.good, self.dirs, self.held = (c.named(f[k]) for k in ('open', 'good', 'dirs', 'held'))

    def readable(self, f):
        return z3.And(self.open[f], self.good[f], CLOSEOK(f))

    def writable(self, f):
        return z3.And(self.dirs[DIRN(f)], WOPEN(f), WOK(f))

    def holds(self, f, t):
        return z3.And(self.open[f], self.good[f], self.held[f] == t)

    def same(self, o, f):
        return z3.And(self.open[f] == o.open[f], self.good[f] == o.good[f], self.held[f] == o.held[f])


def contracts(CS):
    dv.contracts(CS)
    ptr = lambda f, i, k: ptypes(f)[i][0] == k
    is_const = lambda f: f['type']['qualType'].rstrip().endswith('const')
    d0 = lambda c: dv.D(c, c.this0, c.pre)
    d1 = lambda c: dv.D(c, c.this1, c.post)
    h0 = lambda c: dv.Heap(c, c.pre)
    h1 = lambda c: dv.Heap(c, c.post)
    f0 = lambda c: Files(c, c.pre)
    f1 = lambda c: Files(c, c.post)
    wf, kept = dv.wf, dv.kept
    fq = lambda: z3.Const(fresh_name('file'), ST)
    rng = lambda c, i: ('slot exists', z3.And(i >= 0, i < d0(c).n))
    alloc = lambda c, i: ('slot allocated', z3.And(d0(c).arr[i] != 0, h0(c).alive[d0(c).arr[i]]))

    # ---- one tensor
    def loaded(c, idx, file):
        d, o, g, h = d1(c), d0(c), h0(c), h1(c)
        n = d.arr[idx]
        return [('other slots unchanged', dv.slots_kept(o, d, idx)), ('the slot holds the tensor of the file', z3.And(n != 0, h.alive[n], h.val[n] == f0(c).held[file])),
                ('old element released, one allocated', h.count == g.count + 1 - z3.If(o.arr[idx] != 0, 1, 0)),
                ('not an element in use', z3.Or(z3.Not(g.alive[n]), n == o.arr[idx]))] + kept(g, h, lambda a: z3.And(a == o.arr[idx], a != 0)) + wf(d, h)
    CS.add(Contract('TenVec::LoadTen', requires=lambda c: [rng(c, c.a(0))] + wf(d0(c), h0(c)), throws=lambda c: z3.Not(f0(c).readable(c.a(1))),
                    ensures=lambda c: loaded(c, c.a(0), c.a(1)), modifies=['this', H]))

    def dumped(c, file, t):
        a, b = f0(c), f1(c)
        f = fq()
        return [('the file holds the tensor', b.holds(file, t)), ('other files unchanged', z3.ForAll([f], z3.Implies(f != file, b.same(a, f)), patterns=[b.open[f]] )),
                ('other files keep their content', z3.ForAll([f], z3.Implies(f != file, b.same(a, f)), patterns=[b.held[f]])),
                ('other files stay readable', z3.ForAll([f], z3.Implies(f != file, b.same(a, f)), patterns=[b.good[f]])),
                ('directories unchanged', b.dirs == a.dirs)]

    def freed(c, i, on):
        d, o, g, h = d1(c), d0(c), h0(c), h1(c)
        a = q('a')
        rel = z3.And(on, o.arr[i] != 0)
        return [('other slots unchanged', dv.slots_kept(o, d, i)), ('slot emptied exactly if asked to', d.arr[i] == z3.If(on, 0, o.arr[i])),
                ('its tensor released exactly if asked to', z3.ForAll([a], h.alive[a] == z3.And(g.alive[a], z3.Not(z3.And(on, a != 0, a == o.arr[i]))), patterns=[h.alive[a]])),
                ('releases counted', h.count == g.count - z3.If(rel, 1, 0)), ('no tensor changed', z3.ForAll([a], h.val[a] == g.val[a], patterns=[h.val[a]]))]

    def nothing_lost(c):
        d, o, g, h = d1(c), d0(c), h0(c), h1(c)
        i = q()
        return [('when the tensor cannot be written it stays in memory', z3.And(d.n == o.n, z3.ForAll([i], z3.Implies(inr(o, i), z3.And(d.arr[i] == o.arr[i], z3.Implies(o.arr[i] != 0, z3.And(h.alive[o.arr[i]] == g.alive[o.arr[i]], h.val[o.arr[i]] == g.val[o.arr[i]])))), patterns=[d.arr[i]])))]
    tens = lambda c, i: h0(c).val[d0(c).arr[i]]
    cw = Contract('TenVec::DumpTen#const', requires=lambda c: [rng(c, c.a(0)), alloc(c, c.a(0))], throws=lambda c: z3.Not(f0(c).writable(c.a(1))),
                  ensures=lambda c: dumped(c, c.a(1), tens(c, c.a(0))), modifies=[FH], sel=is_const)
    cr = Contract('TenVec::DumpTen#release', requires=lambda c: [rng(c, c.a(0)), alloc(c, c.a(0))] + wf(d0(c), h0(c)), throws=lambda c: z3.Not(f0(c).writable(c.a(1))),
                  ensures=lambda c: dumped(c, c.a(1), tens(c, c.a(0))) + freed(c, c.a(0), c.a(2)), modifies=['this', H, FH], sel=lambda f: not is_const(f))
    cr.throw_ensures = nothing_lost
    CS.add(cw)
    CS.add(cr)

    # ---- names, directories
    cn = Contract('GenMPSTenName', requires=lambda c: [], ensures=lambda c: [('the file of that site in that directory', c.r == NAME(c.a(0), c.a(1)))])
    cn.defs = lambda c: [NAME(c.a(0), c.a(1)) == z3.Concat(c.a(0), V('/mps_ten'), z3.Function('ITOS', I, ST)(c.a(1)), V('.qlten'))]
    CS.add(cn)
    ce = Contract('IsPathExist', ensures=lambda c: [('', c.r == f0(c).dirs[c.a(0)])])
    cm = Contract('CreatPath', exits=lambda c: z3.Not(MKOK(c.a(0))), modifies=[FH],
                  ensures=lambda c: [('', f1(c).dirs == z3.Store(f0(c).dirs, c.a(0), z3.BoolVal(True))), ('', z3.And(f1(c).open == f0(c).open, f1(c).good == f0(c).good, f1(c).held == f0(c).held))])
    for x in (ce, cm):
        x.assumed = True
        CS.add(x)

    # ---- all tensors
    def full(c):
        o, g = d0(c), h0(c)
        i = q()
        return [('every site has its tensor in memory', z3.ForAll([i], z3.Implies(inr(o, i), z3.And(o.arr[i] != 0, g.alive[o.arr[i]])), patterns=[o.arr[i]])), ('sizes', o.n < (1 << 55))]

    def site(c, f):
        return z3.And(f == NAME(c.a(0), IDX(f)), 0 <= IDX(f), IDX(f) < d0(c).n)

    def dumpall(c):
        a, b, o, g = f0(c), f1(c), d0(c), h0(c)
        i, f = q(), fq()
        F = lambda x: z3.ForAll([f], z3.Implies(z3.Not(site(c, f)), b.same(a, f)), patterns=[x[f]])
        return [('every site tensor is in its file', z3.ForAll([i], z3.Implies(inr(o, i), b.holds(NAME(c.a(0), i), g.val[o.arr[i]])), patterns=[NAME(c.a(0), i)])),
                ('other files unchanged', F(b.open)), ('other files keep their content', F(b.held)), ('other files stay readable', F(b.good)), ('the directory exists', b.dirs[c.a(0)]) ]

    def cannot(c):
        i = q()
        nm = NAME(c.a(0), i)
        return z3.Not(z3.ForAll([i], z3.Implies(inr(d0(c), i), z3.And(WOPEN(nm), WOK(nm))), patterns=[nm]))

    def nodir(c):
        return z3.And(z3.Not(f0(c).dirs[c.a(0)]), z3.Not(MKOK(c.a(0))))

    def dumphints(lc):
        c = lc.fctx
        o, g, a = d0(c), h0(c), f0(c)
        h, b = dv.Heap(c, lc.H), Files(c, lc.H)
        i, f = q(), fq()
        out = [('the directory exists', b.dirs[c.a(0)])]
        for t in lc.ts:
            nm = NAME(c.a(0), i)
            out.append(('files so far', z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < t), z3.And(b.holds(nm, g.val[o.arr[i]]), WOPEN(nm), WOK(nm))), patterns=[nm])))
            done = z3.And(f == NAME(c.a(0), IDX(f)), 0 <= IDX(f), IDX(f) < t)
            for x in (b.open, b.held, b.good):
                out.append(('other files so far', z3.ForAll([f], z3.Implies(z3.Not(done), b.same(a, f)), patterns=[x[f]])))
            ad = q('a')
            out.append(('values unchanged', z3.ForAll([ad], h.val[ad] == g.val[ad], patterns=[h.val[ad]])))
            for on in ([c.a(1)] if len(c.args) > 1 else []):
                out.append(('released so far', z3.ForAll([ad], h.alive[ad] == z3.And(g.alive[ad], z3.Not(z3.And(on, dv.owned(o, ad), dv.OWNI(o.arr, o.n, ad) < t))), patterns=[h.alive[ad]])))
                out.append(('releases so far', h.count == g.count - z3.If(on, dv.NN(o.arr, t), 0)))
                for hv, e in lc.vecs():
                    if hv.et[0] == 'ptr' and not hv.arr.eq(e.arr):
                        out.append(('slots', hv.len == o.n))
                        out.append(('emptied so far', z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < o.n), hv.arr[i] == z3.If(z3.And(on, i < t), 0, o.arr[i])), patterns=[hv.arr[i]])))
        return out
    CS.add(Contract('MPS::Dump#const', requires=lambda c: full(c) + wf(d0(c), h0(c)), throws=cannot, exits=nodir, ensures=dumpall, modifies=[FH], hints=dumphints, sel=is_const))

    def dumprel(c):
        d, o, g, h = d1(c), d0(c), h0(c), h1(c)
        a, i = q('a'), q()
        on = c.a(1)
        return dumpall(c) + [('slots emptied exactly if asked to', z3.And(d.n == o.n, z3.ForAll([i], z3.Implies(inr(o, i), d.arr[i] == z3.If(on, 0, o.arr[i])), patterns=[d.arr[i]]))),
                             ('tensors released exactly if asked to', z3.ForAll([a], h.alive[a] == z3.And(g.alive[a], z3.Not(z3.And(on, dv.owned(o, a)))), patterns=[h.alive[a]])),
                             ('each released once', h.count == g.count - z3.If(on, dv.NN(o.arr, o.n), 0)), ('no tensor changed', z3.ForAll([a], h.val[a] == g.val[a], patterns=[h.val[a]]))]
    CS.add(Contract('MPS::Dump#release', requires=lambda c: full(c) + wf(d0(c), h0(c)), throws=cannot, exits=nodir, ensures=dumprel, modifies=['this', H, FH], hints=dumphints, sel=lambda f: not is_const(f)))

    def missing(c):
        i = q()
        nm = NAME(c.a(0), i)
        return z3.Not(z3.ForAll([i], z3.Implies(inr(d0(c), i), f0(c).readable(nm)), patterns=[nm]))

    def loadall(c):
        d, o, g, h, a = d1(c), d0(c), h0(c), h1(c), f0(c)
        i = q()
        return [('same number of sites', d.n == o.n),
                ('every site holds the tensor of its file', z3.ForAll([i], z3.Implies(inr(o, i), z3.And(d.arr[i] != 0, h.alive[d.arr[i]], h.val[d.arr[i]] == a.held[NAME(c.a(0), i)])), patterns=[d.arr[i]])),
                ('old tensors released, one tensor per site', h.count == g.count - dv.NN(o.arr, o.n) + d.n)] + wf(d, h) + kept(g, h, lambda x: dv.owned(o, x))

    def loadhints(lc):
        c = lc.fctx
        o, g, a = d0(c), h0(c), f0(c)
        h = dv.Heap(c, lc.H)
        i, j = q(), q('j')
        out = kept(g, h, lambda x: dv.owned(o, x))
        for t in lc.ts:
            nm = NAME(c.a(0), i)
            out.append(('readable so far', z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < t), a.readable(nm)), patterns=[nm])))
            for hv, e in lc.vecs():
                if hv.et[0] == 'ptr' and not hv.arr.eq(e.arr):
                    d = dv.D.__new__(dv.D)
                    d.raw, d.n, d.arr = hv, hv.len, hv.arr
                    out.append(('slots', hv.len == o.n))
                    out += wf(d, h)
                    out.append(('loaded so far', z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < t), z3.And(d.arr[i] != 0, h.alive[d.arr[i]], h.val[d.arr[i]] == a.held[NAME(c.a(0), i)])), patterns=[d.arr[i]])))
                    out.append(('sites ahead', z3.ForAll([i], z3.Implies(z3.And(t <= i, i < o.n), d.arr[i] == o.arr[i]), patterns=[d.arr[i]])))
                    out.append(('new tensors are not among those of others', z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < t), z3.Or(z3.Not(g.alive[d.arr[i]]), dv.owned(o, d.arr[i]))), patterns=[d.arr[i]])))
                    out.append(('allocations so far', h.count == g.count - dv.NN(o.arr, t) + t))
        return out
    CS.add(Contract('MPS::Load', requires=lambda c: wf(d0(c), h0(c)) + [('sizes', d0(c).n < (1 << 55))], throws=missing, ensures=loadall, modifies=['this', H], hints=loadhints))

    # ---- one site of a matrix product state by directory
    CS.add(Contract('FiniteMPS::LoadTen', requires=lambda c: [rng(c, c.a(1))] + wf(d0(c), h0(c)), throws=lambda c: z3.Not(f0(c).readable(NAME(c.a(0), c.a(1)))),
                    ensures=lambda c: loaded(c, c.a(1), NAME(c.a(0), c.a(1))), modifies=['this', H]))
    CS.add(Contract('FiniteMPS::DumpTen', requires=lambda c: [rng(c, c.a(1)), alloc(c, c.a(1))] + wf(d0(c), h0(c)), throws=lambda c: z3.Not(f0(c).writable(NAME(c.a(0), c.a(1)))),
                    ensures=lambda c: dumped(c, NAME(c.a(0), c.a(1)), tens(c, c.a(1))) + freed(c, c.a(1), z3.BoolVal(False)), modifies=['this', H, FH]))

    canonical(CS, d0, d1, h0, h1, wf, kept, is_const, rng, alloc)


class Canon:
    """canonical form records of a state"""

    def __init__(self, c, v, st):
        self.d, self.h = dv.D(c, v, st), dv.Heap(c, st)
        self.types = c.nvec(v.f['tens_cano_type_'])
        self.center = v.f['center_']

    def label(self, i):
        return self.types.arr[i]

    def tensor(self, i):
        return self.h.val[self.d.arr[i]]

    def has(self, i):
        return z3.And(self.d.arr[i] != 0, self.h.alive[self.d.arr[i]], RANK(self.tensor(i)) == 3)

    def inv(self, only=None):
        """labels and center tell the truth"""
        i = q()
        t, n = self.types.arr, self.d.n
        ok = z3.And(0 <= i, i < n)
        F = lambda f: z3.ForAll([i], f, patterns=[t[i]])
        return [('a label per site', self.types.len == n),
                ('every label is one of the three', F(z3.Implies(ok, z3.Or(t[i] == NONE, t[i] == LEFT, t[i] == RIGHT)))),
                ('a site labelled left-canonical holds a left isometry', F(z3.Implies(z3.And(ok, t[i] == LEFT, self.d.arr[i] != 0), ISOL(self.tensor(i))))),
                ('a site labelled right-canonical holds a right isometry', F(z3.Implies(z3.And(ok, t[i] == RIGHT, self.d.arr[i] != 0), ISOR(self.tensor(i))))),
                ('the center is a site or unknown', z3.And(self.center >= -1, self.center < n)),
                ('sites left of the center are left-canonical', F(z3.Implies(z3.And(0 <= i, i < self.center), t[i] == LEFT))),
                ('sites right of the center are right-canonical', F(z3.Implies(z3.And(self.center >= 0, self.center < i, i < n), t[i] == RIGHT)))]

    def full(self, lo, hi):
        i = q()
        return z3.ForAll([i], z3.Implies(z3.And(lo <= i, i < hi), self.has(i)), patterns=[self.d.arr[i]])

    def state(self):
        return STATE(self.d.arr, self.h.val, self.d.n)


def canonical(CS, d0, d1, h0, h1, wf, kept, is_const, rng, alloc):
    N = 'FiniteMPS::'
    c0 = lambda c: Canon(c, c.this0, c.pre)
    c1 = lambda c: Canon(c, c.this1, c.post)
    helem = lambda addr: Place(H, (('h', addr),))
    slot = lambda c, i: c.thisp.ext(('f', 'raw_data_'), ('i', i))
    big = lambda c: ('sizes', z3.And(d0(c).n < (1 << 30)))
    base = lambda c: wf(d0(c), h0(c)) + c0(c).inv() + [big(c)]
    post = lambda c: wf(d1(c), h1(c)) + c1(c).inv()

    def labels(a, b, but=lambda i: z3.BoolVal(False)):
        i = q()
        return ('labels of the other sites unchanged', z3.And(b.types.len == a.types.len, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < a.d.n, z3.Not(but(i))), b.label(i) == a.label(i)), patterns=[b.types.arr[i]])))

    def others(a, b, but):
        i = q()
        return z3.And(b.d.n == a.d.n, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < a.d.n, z3.Not(but(i))), b.d.arr[i] == a.d.arr[i]), patterns=[b.d.arr[i]]))

    # ---- access
    def reset(c):
        a, b, i = c0(c), c1(c), c.a(0)
        return [('the accessed site counts as not canonical', b.label(i) == NONE), labels(a, b, lambda k: k == i), ('the center counts as unknown', b.center == -1)]
    CS.add(Contract(N + 'operator[]#const', requires=lambda c: [rng(c, c.a(0)), alloc(c, c.a(0))], retplace=lambda c: helem(d0(c).arr[c.a(0)]), sel=is_const))

    def still(c):
        pre = z3.And(*[f for _, f in c0(c).inv()])
        return [('if the records told the truth they still do: ' + l, z3.Implies(pre, f)) for l, f in c1(c).inv()]
    some = lambda c: [rng(c, c.a(0)), ('a label per site', c0(c).types.len == d0(c).n), big(c)]

    def setpost(c):
        d, o, g, h, i = d1(c), d0(c), h0(c), h1(c), c.a(0)
        n = d.arr[i]
        return reset(c) + [('other slots unchanged', dv.slots_kept(o, d, i)), ('slot not empty', n != 0), ('the element is live', h.alive[n]),
                           ('an allocated slot keeps its element', z3.Implies(o.arr[i] != 0, z3.And(n == o.arr[i], h.alive == g.alive, h.val == g.val, h.count == g.count)))] + kept(g, h) + wf(d, h) + still(c)
    CS.add(Contract(N + 'operator[]', requires=lambda c: some(c) + wf(d0(c), h0(c)), ensures=setpost, modifies=['this', H], retplace=lambda c: helem(d1(c).arr[c.a(0)]), sel=lambda f: not is_const(f)))
    CS.add(Contract(N + 'operator()#const', requires=lambda c: [rng(c, c.a(0))], ensures=lambda c: [('address in that slot', c.r == d0(c).arr[c.a(0)])], sel=is_const))
    CS.add(Contract(N + 'operator()', requires=some, ensures=lambda c: reset(c) + [('slots unchanged', dv.slots_kept(d0(c), d1(c)))] + still(c), modifies=['this'],
                    retplace=lambda c: slot(c, c.a(0)), sel=lambda f: not is_const(f)))

    # ---- one step
    def stepped(c, i, lab, other):
        """sites i, i+1 replaced"""
        a, b, g, h = c0(c), c1(c), h0(c), h1(c)
        two = lambda k: z3.Or(k == i, k == i + 1)
        l, r = (LEFT, NONE) if lab == 'L' else (NONE, RIGHT)
        return [('labels of the two sites', z3.And(b.label(i) == l, b.label(i + 1) == r)), labels(a, b, two), ('the center counts as unknown', b.center == -1),
                ('slots of the other sites unchanged', others(a, b, two)), ('both sites have a tensor', z3.And(b.has(i), b.has(i + 1))),
                ('no tensor of others is taken', z3.And(*[z3.Or(z3.Not(g.alive[b.d.arr[k]]), b.d.arr[k] == a.d.arr[i], b.d.arr[k] == a.d.arr[i + 1]) for k in (i, i + 1)])),
                ('nothing leaked', h.count == g.count)] + kept(g, h, lambda x: z3.And(x != 0, z3.Or(x == a.d.arr[i], x == a.d.arr[i + 1]))) + [
                ('the product of the two tensors is unchanged', CT(b.tensor(i), b.tensor(i + 1)) == CT(a.tensor(i), a.tensor(i + 1))),
                ('the state is unchanged', z3.And(STEP(a.d.arr, a.h.val, b.d.arr, b.h.val, a.d.n, i), b.state() == a.state()))] + post(c)
    CS.add(Contract(N + 'LeftCanonicalizeTen', requires=lambda c: base(c) + [('not the last site', z3.And(c.a(0) >= 0, c.a(0) + 1 < d0(c).n)), ('both tensors in memory', z3.And(c0(c).has(c.a(0)), c0(c).has(c.a(0) + 1)))],
                    ensures=lambda c: stepped(c, c.a(0), 'L', None), modifies=['this', H]))
    CS.add(Contract(N + 'RightCanonicalizeTen', requires=lambda c: base(c) + [('not the first site', z3.And(c.a(0) >= 1, c.a(0) < d0(c).n)), ('both tensors in memory', z3.And(c0(c).has(c.a(0)), c0(c).has(c.a(0) - 1)))],
                    ensures=lambda c: stepped(c, c.a(0) - 1, 'R', None), modifies=['this', H]))

    # ---- sweeps
    allin = lambda c: ('every tensor in memory', c0(c).full(0, d0(c).n))

    def swept(a, b, lo, hi):
        """sites outside lo..hi-1 untouched, the state kept; a before, b after"""
        out = lambda k: z3.And(lo <= k, k < hi)
        return [labels(a, b, out), ('slots of the other sites unchanged', others(a, b, out)), ('every tensor in memory', b.full(0, a.d.n)), ('nothing leaked', b.h.count == a.h.count),
                ('the state is unchanged', b.state() == a.state())] + kept(a.h, b.h, lambda x: dv.owned(a.d, x)) + [
                ('tensors of the other sites unchanged', samevals(a, b, out)), ('the center is unknown or as before', z3.Or(b.center == -1, b.center == a.center)), nottaken(a, b)]

    def nottaken(a, b):
        i = q()
        return ('no tensor of others is taken', z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < a.d.n), z3.Or(b.d.arr[i] == 0, z3.Not(a.h.alive[b.d.arr[i]]), dv.owned(a.d, b.d.arr[i]))), patterns=[b.d.arr[i]]))

    def samevals(a, b, out):
        i = q()
        return z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < a.d.n, z3.Not(out(i))), b.h.val[b.d.arr[i]] == a.h.val[a.d.arr[i]]), patterns=[b.d.arr[i]])

    def marked(b, lo, hi, lab):
        i = q()
        return z3.ForAll([i], z3.Implies(z3.And(lo <= i, i < hi), b.label(i) == lab), patterns=[b.types.arr[i]])

    def uniq(ts):
        out = []
        for t in ts:
            if not any(t.eq(o) for o in out) and not z3.is_int_value(t):
                out.append(t)
        return out

    def sweephints(left):
        def hints(lc):
            c = lc.fctx
            a = c0(c)
            b = Canon(c, c.ip.rv(lc.H, c.thisp), lc.H)
            n, s = a.d.n, c.a(0)
            out = wf(b.d, b.h) + b.inv()
            for t in uniq(list(lc.ts) + lc.ints()):
                if left:
                    out += [('site in reach', t <= s), ('left-canonical so far', marked(b, 0, t, LEFT)), ('left-canonical so far', marked(b, 0, t + 1, LEFT)), ('site in reach', t <= s + 1)]
                else:
                    out += [('site in reach', t >= s), ('right-canonical so far', marked(b, t + 1, n, RIGHT)), ('right-canonical so far', marked(b, t, n, RIGHT)), ('site in reach', t <= n), ('site in reach', t >= s - 1), ('site in reach', t < n)]
            out += swept(a, b, 0, s + 2) if left else swept(a, b, s - 1, n)
            return out
        return hints
    CS.add(Contract(N + 'LeftCanonicalize', requires=lambda c: base(c) + [allin(c), ('not the last site', z3.And(c.a(0) >= 0, c.a(0) + 1 < d0(c).n))],
                    ensures=lambda c: [('every site up to the given one is left-canonical', marked(c1(c), 0, c.a(0) + 1, LEFT))] + swept(c0(c), c1(c), 0, c.a(0) + 2) + post(c), modifies=['this', H], hints=sweephints(True)))
    CS.add(Contract(N + 'RightCanonicalize', requires=lambda c: base(c) + [allin(c), ('not the first site', z3.And(c.a(0) >= 1, c.a(0) < d0(c).n))],
                    ensures=lambda c: [('every site from the given one on is right-canonical', marked(c1(c), c.a(0), d0(c).n, RIGHT))] + swept(c0(c), c1(c), c.a(0) - 1, d0(c).n) + post(c), modifies=['this', H], hints=sweephints(False)))

    def centered(c):
        a, b = c0(c), c1(c)
        return [('the center is the given site', b.center == c.a(0)), ('every tensor in memory', b.full(0, a.d.n)), ('nothing leaked', z3.And(b.d.n == a.d.n, b.h.count == a.h.count)), ('the state is unchanged', b.state() == a.state())] + post(c) + [nottaken(a, b)] + kept(a.h, b.h, lambda x: dv.owned(a.d, x))
    CS.add(Contract(N + 'Centralize', requires=lambda c: base(c) + [allin(c), ('a site', z3.And(c.a(0) >= 0, c.a(0) < d0(c).n))], ensures=centered, modifies=['this', H]))

    # ---- reading the records
    CS.add(Contract(N + 'GetCenter', ensures=lambda c: [('the recorded center', c.r == c0(c).center)]))
    CS.add(Contract(N + 'GetTenCanoType', requires=lambda c: [('a labelled site', z3.And(c.a(0) >= 0, c.a(0) < c0(c).types.len))], ensures=lambda c: [('the recorded label', c.r == c0(c).label(c.a(0)))]))

    def gettypes(c):
        r, a = c.nvec(c.r), c0(c)
        i = q()
        return [('one label per site', r.len == a.types.len), ('the recorded labels', z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < r.len), r.arr[i] == a.label(i)), patterns=[r.arr[i]]))]
    CS.add(Contract(N + 'GetTensCanoType', ensures=gettypes))

    # ---- making and reversing
    def fresh_state(c):
        b = c1(c)
        i = q()
        return [('a slot per site', b.d.n == c.a(0).f['size']), ('all empty', z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < b.d.n), b.d.arr[i] == 0), patterns=[b.d.arr[i]])),
                ('no site is labelled', marked(b, 0, b.d.n, NONE)), ('the center is unknown', b.center == -1)] + post(c)
    CS.add(Contract(N + 'FiniteMPS#sites', requires=lambda c: [('sizes', c.a(0).f['size'] < (1 << 30))], ensures=fresh_state, modifies=['this'], sel=lambda f: len(ptypes(f)) == 1 and 'SiteVec' in show(ptypes(f)[0])))

    def reversed_(c):
        a, b = c0(c), c1(c)
        i = q()
        n = a.d.n
        return [('same number of sites', b.d.n == n), ('every tensor in memory', b.full(0, n)), ('sites in reverse order, each tensor reversed', z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), b.tensor(i) == REV(a.tensor(n - 1 - i))), patterns=[b.d.arr[i]])),
                ('nothing leaked', z3.And(b.h.count == a.h.count, b.h.alive == a.h.alive))] + post(c) + kept(a.h, b.h, lambda x: dv.owned(a.d, x))

    def revhints(lc):
        c = lc.fctx
        a = c0(c)
        b = Canon(c, c.ip.rv(lc.H, c.thisp), lc.H)
        n, i = a.d.n, q()
        out = [('a slot per site', b.d.n == n), ('a label per site', b.types.len == n), ('the center is unknown or as before', z3.Or(b.center == -1, b.center == a.center)), ('nothing leaked', b.h.alive == a.h.alive), ('nothing leaked', b.h.count == a.h.count), ('tensors unchanged', b.h.val == a.h.val)]
        inr_ = z3.And(0 <= i, i < n)
        F = lambda f: z3.ForAll([i], f, patterns=[b.d.arr[i]])
        out.append(('sites in reverse order', F(z3.Implies(inr_, b.d.arr[i] == a.d.arr[n - 1 - i]))))
        out.append(('sites in order', F(z3.Implies(inr_, b.d.arr[i] == a.d.arr[i]))))
        G = lambda f: z3.ForAll([i], z3.Implies(inr_, b.h.val[a.d.arr[i]] == f), patterns=[a.d.arr[i]])
        out.append(('all tensors reversed', G(REV(a.tensor(i)))))
        for t in uniq(list(lc.ts) + lc.ints()):
            out.append(('reversed from both ends', F(z3.Implies(inr_, b.d.arr[i] == z3.If(z3.Or(i < t, i >= n - t), a.d.arr[n - 1 - i], a.d.arr[i])))))
            out.append(('center forgotten', z3.Implies(t > 0, b.center == -1)))
            out.append(('labels forgotten', marked(b, 0, t, NONE)))
            out.append(('tensors reversed so far', G(z3.If(i < t, REV(a.tensor(i)), a.tensor(i)))))
            out.append(('tensors reversed so far', F(z3.Implies(inr_, b.tensor(i) == z3.If(i < t, REV(a.tensor(n - 1 - i)), a.tensor(n - 1 - i))))))
        out += kept(a.h, b.h, lambda x: dv.owned(a.d, x))
        out += [(l, f) for l, f in wf(b.d, b.h)]
        return out
    CS.add(Contract(N + 'Reverse', requires=lambda c: base(c) + [allin(c)], ensures=reversed_, modifies=['this', H], hints=revhints))
