"""DuoVector: ownership of heap elements, slot contents."""
import z3
from values import *
from ctypes_ import *
from solver import *
from contract import *
from stdmodel import *

T = ('rec', 'VElem')
H = 'heap:' + show(T)
P = 'DuoVector::'
NN = z3.Function('NN', AI, I, I)            # non-null slots among the first n
OWNI = z3.Function('OWNI', AI, I, I, I)     # an index (< n) of a slot holding the address, if there is one
NW = z3.Function('NW', AI, AI, I, I)
PV = ('vec', ('ptr', T))


def setup(s):
    s.ip.heap_types = [T]
    a, b = z3.Const('a', AI), z3.Const('b', AI)
    n, m, i, v = z3.Ints('n m i v')
    FA = z3.ForAll
    d = NW(a, b, n)
    s.theory.add(['NN'], [
        FA([a, n], z3.Implies(n <= 0, NN(a, n) == 0), patterns=[NN(a, n)]),
        FA([a, n, m], z3.Implies(z3.And(n >= 0, m == n + 1), NN(a, m) == NN(a, n) + z3.If(a[n] != 0, 1, 0)), patterns=[z3.MultiPattern(NN(a, n), NN(a, m))]),
        # equal null patterns, equal count (the witness NW names a difference)
        FA([a, b, n], z3.Or(NN(a, n) == NN(b, n), z3.And(0 <= d, d < n, (a[d] == 0) != (b[d] == 0))), patterns=[z3.MultiPattern(NN(a, n), NN(b, n))]),
        FA([a, i, v, n], NN(z3.Store(a, i, v), n) == NN(a, n) + z3.If(z3.And(0 <= i, i < n), z3.If(v != 0, 1, 0) - z3.If(a[i] != 0, 1, 0), 0), patterns=[NN(z3.Store(a, i, v), n)]),
    ])
    k = OWNI(a, n, v)
    s.theory.add(['OWNI'], [
        FA([a, n, v, i], z3.Implies(z3.And(0 <= i, i < n, a[i] == v), z3.And(0 <= k, k < n, a[k] == v)), patterns=[z3.MultiPattern(OWNI(a, n, v), a[i])]),
    ])


def raw_name(c):
    fs = [f for f, ft in c.S.fields(c.this0.t) if f == 'raw_data_' or ft == PV]
    return 'raw_data_' if 'raw_data_' in fs else fs[0]


class D:
    """a container value"""

    def __init__(self, c, v, st):
        self.raw = c.nvec(field(v, 'raw_data_', PV, c.S))
        self.n, self.arr = self.raw.len, self.raw.arr


class Heap:
    def __init__(self, c, st):
        f = st.cells[H].f
        self.alive, self.val, self.count = c.named(f['alive']), c.named(f['val']), f['count']


def q(n='i'):
    return z3.Int(fresh_name(n))


def inr(d, i):
    return z3.And(0 <= i, i < d.n)


def owned(d, a):
    k = OWNI(d.arr, d.n, a)
    return z3.And(a != 0, 0 <= k, k < d.n, d.arr[k] == a)


def wf(d, h, what=''):
    i, j = q(), q('j')
    return [(what + 'every slot is empty or refers to a live element', z3.ForAll([i], z3.Implies(z3.And(inr(d, i), d.arr[i] != 0), h.alive[d.arr[i]]), patterns=[d.arr[i]])),
            (what + 'no two slots share an element', z3.ForAll([i, j], z3.Implies(z3.And(inr(d, i), inr(d, j), i != j, d.arr[i] != 0), d.arr[i] != d.arr[j]), patterns=[z3.MultiPattern(d.arr[i], d.arr[j])]))]


def apart(a, b):
    i, j = q(), q('j')
    return ('the two containers share no element', z3.ForAll([i, j], z3.Implies(z3.And(inr(a, i), inr(b, j), a.arr[i] != 0), a.arr[i] != b.arr[j]), patterns=[z3.MultiPattern(a.arr[i], b.arr[j])]))


def kept(h0, h1, but=None):
    """elements alive before (and not given up) are alive after, with the same value"""
    a = q('a')
    cond = h0.alive[a] if but is None else z3.And(h0.alive[a], z3.Not(but(a)))
    return [('elements of others stay alive', z3.ForAll([a], z3.Implies(cond, h1.alive[a]), patterns=[h1.alive[a]])),
            ('elements of others keep their value', z3.ForAll([a], z3.Implies(cond, h1.val[a] == h0.val[a]), patterns=[h1.val[a]]))]


def slots_kept(d0, d1, but=None):
    i = q()
    return z3.And(d1.n == d0.n, z3.ForAll([i], z3.Implies(z3.And(inr(d0, i), (i != but) if but is not None else True), d1.arr[i] == d0.arr[i]), patterns=[d1.arr[i]]))


def contracts(CS):
    d0 = lambda c: D(c, c.this0, c.pre)
    d1 = lambda c: D(c, c.this1, c.post)
    a0 = lambda c: D(c, c.a(0), c.pre)
    a1 = lambda c: D(c, c.a1(0), c.post)
    h0 = lambda c: Heap(c, c.pre)
    h1 = lambda c: Heap(c, c.post)
    isref = lambda f, rr: len(ptypes(f)) == 1 and ptypes(f)[0][0] == 'ref' and is_rref(f) == rr
    is_rref = lambda f: '&&' in [p for p in f.inner if p.get('kind') == 'ParmVarDecl'][0]['type']['qualType']
    is_const = lambda f: f['type']['qualType'].rstrip().endswith('const')

    def aliased(c):
        return isinstance(c.thisp, Place) and isinstance(c.args[0], Place) and c.thisp.root == c.args[0].root

    def allnull(d):
        i = q()
        return z3.ForAll([i], z3.Implies(inr(d, i), d.arr[i] == 0), patterns=[d.arr[i]])

    # ---- construction
    CS.add(Contract(P + 'DuoVector#size', ensures=lambda c: [('as many slots as requested', d1(c).n == c.a(0)), ('every slot empty', allnull(d1(c)))], modifies=['this'], sel=lambda f: len(ptypes(f)) == 1 and ptypes(f)[0][0] == 'int'))

    def copyof(c, d, s, hs, h):
        """slots of d are fresh copies of the slots of s (values in heap hs)"""
        i = q()
        return [('same number of slots', d.n == s.n),
                ('allocated exactly where the source is', z3.ForAll([i], z3.Implies(inr(s, i), (d.arr[i] == 0) == (s.arr[i] == 0)), patterns=[d.arr[i]])),
                ('equal elements', z3.ForAll([i], z3.Implies(z3.And(inr(s, i), s.arr[i] != 0), h.val[d.arr[i]] == hs.val[s.arr[i]]), patterns=[d.arr[i]]))]

    def copypost(c):
        d, s, g, h = d1(c), a0(c), h0(c), h1(c)
        i = q()
        return copyof(c, d, s, g, h) + [
            ('at fresh addresses', z3.ForAll([i], z3.Implies(z3.And(inr(d, i), d.arr[i] != 0), z3.Not(g.alive[d.arr[i]])), patterns=[d.arr[i]]))] + wf(d, h) + kept(g, h) + [
            ('nothing else allocated', h.count == g.count + NN(d.arr, d.n))]

    def spans(lc, n):
        """slots done so far: from the first on, or from the last down"""
        i = q()
        return [(iv(0), t, (lambda t: lambda i: z3.And(t <= i, i < n))(t)) for t in lc.ts] + \
               [(x, n, (lambda x: lambda i: z3.And(0 <= i, i < x))(x)) for x in lc.ints() if not any(x.eq(t) for t in lc.ts)]

    def copyhints(lc):
        c = lc.fctx
        out = []
        g = h0(c)
        h = Heap(c, lc.H)
        s = a0(c)
        out += kept(g, h)
        for hv, e in lc.vecs():
            if hv.et[0] != 'ptr' or e is None or hv.arr.eq(e.arr):
                continue
            d = D.__new__(D)
            d.raw, d.n, d.arr = hv, hv.len, hv.arr
            i, j = q(), q('j')
            out.append(('length', d.n == s.n))
            for lo, hi, rest in spans(lc, s.n):
                up = z3.And(lo <= i, i < hi)
                out.append(('copied where the source is allocated', z3.ForAll([i], z3.Implies(up, (d.arr[i] == 0) == (s.arr[i] == 0)), patterns=[d.arr[i]])))
                out.append(('copied elements', z3.ForAll([i], z3.Implies(z3.And(up, s.arr[i] != 0), h.val[d.arr[i]] == g.val[s.arr[i]]), patterns=[d.arr[i]])))
                out.append(('copied elements alive', z3.ForAll([i], z3.Implies(z3.And(up, d.arr[i] != 0), h.alive[d.arr[i]]), patterns=[d.arr[i]])))
                out.append(('at fresh addresses', z3.ForAll([i], z3.Implies(z3.And(up, d.arr[i] != 0), z3.Not(g.alive[d.arr[i]])), patterns=[d.arr[i]])))
                out.append(('distinct addresses', z3.ForAll([i, j], z3.Implies(z3.And(up, lo <= j, j < hi, i != j, d.arr[i] != 0), d.arr[i] != d.arr[j]), patterns=[z3.MultiPattern(d.arr[i], d.arr[j])])))
                out.append(('slots ahead empty', z3.ForAll([i], z3.Implies(rest(i), d.arr[i] == 0), patterns=[d.arr[i]])))
                out.append(('allocations so far', h.count == g.count + NN(d.arr, hi)))
                out.append(('allocations so far', h.count == g.count + NN(s.arr, hi) - NN(s.arr, lo)))
        return out
    CS.add(Contract(P + 'DuoVector#copy', requires=lambda c: wf(a0(c), h0(c)), ensures=copypost, modifies=['this', H], hints=copyhints, sel=lambda f: isref(f, False)))

    def released(d, g, h):
        a = q('a')
        return [('exactly the elements owned before are released', z3.ForAll([a], h.alive[a] == z3.And(g.alive[a], z3.Not(owned(d, a))), patterns=[h.alive[a]])),
                ('each released once', h.count == g.count - NN(d.arr, d.n)), ('values of the other elements unchanged', z3.ForAll([a], h.val[a] == g.val[a], patterns=[h.val[a]]))]

    def relhints(lc):
        c = lc.fctx
        g, h, d = h0(c), Heap(c, lc.H), d0(c)
        a = q('a')
        out = []
        for t in lc.ts:
            out.append(('released so far', z3.ForAll([a], h.alive[a] == z3.And(g.alive[a], z3.Not(z3.And(owned(d, a), OWNI(d.arr, d.n, a) < t))), patterns=[h.alive[a]])))
            out.append(('releases so far', h.count == g.count - NN(d.arr, t)))
        return out
    CS.add(Contract(P + '~DuoVector', requires=lambda c: wf(d0(c), h0(c)), ensures=lambda c: released(d0(c), h0(c), h1(c)), modifies=['this', H], hints=relhints))

    def assignpre(c):
        if aliased(c):
            return wf(d0(c), h0(c))
        return wf(d0(c), h0(c)) + wf(a0(c), h0(c), 'source: ') + [apart(d0(c), a0(c))]

    def same_heap(c):
        g, h = h0(c), h1(c)
        return [('no element created, released or changed', z3.And(h.alive == g.alive, h.val == g.val, h.count == g.count))]

    def assignpost(c):
        d, o, s, g, h = d1(c), d0(c), a0(c), h0(c), h1(c)
        if aliased(c):
            return [('slots unchanged', slots_kept(o, d))] + same_heap(c)
        i = q()
        return copyof(c, d, s, g, h) + [
            ('at addresses not in use by others', z3.ForAll([i], z3.Implies(z3.And(inr(d, i), d.arr[i] != 0), z3.Or(z3.Not(g.alive[d.arr[i]]), owned(o, d.arr[i]))), patterns=[d.arr[i]]))] + wf(d, h) + kept(g, h, lambda a: owned(o, a)) + [
            ('old elements released once, one new element per allocated slot', h.count == g.count - NN(o.arr, o.n) + NN(d.arr, d.n))]

    def assignhints(lc):
        c = lc.fctx
        g, h, o, s = h0(c), Heap(c, lc.H), d0(c), a0(c)
        E = Heap(c, lc.E)
        out = relhints(lc)
        out += kept(g, h, lambda a: owned(o, a))
        for hv, e in lc.vecs():
            if hv.et[0] != 'ptr' or e is None or hv.arr.eq(e.arr):
                continue
            d = D.__new__(D)
            d.raw, d.n, d.arr = hv, hv.len, hv.arr
            i, j = q(), q('j')
            out.append(('length', d.n == s.n))
            for lo, hi, rest in spans(lc, s.n):
                up = z3.And(lo <= i, i < hi)
                out.append(('copied where the source is allocated', z3.ForAll([i], z3.Implies(up, (d.arr[i] == 0) == (s.arr[i] == 0)), patterns=[d.arr[i]])))
                out.append(('copied elements', z3.ForAll([i], z3.Implies(z3.And(up, s.arr[i] != 0), h.val[d.arr[i]] == g.val[s.arr[i]]), patterns=[d.arr[i]])))
                out.append(('copied elements alive', z3.ForAll([i], z3.Implies(z3.And(up, d.arr[i] != 0), h.alive[d.arr[i]]), patterns=[d.arr[i]])))
                out.append(('at free addresses', z3.ForAll([i], z3.Implies(z3.And(up, d.arr[i] != 0), z3.Or(z3.Not(g.alive[d.arr[i]]), owned(o, d.arr[i]))), patterns=[d.arr[i]])))
                out.append(('distinct addresses', z3.ForAll([i, j], z3.Implies(z3.And(up, lo <= j, j < hi, i != j, d.arr[i] != 0), d.arr[i] != d.arr[j]), patterns=[z3.MultiPattern(d.arr[i], d.arr[j])])))
                out.append(('slots ahead empty', z3.ForAll([i], z3.Implies(rest(i), d.arr[i] == 0), patterns=[d.arr[i]])))
                out.append(('allocations so far', h.count == E.count + NN(d.arr, hi)))
                out.append(('allocations so far', h.count == E.count + NN(s.arr, hi) - NN(s.arr, lo)))
        return out
    CS.add(Contract(P + 'operator=#copy', requires=assignpre, ensures=assignpost, modifies=['this', H], aliases=[{0: 'this'}], hints=assignhints, sel=lambda f: isref(f, False)))

    def movedpost(c):
        return [('takes over all slots', slots_kept(a0(c), d1(c))), ('source gives up all slots', allnull(a1(c)))] + same_heap(c)
    CS.add(Contract(P + 'DuoVector#move', requires=lambda c: wf(a0(c), h0(c)), ensures=movedpost, modifies=['this', 0], sel=lambda f: isref(f, True)))

    def massignpost(c):
        if aliased(c):
            return [('slots unchanged', slots_kept(d0(c), d1(c)))] + same_heap(c)
        return [('takes over all slots', slots_kept(a0(c), d1(c))), ('source gives up all slots', allnull(a1(c)))] + released(d0(c), h0(c), h1(c))
    CS.add(Contract(P + 'operator=#move', requires=assignpre, ensures=massignpost, modifies=['this', 0, H], aliases=[{0: 'this'}], hints=relhints, sel=lambda f: isref(f, True)))

    # ---- slots
    rng = lambda c: ('slot exists', z3.And(c.a(0) >= 0, c.a(0) < d0(c).n))
    alloc = lambda c, i: ('slot allocated', z3.And(d0(c).arr[i] != 0, h0(c).alive[d0(c).arr[i]]))

    helem = lambda addr: Place(H, (('h', addr),))
    slot = lambda c, i: c.thisp.ext(('f', raw_name(c)), ('i', i))
    CS.add(Contract(P + 'operator[]#const', requires=lambda c: [rng(c), alloc(c, c.a(0))], retplace=lambda c: helem(d0(c).arr[c.a(0)]), sel=is_const))

    def setpost(c):
        d, o, g, h, i = d1(c), d0(c), h0(c), h1(c), c.a(0)
        n = d.arr[i]
        return [('other slots unchanged', slots_kept(o, d, i)), ('slot not empty', n != 0), ('the element is live', h.alive[n]),
                ('an allocated slot keeps its element', z3.Implies(o.arr[i] != 0, z3.And(n == o.arr[i], h.val[n] == g.val[n], h.count == g.count))),
                ('an empty slot gets a new default element', z3.Implies(o.arr[i] == 0, z3.And(z3.Not(g.alive[n]), h.val[n] == c.default(T), h.count == g.count + 1))),
                ('an allocated slot: nothing allocated or released', z3.Implies(o.arr[i] != 0, h.alive == g.alive)), ('an allocated slot: no element changed', z3.Implies(o.arr[i] != 0, h.val == g.val))] + kept(g, h) + wf(d, h)
    CS.add(Contract(P + 'operator[]', requires=lambda c: [rng(c)] + wf(d0(c), h0(c)), ensures=setpost, modifies=['this', H], retplace=lambda c: helem(d1(c).arr[c.a(0)]), sel=lambda f: not is_const(f)))
    CS.add(Contract(P + 'operator()#const', requires=lambda c: [rng(c)], ensures=lambda c: [('address in that slot', c.r == d0(c).arr[c.a(0)])], sel=is_const))

    CS.add(Contract(P + 'operator()', requires=lambda c: [rng(c)], ensures=lambda c: [('address in that slot', c.r == d0(c).arr[c.a(0)])], retplace=lambda c: slot(c, c.a(0)), sel=lambda f: not is_const(f)))
    for nm, ix in (('front', lambda c: z3.IntVal(0)), ('back', lambda c: d0(c).n - 1)):
        CS.add(Contract(P + nm, requires=lambda c, ix=ix: [('not without slots', d0(c).n > 0), alloc(c, ix(c))], retplace=lambda c, ix=ix: helem(d0(c).arr[ix(c)])))

    def cdatapost(c):
        r, o = c.nvec(c.r), d0(c)
        i = q()
        return [('one address per slot', r.len == o.n), ('the addresses in order', z3.ForAll([i], z3.Implies(inr(o, i), r.arr[i] == o.arr[i]), patterns=[r.arr[i]]))]
    CS.add(Contract(P + 'cdata', ensures=cdatapost))

    def allocpost(c):
        d, o, g, h, i = d1(c), d0(c), h0(c), h1(c), c.a(0)
        n = d.arr[i]
        a = q('a')
        return [('other slots unchanged', slots_kept(o, d, i)), ('a live default element', z3.And(n != 0, h.alive[n], h.val[n] == c.default(T))),
                ('old element released, one allocated', h.count == g.count + 1 - z3.If(o.arr[i] != 0, 1, 0)),
                ('not an element in use', z3.Or(z3.Not(g.alive[n]), n == o.arr[i]))] + kept(g, h, lambda a: z3.And(a == o.arr[i], a != 0)) + wf(d, h)
    CS.add(Contract(P + 'alloc', requires=lambda c: [rng(c)] + wf(d0(c), h0(c)), ensures=allocpost, modifies=['this', H]))

    def deallocpost(c):
        d, o, g, h, i = d1(c), d0(c), h0(c), h1(c), c.a(0)
        a = q('a')
        return [('other slots unchanged', slots_kept(o, d, i)), ('slot empty', d.arr[i] == 0), ('its element released once', h.count == g.count - z3.If(o.arr[i] != 0, 1, 0)),
                ('exactly its element released', z3.ForAll([a], h.alive[a] == z3.And(g.alive[a], z3.Not(z3.And(a != 0, a == o.arr[i]))), patterns=[h.alive[a]])),
                ('values of the other elements unchanged', z3.ForAll([a], h.val[a] == g.val[a], patterns=[h.val[a]]))]
    CS.add(Contract(P + 'dealloc', requires=lambda c: [rng(c), ('slot empty or live', z3.Or(d0(c).arr[c.a(0)] == 0, h0(c).alive[d0(c).arr[c.a(0)]]))], ensures=deallocpost, modifies=['this', H]))

    def clearhints(lc):
        c = lc.fctx
        out = relhints(lc)
        o, g, h = d0(c), h0(c), Heap(c, lc.H)
        a = q('a')
        out.append(('values unchanged', z3.ForAll([a], h.val[a] == g.val[a], patterns=[h.val[a]])))
        for hv, e in lc.vecs():
            if hv.et[0] != 'ptr' or e is None or hv.arr.eq(e.arr):
                continue
            i = q()
            out.append(('slots', hv.len == o.n))
            for t in lc.ts:
                out.append(('emptied so far', z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < o.n), hv.arr[i] == z3.If(i < t, 0, o.arr[i])), patterns=[hv.arr[i]])))
        return out
    CS.add(Contract(P + 'clear', requires=lambda c: wf(d0(c), h0(c)), ensures=lambda c: [('same slots', d1(c).n == d0(c).n), ('every slot empty', allnull(d1(c)))] + released(d0(c), h0(c), h1(c)), modifies=['this', H], hints=clearhints))
    CS.add(Contract(P + 'size', ensures=lambda c: [('number of slots', c.r == d0(c).n)]))

    def emptyhints(lc):
        o = d0(lc.fctx)
        i = q()
        return [('slots looked at are empty', z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < t), o.arr[i] == 0), patterns=[o.arr[i]])) for t in lc.ts]
    CS.add(Contract(P + 'empty', ensures=lambda c: [('true only when no slot is allocated', z3.Implies(c.r, allnull(d0(c)))), ('false only when a slot is allocated', z3.Implies(z3.Not(c.r), z3.Not(allnull(d0(c)))))], hints=emptyhints))
