"""Models of the standard library used by the code under contract.

These are contracts ASSUMED of libstdc++ (listed in the evidence as trusted): std::vector,
std::map, std::pair and the <algorithm> functions below.  Preconditions of the library
(index in range, iterator in range, ...) are generated as obligations of the caller.
"""
import z3
from values import *
from ctypes_ import *
from solver import *

WT = z3.DeclareSort('Weight')
AI = z3.ArraySort(I, I)
W = z3.Function('W', WT, I, I)                 # value an assignment gives to a coefficient label
SUM = z3.Function('SUM', WT, AI, I, I)         # sum over the first n labels
SUMDIFF = z3.Function('SUMDIFF', AI, AI, I, I)
PERM = z3.Function('PERM', AI, I, AI, I, B)    # std::is_permutation
CNT = z3.Function('CNT', I, WT)                # the assignment counting one label
FIRST = z3.Function('FIRST', AI, I, I, I)       # first position among the first n elements holding a value, n if none
ADIFF = z3.Function('ADIFF', AI, AI, I, I)        # a position where two lists differ, if any
ISLEAST = z3.Function('ISLEAST', AI, I, I, B)     # no element is smaller
LESSAT = z3.Function('LESSAT', AI, I, I, I)
RUN = z3.Function('RUN', I, AI)                    # x, x+1, x+2, ..
RANK = z3.Function('RANK', AI, I, I, I)         # number of the first n elements smaller than a value
ISPERM = z3.Function('ISPERM', AI, I, B)       # the first n elements are a permutation of 0..n-1
PERMDIFF = z3.Function('PERMDIFF', AI, I, AI, I, I)


def sum_axioms():
    w = z3.Const('w', WT)
    a, b, c = z3.Consts('a b c', AI)
    n, m, l, k, x = z3.Ints("n m l k x")
    d = SUMDIFF(a, b, n)
    FA = z3.ForAll
    mp = z3.MultiPattern
    return [
        FA([w, a, n], z3.Implies(n <= 0, SUM(w, a, n) == 0), patterns=[SUM(w, a, n)]),
        FA([w, a, n], z3.Implies(n == 1, SUM(w, a, n) == W(w, a[0])), patterns=[SUM(w, a, n)]),
        FA([w, a, n, m, x], z3.Implies(z3.And(n >= 0, m == n + 1), SUM(w, z3.Store(a, n, x), m) == SUM(w, a, n) + W(w, x)), patterns=[SUM(w, z3.Store(a, n, x), m)]),
        FA([w, a, n, m], z3.Implies(z3.And(n >= 0, m == n + 1), SUM(w, a, m) == SUM(w, a, n) + W(w, a[n])), patterns=[mp(SUM(w, a, n), SUM(w, a, m))]),
        # congruence (lemma sum-congruence)
        FA([w, a, b, n], z3.Or(SUM(w, a, n) == SUM(w, b, n), z3.And(d >= 0, d < n, a[d] != b[d])), patterns=[mp(SUM(w, a, n), SUM(w, b, n))]),
        # std::is_permutation: equal length and equal number of occurrences of every label,
        # equivalently equal weighted sums under every assignment
        FA([a, n, b, m, w], z3.Implies(PERM(a, n, b, m), z3.And(n == m, SUM(w, a, n) == SUM(w, b, m))), patterns=[mp(PERM(a, n, b, m), SUM(w, a, n)), mp(PERM(a, n, b, m), SUM(w, b, m))]),
        FA([a, n, b, m], z3.Implies(PERM(a, n, b, m), z3.And(n == m, z3.Implies(n == 1, a[0] == b[0]))), patterns=[PERM(a, n, b, m)]),
        FA([a, n, b, m], z3.Implies(z3.Not(PERM(a, n, b, m)), SUM(CNT(PERMDIFF(a, n, b, m)), a, n) != SUM(CNT(PERMDIFF(a, n, b, m)), b, m)), patterns=[PERM(a, n, b, m)]),
        FA([l, k], W(CNT(l), k) == z3.If(l == k, 1, 0), patterns=[W(CNT(l), k)]),
    ]


def sum_lemmas(ar):
    """induction steps behind the SUM facts used as axioms: (name, hyps, goal) with SUM left uninterpreted
    except for its two defining equations"""
    S = z3.Function('SUMdef', WT, AI, I, I)
    w = z3.Const('w', WT)
    a, b, c = z3.Consts('a b c', AI)
    n, m, i = z3.Ints('n m i')
    defn = [z3.ForAll([w, a], S(w, a, 0) == 0), z3.ForAll([w, a, n], z3.Implies(n >= 0, S(w, a, n + 1) == S(w, a, n) + W(w, a[n])), patterns=[S(w, a, n + 1)])]
    agree = lambda k: z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < k), a[i] == b[i]), patterns=[a[i]])
    cat = z3.And(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), c[i] == a[i]), patterns=[c[i]]))
    cat2 = lambda k: z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < k), c[n + i] == b[i]), patterns=[b[i]])
    return [
        ('sum-congruence base', defn, S(w, a, 0) == S(w, b, 0)),
        ('sum-congruence step', defn + [n >= 0, S(w, a, n) == S(w, b, n), a[n] == b[n]], S(w, a, n + 1) == S(w, b, n + 1)),
        ('sum-concat base', defn + [n >= 0, S(w, c, n) == S(w, a, n)], S(w, c, n + 0) == S(w, a, n) + S(w, b, 0)),
        ('sum-concat step', defn + [n >= 0, m >= 0, c[n + m] == b[m], S(w, c, n + m) == S(w, a, n) + S(w, b, m), S(w, c, (n + m) + 1) == S(w, c, n + m) + W(w, c[n + m])],
         S(w, c, n + m + 1) == S(w, a, n) + S(w, b, m + 1)),
    ]


class StdModel:
    def __init__(self, sorts):
        self.S = sorts
        self.ip = None
        self.eqpred = {}       # show(type) -> fn(a_packed, b_packed) -> Bool : meaning of operator==
        self.ltpred = {}
        self.theory = None
        self.mapf = {}
        self.used = set()
        self.opaque_fns = {}     # methods of opaque classes: name -> generator
        self.opaque_ops = {}     # operators whose first operand is an opaque class
        self.iter_fns = {}       # extra methods of library iterators modelled as positions
        self.fn_models = {}     # qualified name of a free function -> f(st, fn, args) -> generator of (state, result)
        self.is_file = lambda e: False     # output expression whose effect is modelled (not dropped)
        self.op_hooks = []       # f(st, name, ts, vals, e) -> generator or None

    # ------------------------------------------------------------- maps
    def mapfns(self, kt):
        ks = self.S.sort(kt)
        k = ks.name()
        if k not in self.mapf:
            ds = z3.ArraySort(ks, B)
            card = z3.Function('card_' + k, ds, I)
            keyat = z3.Function('keyat_' + k, ds, I, ks)
            rank = z3.Function('rank_' + k, ds, ks, I)
            self.mapf[k] = (card, keyat, rank)
            d = z3.Const('d', ds)
            r, r2 = z3.Ints('r r2')
            q = z3.Const('q', ks)
            FA = z3.ForAll
            ax = [
                FA([d], card(d) >= 0, patterns=[card(d)]),
                FA([d, r], z3.Implies(z3.And(0 <= r, r < card(d)), z3.And(d[keyat(d, r)], rank(d, keyat(d, r)) == r)), patterns=[keyat(d, r)]),
                FA([d, q], z3.Implies(d[q], z3.And(0 <= rank(d, q), rank(d, q) < card(d), keyat(d, rank(d, q)) == q)), patterns=[rank(d, q)]),
                FA([d, q], z3.Implies(d[q], z3.And(0 <= rank(d, q), rank(d, q) < card(d), keyat(d, rank(d, q)) == q)), patterns=[z3.MultiPattern(card(d), d[q])]),
                card(z3.K(ks, z3.BoolVal(False))) == 0,
                FA([d, q], z3.Implies(z3.Not(d[q]), card(z3.Store(d, q, z3.BoolVal(True))) == card(d) + 1), patterns=[card(z3.Store(d, q, z3.BoolVal(True)))]),
                FA([d, q], z3.Implies(d[q], z3.Store(d, q, z3.BoolVal(True)) == d), patterns=[card(z3.Store(d, q, z3.BoolVal(True)))]),
                FA([d], z3.Implies(card(d) == 0, d == z3.K(ks, z3.BoolVal(False))), patterns=[card(d)]),
            ]
            if ks == I:
                ax.append(FA([d, r, r2], z3.Implies(z3.And(0 <= r, r < r2, r2 < card(d)), keyat(d, r) < keyat(d, r2)), patterns=[z3.MultiPattern(keyat(d, r), keyat(d, r2))]))
            self.theory.add([card.name(), keyat.name(), rank.name()], ax)
        return self.mapf[k]

    def empty_vec(self, t):
        return VVec(t[1], iv(0), z3.Const('emptyarr_' + self.S.nm(t), z3.ArraySort(I, self.S.sort(t[1]))))

    def empty_map(self, t):
        ks = self.S.sort(t[1])
        self.mapfns(t[1])
        return VMap(t[1], t[2], z3.K(ks, z3.BoolVal(False)), z3.Const('emptyval_' + self.S.nm(t), z3.ArraySort(ks, self.S.sort(t[2]))))

    def new_facts(self, st, root, addr):
        return []

    def const_arr(self, et, v):
        return z3.K(I, self.S.pack(v, et))

    def fresh_arr(self, et, name='arr'):
        return fresh(name, z3.ArraySort(I, self.S.sort(et)))

    # ---------------------------------------------------------- equality
    def eq(self, st, a, b, t):
        """value of `a == b` for type t as a formula (user operator== via its spec predicate)"""
        k = t[0]
        if k in ('int', 'bool', 'ptr', 'str'):
            return a == b
        if k == 'float':
            return z3.Function('dbleq', self.S.dbl, self.S.dbl, B)(a, b)
        n = show(t)
        if n in self.eqpred:
            return self.eqpred[n](self.S.pack(a, t), self.S.pack(b, t))
        if k == 'vec':
            p = z3.Int(fresh_name('p'))
            a1, b1 = self.S.unpack(a.arr[p], t[1]), self.S.unpack(b.arr[p], t[1])
            sub = self.eq(st, a1, b1, t[1])
            d = fresh('vdiff', I)
            r = fresh('veq', B)
            e1, e2 = self.S.unpack(a.arr[d], t[1]), self.S.unpack(b.arr[d], t[1])
            st.assume(z3.Implies(r, z3.And(a.len == b.len, z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < a.len), sub), patterns=[a.arr[p], b.arr[p]] if not a.arr.eq(b.arr) else [a.arr[p]]))))
            st.assume(z3.Implies(z3.Not(r), z3.Or(a.len != b.len, z3.And(0 <= d, d < a.len, z3.Not(self.eq(st, e1, e2, t[1]))))))
            return r
        if k == 'pair':
            return z3.And(self.eq(st, a.a, b.a, t[1]), self.eq(st, a.b, b.b, t[2]))
        if k == 'map':
            q = z3.Const(fresh_name('q'), self.S.sort(t[1]))
            d = fresh('mdiff', self.S.sort(t[1]))
            r = fresh('meq', B)
            at = lambda m, x: self.S.unpack(m.val[x], t[2])
            st.assume(z3.Implies(r, z3.And(a.dom == b.dom, z3.ForAll([q], z3.Implies(a.dom[q], self.eq(st, at(a, q), at(b, q), t[2])), patterns=[a.val[q], b.val[q]]))))
            st.assume(z3.Implies(z3.Not(r), z3.Or(a.dom[d] != b.dom[d], z3.And(a.dom[d], z3.Not(self.eq(st, at(a, d), at(b, d), t[2]))))))
            return r
        raise Unsupported('equality of ' + n)

    # ------------------------------------------------------ construction
    def construct(self, st, t, ctor, args, e):
        ip = self.ip
        k = t[0]
        vals = [ip.rv(st, a) for a in args]
        vals = [v for v in vals if not (isinstance(v, VOpaque) and (v.t == ('defaultarg',) or 'allocator' in str(v.t) or v.t == ('alloc',)))]
        if k == 'opaque' or k == 'rec':
            if k == 'rec' and 'allocator' in t[1]:
                yield st, VOpaque(('alloc',))
                return
            yield st, VOpaque(('obj', show(t)))
            return
        if k in ('int', 'bool', 'float', 'ptr'):
            if not vals:
                yield from ip.default_value(st, t)
            elif isinstance(vals[0], VList):
                yield st, vals[0].items[0] if vals[0].items else iv(0)
            else:
                yield st, vals[0]
            return
        if k == 'str':
            if not vals:
                yield st, self.empty_str()
            elif self.seq() and len(vals) == 2 and all(isinstance(v, z3.ExprRef) and z3.is_int(v) for v in vals):
                yield st, self.rep(vals[0], vals[1])
            elif self.seq() and isinstance(vals[0], VList):
                r = z3.StringVal('')
                for x in vals[0].items:
                    r = z3.Concat(r, self.chr(x))
                yield st, r
            elif len(vals) == 1 and isinstance(vals[0], z3.ExprRef) and vals[0].sort() == self.S.str:
                yield st, vals[0]
            elif len(vals) == 1 and isinstance(vals[0], VOpaque) and vals[0].t[0] == 'strlit':
                yield st, self.strlit(vals[0].t[1])
            else:
                yield st, fresh('str', self.S.str)
            return
        if k == 'vec':
            self.used.add('std::vector')
            et = t[1]
            if not vals:
                yield st, self.empty_vec(t)
            elif isinstance(vals[0], VVec):
                v = vals[0]
                if '&&' in ctor and isinstance(args[0], Place):
                    # move construction: the source is left empty (libstdc++), address of storage moves
                    ip.set(st, args[0], self.empty_vec(t))
                yield st, v
            elif isinstance(vals[0], VList):
                arr = self.empty_vec(t).arr
                items = vals[0].items
                for i, x in enumerate(items):
                    arr = z3.Store(arr, i, self.S.pack(x, et))
                yield st, VVec(et, iv(len(items)), arr)
            elif isinstance(vals[0], VIter):
                a, b = vals[0], vals[1]
                src = ip.get(st, a.place)
                ip.oblige(st, 'vector(first,last): valid range', z3.And(0 <= a.idx, a.idx <= b.idx, b.idx <= src.len))
                arr = self.slice_arr(st, src, a.idx, b.idx)
                yield st, VVec(et, z3.simplify(b.idx - a.idx), arr)
            else:
                n = vals[0]
                if len(vals) == 1:
                    for s, d in ip.default_value(st, et):
                        yield s, VVec(et, n, self.const_arr(et, d))
                else:
                    yield st, VVec(et, n, self.const_arr(et, vals[1]))
            return
        if k == 'map':
            self.used.add('std::map')
            if not vals:
                yield st, self.empty_map(t)
            elif isinstance(vals[0], VMap):
                v = vals[0]
                if '&&' in ctor and isinstance(args[0], Place):
                    ip.set(st, args[0], self.empty_map(t))
                yield st, v
            elif isinstance(vals[0], VList) and not vals[0].items:
                yield st, self.empty_map(t)
            else:
                raise Unsupported('map constructor')
            return
        if k == 'pair':
            if len(vals) == 2:
                yield st, VPair(vals[0], vals[1])
            elif len(vals) == 1 and isinstance(vals[0], VPair):
                yield st, VPair(vals[0].a, vals[0].b)
            elif not vals:
                yield from ip.default_value(st, t)
            else:
                raise Unsupported('pair constructor')
            return
        if k == 'iter':
            yield st, vals[0]
            return
        if k == 'fn' or k == 'opaque':
            yield st, vals[0] if vals else VOpaque(t)
            return
        raise Unsupported('construct %s' % (t,))

    # strings: sequences of characters (z3's strings) where a unit asks for it, opaque values otherwise
    def seq(self):
        return self.S.str == z3.StringSort()

    def chr(self, c):
        c = z3.simplify(c) if isinstance(c, z3.ExprRef) else iv(c)
        if z3.is_int_value(c) and 0 <= c.as_long() < 128:
            return z3.StringVal(chr(c.as_long()))
        return z3.Function('CHR', I, self.S.str)(c)

    def rep(self, n, c):
        n = z3.simplify(n)
        if z3.is_int_value(n) and 0 <= n.as_long() < 8:
            r = z3.StringVal('')
            for _ in range(n.as_long()):
                r = z3.Concat(r, self.chr(c))
            return z3.simplify(r) if n.as_long() else r
        return z3.Function('REPSTR', I, I, self.S.str)(n, c)

    def tostr(self, st, v):
        """a string value, string literal or character as a string"""
        if isinstance(v, VOpaque) and v.t[0] == 'strlit':
            return self.strlit(v.t[1])
        if isinstance(v, z3.ExprRef) and v.sort() == self.S.str:
            return v
        if isinstance(v, z3.ExprRef) and z3.is_int(v):
            return self.chr(v)
        raise Unsupported('string operand %s' % (v,))

    def empty_str(self):
        return z3.StringVal('') if self.seq() else z3.Const('str_empty', self.S.str)

    def hooked(self, st, name, vals, t0):
        return name == 'operator>>' and isinstance(vals[0], VOpaque) and bool(self.op_hooks)

    def strlit(self, q):
        """value of a string literal (as clang prints it, with quotes)"""
        if self.seq():
            import ast
            return z3.StringVal(ast.literal_eval(q))
        return z3.Const('str_empty' if q == '""' else 'lit_' + q, self.S.str)

    def opaque_construct(self, st, t, args):
        raise Unsupported('construct opaque ' + show(t))

    def slice_arr(self, st, src, a, b):
        if z3.is_int_value(a) and a.as_long() == 0:
            return src.arr
        p = z3.Int(fresh_name('p'))
        arr = self.fresh_arr(src.et)
        st.assume(z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < b - a), arr[p] == src.arr[a + p]), patterns=[arr[p]]))
        return arr

    # ----------------------------------------------------------- methods
    def method(self, st, ct, name, pl, args, e):
        ip = self.ip
        k = ct[0]
        if isinstance(pl, VOpaque) or k in ('opaque',):
            if name in ('close', 'str', 'c_str', 'what', 'good', 'flush', 'precision'):
                yield st, VOpaque(('opaque-call', name))
                return
            raise Unsupported('method %s of opaque' % name)
        if k == 'iter' and name in self.iter_fns:
            yield from self.iter_fns[name](st, name, pl, args, e)
            return
        if k == 'bitref':
            if name.startswith('operator bool'):
                yield st, ip.rv(st, pl)
                return
            raise Unsupported('bit reference method ' + name)
        if k == 'vec':
            self.used.add('std::vector')
            yield from self.vec_method(st, ct, name, pl, args)
            return
        if k == 'map':
            self.used.add('std::map')
            yield from self.map_method(st, ct, name, pl, args)
            return
        if k == 'str' and self.seq():
            v = ip.rv(st, pl)
            if name in ('size', 'length'):
                yield st, z3.Length(v)
                return
            if name == 'empty':
                yield st, z3.Length(v) == 0
                return
            if name in ('push_back', 'append', 'operator+=', 'operator=', 'assign'):
                vs = [ip.rv(st, a) for a in args]
                vs = [x for x in vs if not (isinstance(x, VOpaque) and x.t == ('defaultarg',))]
                if len(vs) == 1:
                    x = self.tostr(st, vs[0])
                elif name == 'append' and len(vs) == 2 and all(z3.is_int(x) for x in vs):
                    x = self.rep(*vs)
                else:
                    raise Unsupported('string ' + name)
                ip.set(st, pl, x if name in ('operator=', 'assign') else z3.Concat(v, x))
                yield st, (VOID if name == 'push_back' else pl)
                return
            if name == 'clear':
                ip.set(st, pl, z3.StringVal(''))
                yield st, VOID
                return
            if name in ('reserve', 'shrink_to_fit'):
                yield st, VOID
                return
            if name == 'pop_back':
                ip.oblige(st, 'pop_back of a non-empty string', z3.Length(v) > 0)
                ip.set(st, pl, z3.SubString(v, 0, z3.Length(v) - 1))
                yield st, VOID
                return
            raise Unsupported('string method ' + name)
        if k == 'str':
            if name in ('size', 'length'):
                yield st, z3.Function('strlen', self.S.str, I)(ip.rv(st, pl))
                return
            if name == 'empty':
                yield st, z3.Function('strlen', self.S.str, I)(ip.rv(st, pl)) == 0
                return
            if name in ('at', 'operator[]', 'front'):
                v = ip.rv(st, pl)
                i = ip.rv(st, args[0]) if args else iv(0)
                ln = z3.Function('strlen', self.S.str, I)(v)
                r = z3.Function('strat', self.S.str, I, I)(v, i)
                if name == 'at':
                    for s, ok in ip.branch(st, z3.And(i >= 0, i < ln)):
                        if not ok:
                            s.abrupt = ('throw', None)
                        yield s, r
                else:
                    ip.oblige(st, 'string index in range', z3.And(i >= 0, i < ln))
                    yield st, r
                return
            raise Unsupported('string method ' + name)
        if k == 'rec' and ct[1] in self.opaque_fns:
            yield from self.opaque_fns[ct[1]](st, name, pl, args, e)
            return
        raise Unsupported('method %s of %s' % (name, show(ct)))

    def vec_method(self, st, ct, name, pl, args):
        ip = self.ip
        et = ct[1]
        v = ip.rv(st, pl)
        R = lambda a: ip.rv(st, a)
        if name == 'size':
            yield st, v.len
        elif name == 'empty':
            yield st, v.len == 0
        elif name in ('capacity',):
            yield st, fresh('capacity', I)
        elif name in ('reserve', 'shrink_to_fit'):
            yield st, VOID
        elif name in ('push_back', 'emplace_back'):
            if len(args) != 1:
                if name == 'emplace_back' and not args:
                    gen = list(ip.default_value(st, et))
                elif name == 'emplace_back':
                    gen = list(ip.construct_n(st, et, args)) if hasattr(ip, 'construct_n') else None
                    if gen is None:
                        raise Unsupported('emplace_back arity')
                else:
                    raise Unsupported('push_back arity')
            else:
                x = R(args[0])
                gen = None
                if et[0] == 'rec' and et[1] not in self.S.opaque and z3.is_expr(x) and z3.is_int(x) and name == 'emplace_back':
                    gen = ip.construct_n(st, et, args)
                    if gen is None:
                        raise Unsupported('emplace_back conversion')
                elif et[0] == 'rec' and isinstance(x, VRec) is False and not isinstance(x, z3.ExprRef):
                    raise Unsupported('emplace_back conversion')
                elif et[0] == 'rec' and et[1] not in self.S.opaque:
                    if not (isinstance(x, VRec)):
                        raise Unsupported('emplace_back conversion')
                    x = ip.slice(x, et)
                gen = gen or [(st, x)]
            for s, x in gen:
                v = ip.rv(s, pl)
                ip.set(s, pl, VVec(et, z3.simplify(v.len + 1), z3.Store(v.arr, v.len, self.S.pack(x, et))))
                n = ip.rv(s, pl)
                yield s, (pl.ext(('i', v.len)) if name == 'emplace_back' else VOID)
        elif name == 'pop_back':
            ip.oblige(st, 'pop_back of an empty vector', v.len > 0)
            ip.set(st, pl, VVec(et, z3.simplify(v.len - 1), v.arr))
            yield st, VOID
        elif name in ('front', 'back'):
            ip.oblige(st, name + ' of an empty vector', v.len > 0)
            yield st, pl.ext(('i', iv(0) if name == 'front' else z3.simplify(v.len - 1)))
        elif name == 'at':
            i = R(args[0])
            for s, ok in ip.branch(st, z3.And(i >= 0, i < v.len)):
                if not ok:
                    s.abrupt = ('throw', None)
                    yield s, None
                else:
                    yield s, pl.ext(('i', i))
        elif name in ('begin', 'cbegin'):
            yield st, VIter(pl, iv(0), ct)
        elif name in ('end', 'cend'):
            yield st, VIter(pl, v.len, ct)
        elif name == 'clear':
            ip.set(st, pl, VVec(et, iv(0), v.arr))
            yield st, VOID
        elif name == 'data':
            raise Unsupported('vector::data')
        elif name == 'resize':
            n = R(args[0])
            gen = [(st, R(args[1]))] if len(args) > 1 else list(ip.default_value(st, et))
            for s, d in gen:
                v = ip.rv(s, pl)
                p = z3.Int(fresh_name('p'))
                arr = self.fresh_arr(et)
                s.assume(z3.ForAll([p], z3.And(z3.Implies(z3.And(0 <= p, p < v.len), arr[p] == v.arr[p]), z3.Implies(p >= v.len, arr[p] == self.S.pack(d, et))), patterns=[arr[p]]))
                ip.set(s, pl, VVec(et, n, arr))
                yield s, VOID
        elif name == 'assign':
            a = R(args[0])
            if isinstance(a, VIter):
                b = R(args[1])
                src = ip.get(st, a.place)
                ip.oblige(st, 'assign(first,last): valid range', z3.And(0 <= a.idx, a.idx <= b.idx, b.idx <= src.len))
                ip.set(st, pl, VVec(et, z3.simplify(b.idx - a.idx), self.slice_arr(st, src, a.idx, b.idx)))
            else:
                ip.set(st, pl, VVec(et, a, self.const_arr(et, R(args[1]))))
            yield st, VOID
        elif name == 'erase':
            a = R(args[0])
            lo = a.idx
            hi = R(args[1]).idx if len(args) > 1 else a.idx + 1
            ip.oblige(st, 'erase: valid range', z3.And(0 <= lo, lo <= hi, hi <= v.len))
            n2 = z3.simplify(v.len - (hi - lo))
            if ip.solver.quick(st.pc, hi == v.len):
                ip.set(st, pl, VVec(et, lo, v.arr))
            else:
                p = z3.Int(fresh_name('p'))
                arr = self.fresh_arr(et)
                st.assume(z3.ForAll([p], z3.And(z3.Implies(p < lo, arr[p] == v.arr[p]), z3.Implies(p >= lo, arr[p] == v.arr[p + (hi - lo)])), patterns=[arr[p]]))
                ip.set(st, pl, VVec(et, n2, arr))
            yield st, VIter(pl, lo, ct)
        elif name == 'insert':
            pos = R(args[0])
            ip.oblige(st, 'insert: valid position', z3.And(0 <= pos.idx, pos.idx <= v.len))
            p = z3.Int(fresh_name('p'))
            arr = self.fresh_arr(et)
            q = z3.simplify(pos.idx)
            if len(args) == 2:
                x = R(args[1])
                st.assume(z3.ForAll([p], z3.And(z3.Implies(p < q, arr[p] == v.arr[p]), z3.Implies(p == q, arr[p] == self.S.pack(x, et)),
                                                z3.Implies(p > q, arr[p] == v.arr[p - 1])), patterns=[arr[p]]))
                ip.set(st, pl, VVec(et, z3.simplify(v.len + 1), arr))
            elif len(args) == 3 and isinstance(R(args[1]), VIter):
                a, b = R(args[1]), R(args[2])
                src = ip.get(st, a.place)
                if not z3.eq(a.place.root and src.arr, src.arr):
                    raise Unsupported('insert')
                ip.oblige(st, 'insert(first,last): valid range', z3.And(0 <= a.idx, a.idx <= b.idx, b.idx <= src.len))
                if a.place.root == pl.root and same_place(a.place, pl) is not False:
                    self.ip.assumed.add('libstdc++: vector::insert(end, own range) copies the old elements (self-insertion reached by x += x)')
                m = z3.simplify(b.idx - a.idx)
                st.assume(z3.ForAll([p], z3.And(z3.Implies(p < q, arr[p] == v.arr[p]), z3.Implies(z3.And(p >= q, p < q + m), arr[p] == src.arr[a.idx + (p - q)]),
                                                z3.Implies(p >= q + m, arr[p] == v.arr[p - m])), patterns=[arr[p]]))
                if arr.sort() == AI and z3.is_int_value(z3.simplify(a.idx)) and z3.simplify(a.idx).as_long() == 0 and ip.solver.quick(st.pc, q == v.len):
                    # lemma sum-concat
                    w = z3.Const(fresh_name('w'), WT)
                    st.assume(z3.ForAll([w], SUM(w, arr, z3.simplify(v.len + m)) == SUM(w, v.arr, v.len) + SUM(w, src.arr, m), patterns=[SUM(w, arr, z3.simplify(v.len + m))]))
                ip.set(st, pl, VVec(et, z3.simplify(v.len + m), arr))
            else:
                raise Unsupported('vector::insert form')
            yield st, VIter(pl, q, ct)
        elif name == 'operator[]':
            i = R(args[0])
            ip.oblige(st, 'vector index in range', z3.And(i >= 0, i < v.len))
            yield st, pl.ext(('i', i))
        elif name == 'swap':
            o = args[0]
            ov = R(o)
            ip.set(st, pl, ov)
            ip.set(st, o, v)
            yield st, VOID
        elif name == 'operator=':
            yield from self.assign(st, ct, pl, args[0])
        else:
            raise Unsupported('vector::' + name)

    def map_method(self, st, ct, name, pl, args):
        ip = self.ip
        kt, vt = ct[1], ct[2]
        v = ip.rv(st, pl)
        card, keyat, rank = self.mapfns(kt)
        R = lambda a: ip.rv(st, a)
        K = lambda a: self.S.pack(R(a), kt)
        if name == 'size':
            yield st, card(v.dom)
        elif name == 'empty':
            yield st, card(v.dom) == 0
        elif name in ('begin', 'cbegin'):
            yield st, VIter(pl, iv(0), ct, v.dom)
        elif name in ('end', 'cend'):
            yield st, VIter(pl, card(v.dom), ct, v.dom)
        elif name == 'find':
            k = K(args[0])
            r = fresh('found', I)
            st.assume(z3.Implies(v.dom[k], z3.And(r == rank(v.dom, k), r >= 0, r < card(v.dom), keyat(v.dom, r) == k)))
            st.assume(z3.Implies(z3.Not(v.dom[k]), r == card(v.dom)))
            yield st, VIter(pl, r, ct, v.dom)
        elif name == 'count':
            yield st, z3.If(v.dom[K(args[0])], iv(1), iv(0))
        elif name == 'contains':
            yield st, v.dom[K(args[0])]
        elif name == 'at':
            k = K(args[0])
            for s, ok in ip.branch(st, v.dom[k]):
                if not ok:
                    s.abrupt = ('throw', None)
                    yield s, None
                else:
                    yield s, pl.ext(('mv', k))
        elif name == 'operator[]':
            k = K(args[0])
            for s, ok in ip.branch(st, v.dom[k]):
                if ok:
                    yield s, pl.ext(('mv', k))
                else:
                    for s2, d in ip.default_value(s, vt):
                        v2 = ip.rv(s2, pl)
                        ip.set(s2, pl, VMap(kt, vt, z3.Store(v2.dom, k, z3.BoolVal(True)), z3.Store(v2.val, k, self.S.pack(d, vt))))
                        yield s2, pl.ext(('mv', k))
        elif name in ('insert', 'emplace', 'try_emplace', 'insert_or_assign'):
            if len(args) == 1:
                pr = R(args[0])
                if not isinstance(pr, VPair):
                    raise Unsupported('map::insert argument')
                k, x = self.S.pack(pr.a, kt), pr.b
            elif len(args) == 2 and name != 'insert' and not isinstance(R(args[0]), VIter):
                k, x = K(args[0]), R(args[1])
            elif len(args) == 2 and isinstance(R(args[0]), VIter) and isinstance(R(args[1]), VPair):
                pr = R(args[1])
                k, x = self.S.pack(pr.a, kt), pr.b
            else:
                raise Unsupported('map::%s form' % name)
            over = name == 'insert_or_assign'
            for s, had in ip.branch(st, v.dom[k]):
                v2 = ip.rv(s, pl)
                if not had:
                    ip.set(s, pl, VMap(kt, vt, z3.Store(v2.dom, k, z3.BoolVal(True)), z3.Store(v2.val, k, self.S.pack(x, vt))))
                elif over:
                    ip.set(s, pl, VMap(kt, vt, v2.dom, z3.Store(v2.val, k, self.S.pack(x, vt))))
                nv = ip.rv(s, pl)
                yield s, VPair(VIter(pl, rank(nv.dom, k), ct, nv.dom), z3.BoolVal(not had))
        elif name == 'clear':
            ip.set(st, pl, self.empty_map(ct))
            yield st, VOID
        elif name == 'operator=':
            yield from self.assign(st, ct, pl, args[0])
        elif name == 'erase':
            a = R(args[0])
            if isinstance(a, VIter):
                raise Unsupported('map::erase(iterator)')
            k = K(args[0])
            ip.set(st, pl, VMap(kt, vt, z3.Store(v.dom, k, z3.BoolVal(False)), v.val))
            yield st, z3.If(v.dom[k], iv(1), iv(0))
        else:
            raise Unsupported('map::' + name)

    def assign(self, st, t, pl, a):
        """container assignment; moved-from right operands are emptied (libstdc++)"""
        ip = self.ip
        v = ip.rv(st, a)
        if isinstance(v, VList):
            for s, x in self.construct(st, t, '', [v], None):
                ip.set(s, pl, x)
                yield s, pl
            return
        ip.set(st, pl, v)
        yield st, pl

    # --------------------------------------------------------- operators
    def operator(self, st, name, ts, vals, e):
        ip = self.ip
        t0 = ts[0]
        k = t0[0]
        R = lambda a: ip.rv(st, a)
        for h in self.op_hooks:
            g = h(st, name, ts, vals, e)
            if g is not None:
                yield from g
                return
        if k == 'rec' and t0[1] in self.opaque_ops and name in self.opaque_ops[t0[1]]:
            yield from self.opaque_ops[t0[1]][name](st, name, vals, e)
            return
        if k == 'rec' and t0[1] in self.S.rings:
            a = R(vals[0])
            b = R(vals[1]) if len(vals) > 1 else None
            if name in ('operator=', 'operator+=', 'operator-=', 'operator*='):
                r = b if name == 'operator=' else a + b if name == 'operator+=' else a - b if name == 'operator-=' else MUL(a, b)
                ip.set(st, vals[0], r)
                yield st, vals[0]
                return
            if name in ('operator+', 'operator-', 'operator*', 'operator==', 'operator!=') and b is not None:
                yield st, {'operator+': lambda: a + b, 'operator-': lambda: a - b, 'operator*': lambda: MUL(a, b), 'operator==': lambda: a == b, 'operator!=': lambda: a != b}[name]()
                return
            raise Unsupported('%s on a ring element' % name)
        if name == 'operator[]' and k in ('vec', 'map'):
            yield from (self.vec_method if k == 'vec' else self.map_method)(st, t0, name, ip.as_place(st, vals[0], t0), vals[1:])
            return
        if name == 'operator=':
            if k == 'bitref':
                p = vals[0]
                ip.set(st, p if isinstance(p, Place) else p.place, R(vals[1]))
                yield st, p
                return
            if k == 'iter':
                ip.set(st, vals[0], R(vals[1]))
                yield st, vals[0]
                return
            if k in ('vec', 'map'):
                src = vals[1]
                v = R(src)
                moved = self.is_move(e)
                if isinstance(v, VList):
                    yield from self.assign(st, t0, vals[0], v)
                    return
                same = isinstance(src, Place) and same_place(src, vals[0]) is True
                ip.set(st, vals[0], v)
                if moved and isinstance(src, Place) and not same:
                    ip.set(st, src, self.empty_vec(t0) if k == 'vec' else self.empty_map(t0))
                if moved and same:
                    # self-move leaves a vector valid but unspecified; libstdc++ empties it
                    ip.set(st, vals[0], self.empty_vec(t0) if k == 'vec' else self.empty_map(t0))
                yield st, vals[0]
                return
            if k == 'pair' or k == 'str' or (k == 'rec' and t0[1] in self.S.opaque):
                v = R(vals[1])
                if k == 'str' and self.seq():
                    v = self.tostr(st, v)
                if isinstance(v, VOpaque):
                    v = fresh('str', self.S.str)
                ip.set(st, vals[0], v)
                yield st, vals[0]
                return
            if isinstance(vals[0], VOpaque):
                yield st, vals[0]
                return
        if k == 'iter':
            yield from self.iter_op(st, name, vals, e)
            return
        if name in ('operator==', 'operator!='):
            a, b = R(vals[0]), R(vals[1])
            if k == 'vec' or k == 'map' or k == 'pair' or k == 'str' or (k == 'rec'):
                r = self.eq(st, a, b, t0)
                yield st, (r if name == 'operator==' else z3.Not(r))
                return
        if name in ('operator<', 'operator>', 'operator<=', 'operator>='):
            a, b = R(vals[0]), R(vals[1])
            if name in ('operator>', 'operator<='):
                a, b = b, a
            neg = name in ('operator<=', 'operator>=')
            r = self.lt(st, a, b, t0)
            yield st, (z3.Not(r) if neg else r)
            return
        if (k == 'str' or ts[-1][0] == 'str') and name in ('operator+', 'operator+=') and self.seq():
            r = z3.Concat(self.tostr(st, R(vals[0])), self.tostr(st, R(vals[1])))
            if name == 'operator+=':
                ip.set(st, vals[0], r)
                yield st, vals[0]
            else:
                yield st, r
            return
        if k == 'str' and name in ('operator+', 'operator+='):
            r = fresh('str', self.S.str)
            if name == 'operator+=':
                ip.set(st, vals[0], r)
                yield st, vals[0]
            else:
                yield st, r
            return
        raise Unsupported('%s on %s' % (name, show(t0)))

    def is_move(self, e):
        """does the selected operator= take an rvalue reference?"""
        if e is None:
            return False
        c = self.ip.callee_of(e)
        q = c.get('type', {}).get('qualType', '') + (c.get('referencedDecl', {}).get('type', {}).get('qualType', ''))
        return '&&' in q

    def lt(self, st, a, b, t):
        k = t[0]
        if k == 'int':
            return a < b
        n = show(t)
        if n in self.ltpred:
            return self.ltpred[n](self.S.pack(a, t), self.S.pack(b, t))
        if k == 'pair':
            return z3.Or(self.lt(st, a.a, b.a, t[1]), z3.And(z3.Not(self.lt(st, b.a, a.a, t[1])), self.lt(st, a.b, b.b, t[2])))
        if k in ('vec', 'map', 'str'):
            s = self.S.sort(t)
            return z3.Function('lexlt_' + self.S.nm(t), s, s, B)(self.S.pack(a, t), self.S.pack(b, t))
        raise Unsupported('order on ' + n)

    def iter_op(self, st, name, vals, e):
        ip = self.ip
        R = lambda a: ip.rv(st, a)
        a = R(vals[0])
        if not isinstance(a, VIter):
            raise Unsupported('iterator operand')

        def check_ver():
            if a.ct[0] == 'map':
                cur = ip.get(st, a.place)
                if not z3.eq(cur.dom, a.ver):
                    if not ip.solver.quick(st.pc, cur.dom == a.ver):
                        raise Unsupported('map iterator used after the key set changed')
                return cur
            return ip.get(st, a.place)
        if name in ('operator==', 'operator!=', 'operator<', 'operator-', 'operator>', 'operator<=', 'operator>=') and len(vals) == 2 and isinstance(R(vals[1]), VIter):
            b = R(vals[1])
            if same_place(a.place, b.place) is not True:
                raise Unsupported('iterators of different containers')
            if a.ct[0] == 'map' and not z3.eq(a.ver, b.ver) and not ip.solver.quick(st.pc, a.ver == b.ver):
                raise Unsupported('map iterators across a key-set change')
            r = {'operator==': lambda: a.idx == b.idx, 'operator!=': lambda: a.idx != b.idx, 'operator<': lambda: a.idx < b.idx, 'operator>': lambda: a.idx > b.idx,
                 'operator<=': lambda: a.idx <= b.idx, 'operator>=': lambda: a.idx >= b.idx, 'operator-': lambda: z3.simplify(a.idx - b.idx)}[name]()
            yield st, r
            return
        if name in ('operator++', 'operator--'):
            post = len(vals) == 2
            d = 1 if name == 'operator++' else -1
            n = VIter(a.place, z3.simplify(a.idx + d), a.ct, a.ver)
            ip.set(st, vals[0], n)
            yield st, (a if post else vals[0])
            return
        if name in ('operator*', 'operator->'):
            cur = check_ver()
            if a.ct[0] == 'vec':
                ip.oblige(st, 'iterator dereference in range', z3.And(a.idx >= 0, a.idx < cur.len))
                p = a.place.ext(('i', a.idx))
            else:
                card, keyat, rank = self.mapfns(a.ct[1])
                ip.oblige(st, 'iterator dereference in range', z3.And(a.idx >= 0, a.idx < card(cur.dom)))
                kk = keyat(cur.dom, a.idx)
                st.assume(cur.dom[kk], rank(cur.dom, kk) == a.idx)
                p = a.place.ext(('me', kk))
            yield st, (VPtr(p) if name == 'operator->' else p)
            return
        if name in ('operator+', 'operator-', 'operator+=', 'operator-='):
            off = R(vals[1])
            d = off if '+' in name else -off
            n = VIter(a.place, z3.simplify(a.idx + d), a.ct, a.ver)
            if name.endswith('='):
                ip.set(st, vals[0], n)
                yield st, vals[0]
            else:
                yield st, n
            return
        if name == 'operator[]':
            cur = check_ver()
            i = z3.simplify(a.idx + R(vals[1]))
            ip.oblige(st, 'iterator dereference in range', z3.And(i >= 0, i < cur.len))
            yield st, a.place.ext(('i', i))
            return
        raise Unsupported('iterator ' + name)

    # --------------------------------------------------------- functions
    def function(self, st, name, ts, vals, e):
        ip = self.ip
        R = lambda a: ip.rv(st, a)
        if name in ('move', 'forward', 'addressof', 'as_const', '__addressof'):
            yield st, (VPtr(vals[0]) if 'addressof' in name else vals[0])
            return
        if name == 'make_pair':
            yield st, VPair(R(vals[0]), R(vals[1]))
            return
        if name == 'get' and ts and ts[0][0] == 'pair':
            q = str(e.get('type'))
            raise Unsupported('std::get')
        if name == 'swap' and len(vals) == 2:
            a, b = vals
            pa = a if isinstance(a, Place) else a.place
            pb = b if isinstance(b, Place) else b.place
            va, vb = ip.get(st, pa), ip.get(st, pb)
            ip.set(st, pa, vb)
            ip.set(st, pb, va)
            yield st, VOID
            return
        if name in ('exit', '_Exit', 'abort', 'terminate', 'quick_exit'):
            st.abrupt = ('exit', None)
            yield st, None
            return
        if name in ('min', 'max', 'lowest') and not vals:
            t = parse(e['type'].get('desugaredQualType') or e['type']['qualType'])
            if t[0] != 'int':
                raise Unsupported('numeric_limits of a non-integer type')
            b = t[1] - 1 if t[2] else t[1]
            yield st, iv((1 << b) - 1 if name == 'max' else (-(1 << b) if t[2] else 0))
            return
        if name in ('min', 'max') and len(vals) == 2:
            a, b = R(vals[0]), R(vals[1])
            yield st, (z3.If(a < b, a, b) if name == 'min' else z3.If(a < b, b, a))
            return
        if name in ('begin', 'cbegin', 'end', 'cend', 'size', 'empty') and len(vals) == 1:
            yield from self.method(st, ts[0], name, ip.as_place(st, vals[0], ts[0]), [], e)
            return
        if name in ('distance',) and len(vals) == 2:
            a, b = R(vals[0]), R(vals[1])
            yield st, z3.simplify(b.idx - a.idx)
            return
        if name in ('next', 'prev'):
            a = R(vals[0])
            d = R(vals[1]) if len(vals) > 1 and not isinstance(vals[1], VOpaque) else iv(1)
            yield st, VIter(a.place, z3.simplify(a.idx + (d if name == 'next' else -d)), a.ct, a.ver)
            return
        if name in ('to_string',) and self.seq() and z3.is_int(R(vals[0])):
            yield st, z3.Function('ITOS', I, self.S.str)(R(vals[0]))
            return
        if name in ('to_string',):
            yield st, fresh('str', self.S.str)
            return
        if name == 'find' and len(vals) == 3:
            self.used.add('std::find')
            a, b = R(vals[0]), R(vals[1])
            x = R(vals[2])
            src = ip.get(st, a.place)
            et = src.et
            ip.oblige(st, 'find: valid range', z3.And(0 <= a.idx, a.idx <= b.idx, b.idx <= src.len))
            r = fresh('find', I)
            p = z3.Int(fresh_name('p'))
            st.assume(a.idx <= r, r <= b.idx)
            at = lambda i: self.S.unpack(src.arr[i], et)
            st.assume(z3.ForAll([p], z3.Implies(z3.And(a.idx <= p, p < r), z3.Not(self.eq(st, at(p), x, et))), patterns=[src.arr[p]]))
            st.assume(z3.Implies(r < b.idx, self.eq(st, at(r), x, et)))
            if et[0] == 'int':
                st.assume(z3.Implies(a.idx == 0, r == FIRST(src.arr, b.idx, x)))
                self.first_axioms()
            yield st, VIter(a.place, r, a.ct)
            return
        if name == 'is_permutation' and len(vals) == 4:
            self.used.add('std::is_permutation')
            a, b, c, d = [R(v) for v in vals]
            s1, s2 = ip.get(st, a.place), ip.get(st, c.place)
            zero = lambda x: z3.is_int_value(z3.simplify(x)) and z3.simplify(x).as_long() == 0
            if s1.arr.sort() != AI or not zero(a.idx) or not zero(c.idx):
                raise Unsupported('is_permutation form')
            ip.oblige(st, 'is_permutation: valid ranges', z3.And(b.idx >= 0, b.idx <= s1.len, d.idx >= 0, d.idx <= s2.len))
            yield st, PERM(s1.arr, b.idx, s2.arr, d.idx)
            return
        if name in ('sort', 'stable_sort') and len(vals) == 2:
            self.used.add('std::sort')
            a, b = R(vals[0]), R(vals[1])
            src = ip.get(st, a.place)
            et = src.et
            ip.oblige(st, 'sort: valid range', z3.And(0 <= a.idx, a.idx <= b.idx, b.idx <= src.len))
            arr = self.fresh_arr(et, 'sorted')
            sg = z3.Function(fresh_name('sigma'), I, I)
            p, q = z3.Ints('%s %s' % (fresh_name('p'), fresh_name('q')))
            inn = lambda i: z3.And(a.idx <= i, i < b.idx)
            tau = z3.Function(fresh_name('tau'), I, I)
            at = lambda i: self.S.unpack(arr[i], et)
            st.assume(z3.ForAll([p], z3.If(inn(p), z3.And(inn(sg(p)), arr[p] == src.arr[sg(p)], tau(sg(p)) == p), arr[p] == src.arr[p]), patterns=[arr[p]]))
            st.assume(z3.ForAll([p], z3.Implies(inn(p), z3.And(inn(tau(p)), sg(tau(p)) == p, arr[tau(p)] == src.arr[p])), patterns=[src.arr[p]]))
            st.assume(z3.ForAll([p, q], z3.Implies(z3.And(a.idx <= p, p < q, q < b.idx), z3.Not(self.lt(st, at(q), at(p), et))), patterns=[z3.MultiPattern(arr[p], arr[q])]))
            if et[0] == 'int':
                n = b.idx
                p, i, j = z3.Ints('%s %s %s' % (fresh_name('p'), fresh_name('i'), fresh_name('j')))
                distinct = z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), src.arr[i] != src.arr[j]))
                st.assume(z3.Implies(z3.And(a.idx == 0, distinct), z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < n), RANK(src.arr, n, arr[p]) == p), patterns=[arr[p]])))
                self.rank_axioms()
            ip.set(st, a.place, VVec(et, src.len, arr))
            yield st, VOID
            return
        if name in ('sort', 'stable_sort') and len(vals) == 3 and isinstance(vals[2], VLambda):
            yield from self.sort_by(st, vals[0], vals[1], vals[2])
            return
        if name == 'iota' and len(vals) == 3:
            self.used.add('std::iota')
            a, b, x = [R(v) for v in vals]
            src = ip.get(st, a.place)
            ip.oblige(st, 'iota: valid range', z3.And(0 <= a.idx, a.idx <= b.idx, b.idx <= src.len))
            p = z3.Int(fresh_name('p'))
            arr = self.fresh_arr(src.et, 'iota')
            st.assume(z3.ForAll([p], arr[p] == z3.If(z3.And(a.idx <= p, p < b.idx), x + (p - a.idx), src.arr[p]), patterns=[arr[p]]))
            ip.set(st, a.place, VVec(src.et, src.len, arr))
            yield st, VOID
            return
        if name == 'is_sorted' and len(vals) == 2:
            self.used.add('std::is_sorted')
            a, b = R(vals[0]), R(vals[1])
            src = ip.get(st, a.place)
            et = src.et
            ip.oblige(st, 'is_sorted: valid range', z3.And(0 <= a.idx, a.idx <= b.idx, b.idx <= src.len))
            at = lambda i: self.S.unpack(src.arr[i], et)
            p, q = z3.Ints('%s %s' % (fresh_name('p'), fresh_name('q')))
            d = fresh('unsorted', I)
            r = fresh('is_sorted', B)
            st.assume(z3.If(r, z3.ForAll([p, q], z3.Implies(z3.And(a.idx <= p, p < q, q < b.idx), z3.Not(self.lt(st, at(q), at(p), et))), patterns=[z3.MultiPattern(src.arr[p], src.arr[q])]),
                            z3.And(a.idx <= d, d + 1 < b.idx, self.lt(st, at(d + 1), at(d), et))))
            yield st, r
            return
        if name in ('equal',) and len(vals) == 3:
            a, b, c = [R(v) for v in vals]
            s1, s2 = ip.get(st, a.place), ip.get(st, c.place)
            raise Unsupported('std::equal')
        if name in ('fill',) and len(vals) == 3:
            a, b, x = [R(v) for v in vals]
            src = ip.get(st, a.place)
            ip.oblige(st, 'fill: valid range', z3.And(0 <= a.idx, a.idx <= b.idx, b.idx <= src.len))
            p = z3.Int(fresh_name('p'))
            arr = self.fresh_arr(src.et)
            st.assume(z3.ForAll([p], arr[p] == z3.If(z3.And(a.idx <= p, p < b.idx), self.S.pack(x, src.et), src.arr[p]), patterns=[arr[p]]))
            ip.set(st, a.place, VVec(src.et, src.len, arr))
            yield st, VOID
            return
        if name in ('copy',) and len(vals) == 3:
            a, b, c = [R(v) for v in vals]
            src, dst = ip.get(st, a.place), ip.get(st, c.place)
            n = b.idx - a.idx
            ip.oblige(st, 'copy: valid ranges', z3.And(0 <= a.idx, n >= 0, b.idx <= src.len, c.idx >= 0, c.idx + n <= dst.len))
            if same_place(a.place, c.place) is not False:
                # overlapping copy is allowed when the destination starts before the source
                ip.oblige(st, 'copy: overlapping destination does not start inside the source range', z3.Or(c.idx <= a.idx, c.idx >= b.idx))
            p = z3.Int(fresh_name('p'))
            arr = self.fresh_arr(dst.et)
            st.assume(z3.ForAll([p], arr[p] == z3.If(z3.And(c.idx <= p, p < c.idx + n), src.arr[a.idx + (p - c.idx)], dst.arr[p]), patterns=[arr[p]]))
            ip.set(st, c.place, VVec(dst.et, dst.len, arr))
            yield st, VIter(c.place, z3.simplify(c.idx + n), c.ct)
            return
        if name in ('any_of', 'all_of', 'none_of', 'for_each', 'find_if', 'count_if', 'transform', 'accumulate'):
            yield from self.hof(st, name, ts, vals, e)
            return
        raise Unsupported('function ' + str(name))

    def first_axioms(self):
        if getattr(self, '_first', False):
            return
        self._first = True
        a = z3.Const('a', AI)
        n, x, m = z3.Ints('n x m')
        f = FIRST(a, n, x)
        self.theory.add(['FIRST'], [z3.ForAll([a, n, x], z3.Implies(n >= 0, z3.And(f >= 0, f <= n, z3.Implies(f < n, a[f] == x))), patterns=[f]),
                                    z3.ForAll([a, n, x, m], z3.Implies(z3.And(0 <= m, m < n, a[m] == x), f <= m), patterns=[z3.MultiPattern(f, a[m])])])
        # two lists that agree give the same answers
        b = z3.Const('b', AI)
        d = ADIFF(a, b, n)
        differ = z3.And(0 <= d, d < n, a[d] != b[d])
        self.theory.add(['FIRST'], [z3.ForAll([a, b, n, m, x], z3.Or(n != m, FIRST(a, n, x) == FIRST(b, m, x), differ), patterns=[z3.MultiPattern(FIRST(a, n, x), FIRST(b, m, x))])])
        l, w = ISLEAST(a, n, x), LESSAT(a, n, x)
        self.theory.add(['ISLEAST'], [z3.ForAll([a, n, x, m], z3.Implies(z3.And(l, 0 <= m, m < n), a[m] >= x), patterns=[z3.MultiPattern(l, a[m])]),
                                      z3.ForAll([a, n, x], z3.Or(l, z3.And(0 <= w, w < n, a[w] < x)), patterns=[l]),
                                      z3.ForAll([a, b, n, x], z3.Or(ISLEAST(a, n, x) == ISLEAST(b, n, x), differ), patterns=[z3.MultiPattern(ISLEAST(a, n, x), ISLEAST(b, n, x))])])
        self.theory.add(['RUN'], [z3.ForAll([x, m], RUN(x)[m] == x + m, patterns=[RUN(x)[m]]),
                                  z3.ForAll([x, n, m], z3.Implies(n >= 0, FIRST(RUN(x), n, m) == z3.If(z3.And(x <= m, m < x + n), m - x, n)), patterns=[FIRST(RUN(x), n, m)]),
                                  z3.ForAll([x, n, m], z3.Implies(n >= 1, ISLEAST(RUN(x), n, m) == (m <= x)), patterns=[ISLEAST(RUN(x), n, m)])])

    def rank_axioms(self):
        if getattr(self, '_rank', False):
            return
        self._rank = True
        a = z3.Const('a', AI)
        n, x, y, i, j = z3.Ints('n x y i j')
        self.theory.add(['RANK'], [z3.ForAll([a, n, i, j], z3.Implies(z3.And(0 <= i, i < n, 0 <= j, j < n, RANK(a, n, a[i]) == RANK(a, n, a[j])), a[i] == a[j]), patterns=[z3.MultiPattern(RANK(a, n, a[i]), RANK(a, n, a[j]))])])
        self.ip.assumed.add('rank of an element (number of smaller elements): equal ranks of two elements of a list mean equal elements; position p of a list sorted strictly holds the element of rank p')

    def pure_lambda(self, st, lam, args):
        """value of a side-effect free single-path lambda on symbolic arguments; its obligations are collected with st's facts"""
        ip = self.ip
        rs = [(s, r) for s, r in ip.call_lambda(st, lam, args)]
        if len(rs) != 1 or rs[0][0].abrupt:
            raise Unsupported('lambda with several outcomes')
        return rs[0][0], ip.rv(rs[0][0], rs[0][1])

    def sort_by(self, st, va, vb, lam):
        """std::sort with a comparator"""
        ip = self.ip
        self.used.add('std::sort')
        a, b = ip.rv(st, va), ip.rv(st, vb)
        src = ip.get(st, a.place)
        et = src.et
        ip.oblige(st, 'sort: valid range', z3.And(0 <= a.idx, a.idx <= b.idx, b.idx <= src.len))
        inn = lambda i: z3.And(a.idx <= i, i < b.idx)
        s2 = st.fork()
        ks = [fresh('k', I) for _ in range(3)]
        xs = [fresh('x', self.S.sort(et)) for _ in range(3)]
        for k, x in zip(ks, xs):
            s2.assume(inn(k), src.arr[k] == x)
        n0 = len(s2.pc)
        cells = [s2.new_cell(self.S.unpack(x, et), et, 'cmp') for x in xs]
        s3, r01 = self.pure_lambda(s2, lam, [cells[0], cells[1]])
        # what the body added to the path condition are facts it has established (single path, obligations checked)
        rel = lambda u, v: z3.substitute(r01, (xs[0], u), (xs[1], v))
        x, y, z = xs
        inc = lambda u, v: z3.And(z3.Not(rel(u, v)), z3.Not(rel(v, u)))
        ip.oblige(s2, 'sort: comparator is a strict weak order', z3.And(z3.Not(rel(x, x)), z3.Implies(z3.And(rel(x, y), rel(y, z)), rel(x, z)), z3.Implies(z3.And(inc(x, y), inc(y, z)), inc(x, z))))
        arr = self.fresh_arr(et, 'sorted')
        sg = z3.Function(fresh_name('sigma'), I, I)
        tau = z3.Function(fresh_name('tau'), I, I)
        p, q = z3.Ints('%s %s' % (fresh_name('p'), fresh_name('q')))
        st.assume(z3.ForAll([p], z3.If(inn(p), z3.And(inn(sg(p)), arr[p] == src.arr[sg(p)], tau(sg(p)) == p), arr[p] == src.arr[p]), patterns=[arr[p]]))
        st.assume(z3.ForAll([p], z3.Implies(inn(p), z3.And(inn(tau(p)), sg(tau(p)) == p, arr[tau(p)] == src.arr[p])), patterns=[src.arr[p]]))
        st.assume(z3.ForAll([p, q], z3.Implies(z3.And(a.idx <= p, p < q, q < b.idx), z3.Not(rel(arr[q], arr[p]))), patterns=[z3.MultiPattern(arr[p], arr[q])]))
        if et[0] == 'int':
            n = b.idx
            i, j = z3.Ints('%s %s' % (fresh_name('i'), fresh_name('j')))
            ident = z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), src.arr[i] == i))
            st.assume(z3.Implies(z3.And(a.idx == 0, ident), ISPERM(arr, n)))
            st.assume(z3.Implies(z3.And(a.idx == 0, ident), z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < n), z3.And(tau(p) >= 0, tau(p) < n, arr[tau(p)] == p)), patterns=[tau(p)])))
            # comparator on keys K: a[x] < a[y]
            lt = r01
            if z3.is_app(lt) and lt.decl().kind() == z3.Z3_OP_LT and z3.is_select(lt.arg(0)) and z3.is_select(lt.arg(1)) and lt.arg(0).arg(0).eq(lt.arg(1).arg(0)) and lt.arg(0).arg(1).eq(x) and lt.arg(1).arg(1).eq(y):
                K = lt.arg(0).arg(0)
                distinct = z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), K[i] != K[j]))
                st.assume(z3.Implies(z3.And(a.idx == 0, ident, distinct), z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < n), RANK(K, n, K[arr[p]]) == p), patterns=[arr[p]])))
                self.rank_axioms()
        ip.set(st, a.place, VVec(et, src.len, arr))
        yield st, VOID

    def hof(self, st, name, ts, vals, e):
        """higher-order algorithms as loops over the iterator range"""
        ip = self.ip
        a, b = ip.rv(st, vals[0]), ip.rv(st, vals[1])
        ct = a.ct
        it = st.new_cell(a, ('iter', ct), 'hof_it')

        def finish(kind):
            return kind
        if name in ('any_of', 'all_of', 'none_of', 'find_if'):
            lam = vals[2]

            def iterate(s):
                cur = ip.get(s, it)
                for s2, more in ip.branch(s, cur.idx != b.idx):
                    if not more:
                        yield s2, 'done', None
                        continue
                    for s3, pl in self.iter_op(s2, 'operator*', [it], None):
                        for s4, r in ip.call_lambda(s3, lam, [pl]):
                            if s4.abrupt:
                                ab = s4.abrupt
                                s4.abrupt = None
                                yield s4, ab[0], ab[1]
                                continue
                            for s5, hit in ip.branch(s4, ip.rv(s4, r)):
                                stop = hit if name in ('any_of', 'none_of', 'find_if') else not hit
                                if stop:
                                    yield s5, 'return', ip.get(s5, it) if name == 'find_if' else z3.BoolVal(name == 'any_of')
                                else:
                                    c2 = ip.get(s5, it)
                                    ip.set(s5, it, VIter(c2.place, z3.simplify(c2.idx + 1), c2.ct, c2.ver))
                                    yield s5, 'next', None
            for s, k, v in ip.loop(st, iterate, name):
                if k == 'normal':
                    yield s, (b if name == 'find_if' else z3.BoolVal(name != 'any_of'))
                elif k == 'return':
                    yield s, v
                else:
                    s.abrupt = (k, v)
                    yield s, None
            return
        if name == 'transform' and len(vals) == 4 and isinstance(vals[3], VLambda):
            self.used.add('std::transform')
            o = ip.rv(st, vals[2])
            src, dst = ip.get(st, a.place), ip.get(st, o.place)
            n = b.idx - a.idx
            ip.oblige(st, 'transform: valid ranges', z3.And(0 <= a.idx, n >= 0, b.idx <= src.len, o.idx >= 0, o.idx + n <= dst.len))
            if same_place(a.place, o.place) is not False:
                raise Unsupported('transform in place')
            s2 = st.fork()
            k = fresh('k', I)
            s2.assume(a.idx <= k, k < b.idx)
            n0 = len(s2.pc)
            x = s2.new_cell(self.S.unpack(src.arr[k], src.et), src.et, 'elem')
            s3, r = self.pure_lambda(s2, vals[3], [x])
            r = self.S.pack(r, dst.et)
            arr = self.fresh_arr(dst.et, 'transformed')
            p = z3.Int(fresh_name('p'))
            st.assume(z3.ForAll([p], arr[p] == z3.If(z3.And(o.idx <= p, p < o.idx + n), z3.substitute(r, (k, a.idx + (p - o.idx))), dst.arr[p]), patterns=[arr[p]]))
            ip.set(st, o.place, VVec(dst.et, dst.len, arr))
            yield st, VIter(o.place, z3.simplify(o.idx + n), o.ct)
            return
        raise Unsupported('algorithm ' + name)
