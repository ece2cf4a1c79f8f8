"""CaseParamsParserBasic: typed access to the parameter section of a JSON document.

The JSON library is a dependency: its member functions have assumed contracts (below), stated
over an abstract document (kind, number, text, members, items)."""
import z3
import ctypes_
from values import *
from ctypes_ import *
from solver import *
from contract import *
from stdmodel import *

JN = 'nlohmann::json'
JT = ('rec', JN)
JV = ('vec', JT)
ctypes_.ALIASES['nlohmann::JIter'] = 'std::vector<nlohmann::json>::const_iterator'
ctypes_.ALIASES['JIter'] = 'std::vector<nlohmann::json>::const_iterator'
ctypes_.ALIASES['json'] = JN
CLS = 'CaseParamsParserBasic::'
NULL, OBJ, ARR, STRK, BOOL, SINT, UINT, FLT = range(8)
INT, SIZE, DBL, STR, BOO = ('int', 32, True), ('int', 64, False), ('float',), ('str',), ('bool',)


class J:
    """the abstract JSON document"""

    def __init__(self, S):
        self.S = S
        s, st = S.opaque[JN], S.str
        self.s, self.str = s, st
        F = z3.Function
        self.kind, self.int, self.len = F('KIND', s, I), F('JINT', s, I), F('JLEN', s, I)
        self.dbl, self.sv, self.bool = F('JDBL', s, S.dbl), F('JSTR', s, st), F('JBOOL', s, B)
        self.items = F('JITEMS', s, z3.ArraySort(I, s))
        self.has, self.mem, self.pos = F('HAS', s, st, B), F('MEM', s, st, s), F('JFIND', s, st, I)
        self.itod = F('ITOD', I, S.dbl)
        self.strlen, self.strat = F('strlen', st, I), F('strat', st, I, I)
        # files: readable, well-formed, the document in it
        self.opens, self.good, self.doc = F('OPENS', I, B), F('WELLFORMED', I, B), F('DOC', I, s)

    def axioms(self):
        j, k = z3.Const('j', self.s), z3.Const('k', self.str)
        FA, A = z3.ForAll, z3.And
        p, h = self.pos(j, k), self.has(j, k)
        return [
            FA([j], A(self.kind(j) >= 0, self.kind(j) <= 9, z3.Implies(self.kind(j) == UINT, A(self.int(j) >= 0, self.int(j) < 1 << 64)),
                      z3.Implies(self.kind(j) == SINT, A(self.int(j) >= -(1 << 63), self.int(j) < 1 << 63))), patterns=[self.kind(j)]),
            FA([j], self.len(j) >= 0, patterns=[self.len(j)]), FA([k], self.strlen(k) >= 0, patterns=[self.strlen(k)]),
            FA([j, k], z3.Implies(h, self.kind(j) == OBJ), patterns=[h]),
            FA([j, k], A(z3.Implies(h, A(p >= 0, p < self.len(j), self.items(j)[p] == self.mem(j, k))), z3.Implies(z3.Not(h), p == self.len(j))), patterns=[p])]

    def isint(self, j):
        return z3.Or(self.kind(j) == SINT, self.kind(j) == UINT)

    def num(self, j):
        return z3.Or(self.isint(j), self.kind(j) == FLT)

    def fits(self, j, t):
        lo, hi = (-(1 << (t[1] - 1)), (1 << (t[1] - 1)) - 1) if t[2] else (0, (1 << t[1]) - 1)
        return z3.And(self.int(j) >= lo, self.int(j) <= hi)

    # ---- what the property asks for: the value is of the kind, without any conversion
    def holds(self, j, t):
        k = t[0]
        if k == 'int':
            return z3.And(self.isint(j), self.fits(j, t))
        if k == 'float':
            return self.num(j)
        if k == 'str':
            return self.kind(j) == STRK
        if k == 'bool':
            return self.kind(j) == BOOL
        if k == 'vec':
            i = z3.Int(fresh_name('i'))
            x = self.items(j)[i]
            return z3.And(self.kind(j) == ARR, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < self.len(j)), self.holds(x, t[1])), patterns=[x]))
        raise Unsupported('no kind for ' + show(t))

    def val(self, j, t):
        k = t[0]
        if k == 'int':
            return self.int(j)
        if k == 'float':
            return z3.If(self.kind(j) == FLT, self.dbl(j), self.itod(self.int(j)))
        if k == 'str':
            return self.sv(j)
        if k == 'bool':
            return self.bool(j)
        raise Unsupported('no value for ' + show(t))

    def same(self, v, j, t):
        """the C++ value v is the JSON value j read as t"""
        if t[0] != 'vec':
            return v == self.val(j, t)
        i = z3.Int(fresh_name('i'))
        return z3.And(v.len == self.len(j), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < self.len(j)), v.arr[i] == self.S.pack(self.val(self.items(j)[i], t[1]), t[1])), patterns=[v.arr[i]]))

    # ---- what the library's get<T>() does (conversions included)
    def gettable(self, j, t):
        k = t[0]
        if k in ('int', 'float'):
            return z3.Or(self.num(j), z3.And(self.kind(j) == BOOL, z3.Function('BOOL_TO_' + re.sub(r'\W+', '_', show(t)), self.s, B)(j)))
        if k == 'vec':
            i = z3.Int(fresh_name('i'))
            x = self.items(j)[i]
            return z3.And(self.kind(j) == ARR, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < self.len(j)), self.gettable(x, t[1])), patterns=[x]))
        return self.holds(j, t)

    def got(self, j, t):
        k = t[0]
        if k == 'int':
            conv = z3.Function('CONV_%d%s' % (t[1], t[2]), self.s, I)(j)
            return z3.If(z3.And(self.isint(j), self.fits(j, t)), self.int(j), conv)
        if k == 'float':
            return z3.If(self.num(j), self.val(j, t), z3.Function('CONV_D', self.s, self.S.dbl)(j))
        return self.val(j, t)


import re


def setup(s):
    ip, M = s.ip, s.models
    j = s.J = J(s.sorts)
    ip.J = j
    s.theory.add(['KIND', 'HAS', 'JFIND', 'JLEN', 'strlen'], j.axioms())
    M.used.add('nlohmann::json (assumed contracts in contracts/parser.py: kind queries, member and item access, get<T> with its documented conversions, find/contains)')
    ip.assumed.add('std::ifstream: a file either opens or not; extraction of a JSON document either yields the document in the file or throws')

    def items(st, v):
        c = 'jitems:%d' % v.get_id()
        if c not in st.cells:
            st.cells[c] = VVec(JT, j.len(v), j.items(v))
            st.types[c] = JV
        return Place(c)

    def cell(st, v):
        return st.new_cell(v, JT, 'json')

    def key(st, a):
        v = ip.rv(st, a)
        if isinstance(v, VOpaque) and v.t[0] == 'strlit':
            return M.strlit(v.t[1])
        return v

    kinds = {'is_null': (NULL,), 'is_object': (OBJ,), 'is_array': (ARR,), 'is_string': (STRK,), 'is_boolean': (BOOL,), 'is_number': (SINT, UINT, FLT), 'is_number_integer': (SINT, UINT),
             'is_number_unsigned': (UINT,), 'is_number_float': (FLT,), 'is_structured': (OBJ, ARR), 'is_primitive': (NULL, STRK, BOOL, SINT, UINT, FLT, 8)}

    def elem(st, v, a, checked, pl, const):
        k = key(st, a)
        if isinstance(k, z3.ExprRef) and k.sort() == s.sorts.str:
            for s1, ok in ip.branch(st, j.has(v, k)):
                if ok:
                    yield s1, cell(s1, j.mem(v, k))
                elif checked:
                    s1.abrupt = ('throw', None)
                    yield s1, None
                elif const:
                    ip.oblige(s1, 'key exists', z3.BoolVal(False))
                else:
                    n, m = fresh('jsonins', j.s), fresh('jsonmem', j.s)
                    s1.assume(j.kind(m) == NULL, j.kind(n) == OBJ, j.has(n, k), j.mem(n, k) == m)
                    ip.set(s1, pl, n)
                    yield s1, cell(s1, m)
        elif z3.is_int(k):
            for s1, ok in ip.branch(st, z3.And(j.kind(v) == ARR, k >= 0, k < j.len(v))):
                if ok:
                    yield s1, cell(s1, j.items(v)[k])
                elif checked:
                    s1.abrupt = ('throw', None)
                    yield s1, None
                else:
                    ip.oblige(s1, 'index inside the JSON array', z3.BoolVal(False))
        else:
            raise Unsupported('JSON access by ' + str(k))

    def get(st, v, t):
        if t[0] == 'rec' and t[1] == JN:
            yield st, v
            return
        for s1, ok in ip.branch(st, j.gettable(v, t)):
            if not ok:
                s1.abrupt = ('throw', None)
                yield s1, None
            elif t[0] == 'vec':
                arr = M.fresh_arr(t[1])
                i = z3.Int(fresh_name('i'))
                s1.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < j.len(v)), arr[i] == s.sorts.pack(j.got(j.items(v)[i], t[1]), t[1])), patterns=[arr[i]]))
                yield s1, VVec(t[1], j.len(v), arr)
            else:
                r = j.got(v, t)
                s1.assume(*s.sorts.range_facts(r, t))
                yield s1, r

    def method(st, name, pl, args, e):
        v = ip.rv(st, pl)
        if name in kinds:
            yield st, z3.Or(*[j.kind(v) == k for k in kinds[name]])
        elif name in ('find',):
            yield st, VIter(items(st, v), j.pos(v, key(st, args[0])), JV)
        elif name in ('begin', 'cbegin', 'end', 'cend'):
            yield st, VIter(items(st, v), iv(0) if 'begin' in name else j.len(v), JV)
        elif name == 'contains':
            yield st, j.has(v, key(st, args[0]))
        elif name == 'count':
            yield st, z3.If(j.has(v, key(st, args[0])), 1, 0)
        elif name in ('at', 'operator[]'):
            q = e.inner[0].get('type', {}).get('qualType', '')
            yield from elem(st, v, args[0], name == 'at', pl, True)
        elif name == 'size':
            for s1, b in ip.branch(st, z3.Or(j.kind(v) == ARR, j.kind(v) == OBJ)):
                yield s1, (j.len(v) if b else z3.If(j.kind(v) == NULL, iv(0), iv(1)))
        elif name == 'empty':
            yield st, z3.If(z3.Or(j.kind(v) == ARR, j.kind(v) == OBJ), j.len(v) == 0, j.kind(v) == NULL)
        elif name == 'type_name':
            yield st, VOpaque(('strlit', 'type_name'))
        elif name == 'get':
            yield from get(st, v, of(e))
        elif name == 'get_to':
            t = ip.place_type(st, args[0])
            for s1, r in get(st, v, t):
                if not s1.abrupt:
                    ip.set(s1, args[0], r)
                yield s1, (None if s1.abrupt else args[0])
        else:
            raise Unsupported('json::' + name)
    M.opaque_fns[JN] = method

    def index(st, name, vals, e):
        pl = ip.as_place(st, vals[0], JT)
        callee = e.inner[0]
        while callee.get('kind') in ('ImplicitCastExpr', 'ParenExpr'):
            callee = callee.inner[0]
        const = callee.get('type', {}).get('qualType', '').rstrip().endswith('const')
        yield from elem(st, ip.rv(st, pl), vals[1], False, pl, const)
    M.opaque_ops[JN] = {'operator[]': index}

    def itvalue(st, name, pl, args, e):
        it = ip.rv(st, pl)
        src = ip.get(st, it.place)
        ip.oblige(st, 'iterator refers to an element', z3.And(it.idx >= 0, it.idx < src.len))
        yield st, it.place.ext(('i', it.idx))
    M.iter_fns['value'] = itvalue

    # ---- files
    oc = M.construct

    def construct(st, t, ctor, args, e):
        if t[0] == 'rec' and 'basic_ifstream' in t[1] and args:
            a = ip.rv(st, args[0])
            if isinstance(a, z3.ExprRef):
                yield st, VOpaque(('ifstream', a))
                return
        yield from oc(st, t, ctor, args, e)
    M.construct = construct
    om = M.method

    def meth(st, ct, name, pl, args, e):
        if isinstance(pl, VOpaque) and pl.t[0] == 'ifstream':
            a = pl.t[1]
            if name in ('good', 'is_open'):
                yield st, j.opens(a)
                return
            if name in ('fail', 'operator!'):
                yield st, z3.Not(j.opens(a))
                return
            if name == 'operator bool':
                yield st, j.opens(a)
                return
        yield from om(st, ct, name, pl, args, e)
    M.method = meth

    def extract(st, name, ts, vals, e):
        if name == 'operator>>' and isinstance(vals[0], VOpaque) and vals[0].t[0] == 'ifstream' and len(vals) == 2 and isinstance(vals[1], Place):
            return doext(st, vals)
    M.op_hooks.append(extract)

    def doext(st, vals):
        a = vals[0].t[1]
        for s1, ok in ip.branch(st, z3.And(j.opens(a), j.good(a))):
            if ok:
                ip.set(s1, vals[1], j.doc(a))
                yield s1, vals[0]
            else:
                s1.abrupt = ('throw', None)
                yield s1, None


def contracts(CS):
    JJ = lambda c: c.ip.J
    doc = lambda c: field(c.this0, 'case_params_', JT, c.S)
    key = lambda c: c.a(0)

    def there(c, t):
        j = JJ(c)
        return z3.And(j.has(doc(c), key(c)), j.holds(j.mem(doc(c), key(c)), t))

    def chars(c):
        j = JJ(c)
        v = j.sv(j.mem(doc(c), key(c)))
        return z3.If(j.strlen(v) == 0, iv(0), j.strat(v, 0))

    def value_is(c, v, t, char=False):
        j = JJ(c)
        return v == chars(c) if char else j.same(v, j.mem(doc(c), key(c)), t)

    def same_value(c, a, b, t):
        if t[0] != 'vec':
            return a == b
        i = z3.Int(fresh_name('i'))
        return z3.And(a.len == b.len, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < a.len), a.arr[i] == b.arr[i]), patterns=[a.arr[i]]))

    def loophints(t):
        """while items are read one after the other: those read so far are of the kind, and converted exactly"""
        def hints(lc):
            c = lc.fctx
            j = JJ(c)
            m = j.mem(doc(c), key(c))
            out = []
            for tt in lc.ts:
                i = z3.Int(fresh_name('i'))
                up = z3.And(0 <= i, i < tt)
                x = j.items(m)[i]
                out.append(('items so far are of the kind', z3.ForAll([i], z3.Implies(up, j.holds(x, t[1])), patterns=[x])))
                for hv, e in lc.vecs():
                    if e is None or hv.et != t[1] or hv.arr.eq(e.arr):
                        continue
                    out.append(('one value per item', hv.len == tt))
                    out.append(('values so far', z3.ForAll([i], z3.Implies(up, hv.arr[i] == c.S.pack(j.val(x, t[1]), t[1])), patterns=[hv.arr[i]])))
            return out
        return hints if t[0] == 'vec' else None

    VI, VS, VD = ('vec', INT), ('vec', SIZE), ('vec', DBL)
    for nm, t, ch in (('Int', INT, False), ('Double', DBL, False), ('Char', STR, True), ('Str', STR, False), ('Bool', BOO, False), ('IntVec', VI, False), ('SizeTVec', VS, False), ('DoubleVec', VD, False)):
        CS.add(Contract(CLS + 'Parse' + nm, exits=lambda c, t=t: z3.Not(there(c, t)), hints=loophints(t),
                        ensures=lambda c, t=t, ch=ch: [('the value in the file', value_is(c, c.r, t, ch))]))
        CS.add(Contract(CLS + 'Parse' + nm + 'Or', exits=lambda c, t=t: z3.And(JJ(c).has(doc(c), key(c)), z3.Not(there(c, t))), hints=loophints(t),
                        ensures=lambda c, t=t, ch=ch: [('the value in the file if the name is there', z3.Implies(JJ(c).has(doc(c), key(c)), value_is(c, c.r, t, ch))),
                                                       ('the default otherwise', z3.Implies(z3.Not(JJ(c).has(doc(c), key(c))), same_value(c, c.r, c.a(1), t)))]))
        CS.add(Contract(CLS + 'TryParse' + nm, modifies=[1], hints=loophints(t),
                        ensures=lambda c, t=t, ch=ch: [('succeeds only if the name holds a value of the kind', z3.Implies(c.r, there(c, t))),
                                                       ('succeeds whenever the name holds a value of the kind', z3.Implies(there(c, t), c.r)),
                                                       ('delivers the value in the file', z3.Implies(c.r, value_is(c, c.a1(1), t, ch))),
                                                       ('leaves the target alone on failure', z3.Implies(z3.Not(c.r), same_value(c, c.a1(1), c.a(1), t)))]))
    CS.add(Contract(CLS + 'Has', ensures=lambda c: [('exactly the names in the section', c.r == JJ(c).has(doc(c), key(c)))]))

    def section(c):
        return c.ip.models.strlit('"CaseParams"')
    CS.add(Contract(CLS + 'CaseParamsParserBasic', modifies=['this'],
                    requires=lambda c: [('a path is given', c.a(0) != 0)],
                    exits=lambda c: z3.Or(z3.Not(JJ(c).opens(c.a(0))), z3.And(JJ(c).good(c.a(0)), z3.Not(JJ(c).has(JJ(c).doc(c.a(0)), section(c))))),
                    throws=lambda c: z3.And(JJ(c).opens(c.a(0)), z3.Not(JJ(c).good(c.a(0)))),
                    ensures=lambda c: [('holds the parameter section of the document in the file', field(c.this1, 'case_params_', JT, c.S) == JJ(c).mem(JJ(c).doc(c.a(0)), section(c)))],
                    sel=lambda f: len(ptypes(f)) == 1 and ptypes(f)[0][0] == 'ptr'))

    # helpers (instantiated per type; the result type is the last parameter's)
    def held(f):
        t = ptypes(f)[-1]
        return t[1] if t[0] == 'ptr' else strip_ref(t)

    def holdhints(lc):
        c = lc.fctx
        j = JJ(c)
        t = held(c.fn)
        out = []
        if t[0] == 'vec':
            for tt in lc.ts:
                i = z3.Int(fresh_name('i'))
                x = j.items(c.a(0))[i]
                out.append(('items so far are of the kind', z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < tt), j.holds(x, t[1])), patterns=[x])))
        return out
    CS.add(Contract(CLS + 'HoldsType', hints=holdhints, ensures=lambda c: [('only for values of the kind', z3.Implies(c.r, JJ(c).holds(c.a(0), held(c.fn)))),
                                                                          ('for every value of the kind', z3.Implies(JJ(c).holds(c.a(0), held(c.fn)), c.r))],
                    sel=lambda f: len(ptypes(f)) == 2 and ptypes(f)[1][0] == 'ptr'))
