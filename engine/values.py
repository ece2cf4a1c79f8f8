"""Symbolic values, places and states."""
import z3
import itertools
from ctypes_ import *

I = z3.IntSort()
B = z3.BoolSort()
_fresh = itertools.count()


def fresh(name, sort):
    return z3.Const('%s!%d' % (name, next(_fresh)), sort)


def fresh_name(p):
    return '%s!%d' % (p, next(_fresh))


def iv(n):
    return z3.IntVal(n)


class VRec:
    __slots__ = ('t', 'f')

    def __init__(self, t, f):
        self.t, self.f = t, f

    def __repr__(self):
        return '%s{%s}' % (show(self.t), ', '.join('%s=%r' % kv for kv in self.f.items()))


class VVec:
    __slots__ = ('et', 'len', 'arr')

    def __init__(self, et, ln, arr):
        self.et, self.len, self.arr = et, ln, arr

    def __repr__(self):
        return 'vec(%s;%s)' % (self.len, self.arr)


class VMap:
    __slots__ = ('kt', 'vt', 'dom', 'val')

    def __init__(self, kt, vt, dom, val):
        self.kt, self.vt, self.dom, self.val = kt, vt, dom, val

    def __repr__(self):
        return 'map(%s;%s)' % (self.dom, self.val)


class VPair:
    __slots__ = ('a', 'b')

    def __init__(self, a, b):
        self.a, self.b = a, b

    def __repr__(self):
        return 'pair(%r,%r)' % (self.a, self.b)


class VIter:
    """iterator: container place + position (rank for maps)"""
    __slots__ = ('place', 'idx', 'ct', 'ver')

    def __init__(self, place, idx, ct, ver=None):
        self.place, self.idx, self.ct, self.ver = place, idx, ct, ver

    def __repr__(self):
        return 'iter(%r,%s)' % (self.place, self.idx)


class VPtr:
    """pointer to a known place (this, &x, iterator->)"""
    __slots__ = ('place',)

    def __init__(self, place):
        self.place = place

    def __repr__(self):
        return 'ptr(%r)' % (self.place,)


class VRefProxy:
    """std::_Bit_reference"""
    __slots__ = ('place',)

    def __init__(self, place):
        self.place = place


class VList:
    """initializer list"""
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = items


class VLambda:
    __slots__ = ('node', 'env', 'this', 'caps')

    def __init__(self, node, env, this, caps):
        self.node, self.env, self.this, self.caps = node, env, this, caps


class VOpaque:
    """value whose content the model drops (streams, strings in messages)"""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t


class VVoid:
    pass


VOID = VVoid()


class Place:
    __slots__ = ('root', 'path')

    def __init__(self, root, path=()):
        self.root, self.path = root, path

    def ext(self, *p):
        return Place(self.root, self.path + p)

    def __repr__(self):
        return 'P(%s%s)' % (self.root, ''.join('.%s' % (str(x),) for x in self.path))


def same_place(a, b):
    if a.root != b.root or len(a.path) != len(b.path):
        return False
    for x, y in zip(a.path, b.path):
        if x[0] != y[0]:
            return False
        if len(x) > 1:
            if isinstance(x[1], str):
                if x[1] != y[1]:
                    return False
            elif not z3.eq(x[1], y[1]):
                return None
    return True


def place_eq(a, b):
    """formula: both places are the same object"""
    if not (isinstance(a, Place) and isinstance(b, Place)) or a.root != b.root or len(a.path) != len(b.path):
        return z3.BoolVal(False)
    out = []
    for x, y in zip(a.path, b.path):
        if x[0] != y[0]:
            return z3.BoolVal(False)
        if len(x) > 1:
            if isinstance(x[1], str) or isinstance(y[1], str):
                if x[1] != y[1]:
                    return z3.BoolVal(False)
            elif not z3.eq(x[1], y[1]):
                out.append(x[1] == y[1])
    return z3.And(*out) if out else z3.BoolVal(True)


class Sorts:
    """C++ type -> z3 sort; record layouts come from clang's own field lists."""

    def __init__(self, tu, opaque):
        self.tu = tu
        self.opaque = dict(opaque)   # rec name -> z3 sort
        self.cache = {}
        self.rings = set()
        self.dbl = z3.DeclareSort('Dbl')
        self.str = z3.DeclareSort('Str')

    def opaque_default(self, t):
        return z3.IntVal(0) if t[1] in self.rings else z3.Const('default_' + self.nm(t), self.opaque[t[1]])

    def fields(self, t):
        """[(name, type)] of a record including (flattened) bases"""
        name = t[1]
        r = self.tu.records.get(name)
        if r is None:
            raise Unsupported('record ' + name)
        out = []
        for b in r.get('bases', []):
            bt = parse(b['type'].get('desugaredQualType') or b['type']['qualType'])
            out += self.fields(bt)
        for c in r.inner:
            if c.get('kind') == 'FieldDecl':
                out.append((c['name'], of(c)))
        return out

    def sort(self, t):
        if t in self.cache:
            return self.cache[t]
        k = t[0]
        if k == 'int':
            s = I
        elif k == 'bool':
            s = B
        elif k == 'float':
            s = self.dbl
        elif k == 'str':
            s = self.str
        elif k == 'ptr':
            s = I
        elif k == 'vec':
            es = self.sort(t[1])
            n = self.nm(t)
            d = z3.Datatype(n)
            d.declare('mk_' + n, ('len_' + n, I), ('arr_' + n, z3.ArraySort(I, es)))
            s = d.create()
        elif k == 'map':
            n = self.nm(t)
            ks, vs = self.sort(t[1]), self.sort(t[2])
            d = z3.Datatype(n)
            d.declare('mk_' + n, ('dom_' + n, z3.ArraySort(ks, B)), ('val_' + n, z3.ArraySort(ks, vs)))
            s = d.create()
        elif k == 'pair':
            n = self.nm(t)
            d = z3.Datatype(n)
            d.declare('mk_' + n, ('p1_' + n, self.sort(t[1])), ('p2_' + n, self.sort(t[2])))
            s = d.create()
        elif k == 'rec':
            if t[1] in self.opaque:
                s = self.opaque[t[1]]
            else:
                n = self.nm(t)
                fs = self.fields(t)
                d = z3.Datatype(n)
                d.declare('mk_' + n, *[('%s.%s' % (n, f), self.sort(ft)) for f, ft in fs])
                s = d.create()
        else:
            raise Unsupported('sort of %s' % (t,))
        self.cache[t] = s
        return s

    def nm(self, t):
        import re
        return re.sub(r'[^A-Za-z0-9]+', '_', show(t)).strip('_')

    # ---- structured values <-> terms -------------------------------------
    def pack(self, v, t):
        k = t[0]
        if isinstance(v, z3.ExprRef):
            return v
        s = self.sort(t)
        if isinstance(v, VVec):
            parts = [v.len, v.arr]
        elif isinstance(v, VMap):
            parts = [v.dom, v.val]
        elif isinstance(v, VPair):
            parts = [self.pack(v.a, t[1]), self.pack(v.b, t[2])]
        elif isinstance(v, VRec):
            parts = [self.pack(v.f[f], ft) for f, ft in self.fields(t)]
        else:
            raise Unsupported('pack %s as %s' % (type(v).__name__, t))
        # eta: a value put together from all components of x is x
        x = None
        for i, p in enumerate(parts):
            if not (z3.is_app(p) and p.num_args() == 1 and p.decl().eq(s.accessor(0, i)) and (x is None or x.eq(p.arg(0)))):
                break
            x = p.arg(0)
        else:
            if x is not None:
                return x
        return s.constructor(0)(*parts)

    def unpack(self, e, t):
        k = t[0]
        if k in ('int', 'bool', 'float', 'str', 'ptr'):
            return e
        s = self.sort(t)
        if k == 'rec' and t[1] in self.opaque:
            return e
        isc = z3.is_app(e) and e.decl().eq(s.constructor(0))

        def acc(i):
            return e.arg(i) if isc else s.accessor(0, i)(e)
        if k == 'vec':
            return VVec(t[1], acc(0), acc(1))
        if k == 'map':
            return VMap(t[1], t[2], acc(0), acc(1))
        if k == 'pair':
            return VPair(self.unpack(acc(0), t[1]), self.unpack(acc(1), t[2]))
        if k == 'rec':
            return VRec(t, {f: self.unpack(acc(i), ft) for i, (f, ft) in enumerate(self.fields(t))})
        raise Unsupported('unpack ' + str(t))

    def fresh(self, name, t):
        """fresh symbolic value of a type"""
        k = t[0]
        if k in ('int', 'bool', 'float', 'str', 'ptr'):
            return fresh(name, self.sort(t))
        if k == 'vec':
            return VVec(t[1], fresh(name + '.len', I), fresh(name + '.arr', z3.ArraySort(I, self.sort(t[1]))))
        if k == 'map':
            ks, vs = self.sort(t[1]), self.sort(t[2])
            return VMap(t[1], t[2], fresh(name + '.dom', z3.ArraySort(ks, B)), fresh(name + '.val', z3.ArraySort(ks, vs)))
        if k == 'pair':
            return VPair(self.fresh(name + '.1', t[1]), self.fresh(name + '.2', t[2]))
        if k == 'rec':
            if t[1] in self.opaque:
                return fresh(name, self.opaque[t[1]])
            return VRec(t, {f: self.fresh(name + '.' + f, ft) for f, ft in self.fields(t)})
        raise Unsupported('fresh ' + str(t))

    def range_facts(self, v, t, depth=0):
        """type-range facts that hold of any machine value"""
        k = t[0]
        out = []
        if k == 'int':
            bits, sg = t[1], t[2]
            lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if sg else (0, (1 << bits) - 1)
            out.append(z3.And(v >= lo, v <= hi))
        elif k == 'vec':
            out.append(z3.And(v.len >= 0, v.len <= (1 << 58)))
            p = z3.Int(fresh_name('p'))
            sub = self.range_facts(self.unpack(v.arr[p], t[1]), t[1], depth + 1)
            if sub:
                out.append(z3.ForAll([p], z3.And(*sub), patterns=[v.arr[p]]))
        elif k == 'map' and depth:
            pass                       # facts about the contents of maps stored in lists: left out (a weaker hypothesis)
        elif k == 'map':
            q = z3.Const(fresh_name('q'), self.sort(t[1]))
            sub = self.range_facts(self.unpack(v.val[q], t[2]), t[2], depth + 1)
            if sub:
                out.append(z3.ForAll([q], z3.And(*sub), patterns=[v.val[q]]))
        elif k == 'pair':
            out += self.range_facts(v.a, t[1], depth) + self.range_facts(v.b, t[2], depth)
        elif k == 'rec' and t[1] not in self.opaque:
            for f, ft in self.fields(t):
                out += self.range_facts(v.f[f], ft, depth)
        return out


class State:
    __slots__ = ('cells', 'types', 'frames', 'pc', 'abrupt', 'ghost', 'trace')

    def __init__(self):
        self.cells = {}
        self.types = {}
        self.frames = [{}]
        self.pc = []
        self.abrupt = None
        self.ghost = {}
        self.trace = ()

    def fork(self):
        s = State.__new__(State)
        s.cells = dict(self.cells)
        s.types = dict(self.types)
        s.frames = [dict(f) for f in self.frames]
        s.pc = list(self.pc)
        s.abrupt = self.abrupt
        s.ghost = dict(self.ghost)
        s.trace = self.trace
        return s

    def assume(self, *fs):
        for f in fs:
            if f is True or (isinstance(f, z3.ExprRef) and z3.is_true(f)):
                continue
            if z3.is_and(f):
                self.assume(*f.children())
            else:
                self.pc.append(f)

    def new_cell(self, v, t, hint='c'):
        cid = fresh_name(hint)
        self.cells[cid] = v
        self.types[cid] = t
        return Place(cid)


def leaves(v, path=()):
    """z3 leaves of a structured value: [(path, term)]"""
    if isinstance(v, z3.ExprRef):
        yield path, v
    elif isinstance(v, VVec):
        yield path + ('len',), v.len
        yield path + ('arr',), v.arr
    elif isinstance(v, VMap):
        yield path + ('dom',), v.dom
        yield path + ('val',), v.val
    elif isinstance(v, VPair):
        yield from leaves(v.a, path + ('a',))
        yield from leaves(v.b, path + ('b',))
    elif isinstance(v, VRec):
        for f, x in v.f.items():
            yield from leaves(x, path + (f,))
    elif isinstance(v, VIter):
        yield path + ('idx',), v.idx


def leaf_get(v, path):
    for p in path:
        if isinstance(v, VRec):
            v = v.f[p]
        else:
            v = getattr(v, p)
    return v


def leaf_set(v, path, term):
    if not path:
        return term
    p = path[0]
    if isinstance(v, VRec):
        f = dict(v.f)
        f[p] = leaf_set(f[p], path[1:], term)
        return VRec(v.t, f)
    if isinstance(v, VVec):
        return VVec(v.et, term if p == 'len' else v.len, term if p == 'arr' else v.arr)
    if isinstance(v, VMap):
        return VMap(v.kt, v.vt, term if p == 'dom' else v.dom, term if p == 'val' else v.val)
    if isinstance(v, VPair):
        return VPair(leaf_set(v.a, path[1:], term) if p == 'a' else v.a,
                     leaf_set(v.b, path[1:], term) if p == 'b' else v.b)
    if isinstance(v, VIter):
        return VIter(v.place, term, v.ct, v.ver)
    raise Unsupported('leaf_set')
