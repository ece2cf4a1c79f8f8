"""Symbolic interpreter over clang AST nodes: generates the verification conditions.

Every construct is interpreted by its C++ meaning over the models in stdmodel.py.
Anything not understood raises Unsupported (never silently skipped), except the
explicitly listed effect-free drops: stream insertions (operator<< on ostreams),
reserve(), casts to void and assert() (expanded to (void)0 under NDEBUG, the
build's own setting).
"""
import z3
from values import *
from ctypes_ import *
from solver import MUL, OFF, QUO, REM, _has_q

NORMAL, BREAK, CONT, RET, THROW, EXIT = 'normal', 'break', 'continue', 'return', 'throw', 'exit'
U64 = 1 << 64


class Obligation:
    __slots__ = ('fn', 'name', 'status', 'backend', 'time', 'detail', 'hyps', 'goal', 'trace', 'kind')

    def __init__(self, fn, name):
        self.fn, self.name = fn, name
        self.status = None
        self.backend = None
        self.time = 0
        self.detail = ''
        self.trace = ()
        self.kind = 'obligation'


class Interp:
    MAXDEPTH = 40

    def __init__(self, tu, sorts, solver, contracts, models):
        self.tu = tu
        self.S = sorts
        self.solver = solver
        self.contracts = contracts     # ContractSet
        self.models = models           # StdModel
        models.ip = self
        self.obls = []
        self.suppress = 0
        self.used = set()
        self.bypass = False
        self.fn = '?'
        self.depth = 0
        self.inlined = set()
        self.used_contracts = set()
        self.assumed = set()
        self.globals_init = {}
        self.hint_providers = []
        self.fctx = None
        self.default_cache = {}
        self.generic_hints = []
        self.loop_log = []
        self.loop_stack = []
        self.light = 0
        self.memo = []
        self.rejected = []

    # ------------------------------------------------------------ places
    def get(self, st, pl):
        if pl.root.startswith('heap:'):
            hv = st.cells[pl.root]
            et = st.types[pl.root][1]
            v = self.S.unpack(z3.Select(hv.f['val'], pl.path[0][1]), et)
            path = pl.path[1:]
        else:
            v = st.cells[pl.root]
            path = pl.path
        return self._walk(st, v, path)

    def _walk(self, st, v, path):
        for p in path:
            k = p[0]
            if k == 'f':
                v = v.f[p[1]]
            elif k == 'i':
                v = self.S.unpack(z3.Select(v.arr, p[1]), v.et)
            elif k == 'p1':
                v = v.a
            elif k == 'p2':
                v = v.b
            elif k == 'mk':      # key of map entry, value = key itself (const)
                v = p[1]
            elif k == 'mv':
                v = self.S.unpack(z3.Select(v.val, p[1]), v.vt)
            elif k == 'me':      # map entry as pair (key, mapped)
                v = VPair(self.S.unpack(p[1], v.kt), self.S.unpack(z3.Select(v.val, p[1]), v.vt))
            elif k == 'se':
                v = self.S.unpack(p[1], v.kt)
            else:
                raise Unsupported('path ' + str(p))
        return v

    def set(self, st, pl, val):
        if pl.root.startswith('heap:'):
            hv = st.cells[pl.root]
            et = st.types[pl.root][1]
            addr = pl.path[0][1]
            old = self.S.unpack(z3.Select(hv.f['val'], addr), et)
            new = self._upd(old, pl.path[1:], val, et)
            st.cells[pl.root] = VRec(hv.t, dict(hv.f, val=z3.Store(hv.f['val'], addr, self.S.pack(new, et))))
            return
        st.cells[pl.root] = self._upd(st.cells[pl.root], pl.path, val, st.types[pl.root])

    def _upd(self, v, path, val, t):
        if not path:
            return val
        p = path[0]
        k = p[0]
        if k == 'f':
            f = dict(v.f)
            f[p[1]] = self._upd(f[p[1]], path[1:], val, None)
            return VRec(v.t, f)
        if k == 'i':
            if len(path) == 1:
                new = val
            else:
                new = self._upd(self.S.unpack(z3.Select(v.arr, p[1]), v.et), path[1:], val, v.et)
            return VVec(v.et, v.len, z3.Store(v.arr, p[1], self.S.pack(new, v.et)))
        if k == 'p1':
            return VPair(self._upd(v.a, path[1:], val, None), v.b)
        if k == 'p2':
            return VPair(v.a, self._upd(v.b, path[1:], val, None))
        if k == 'mv' or (k == 'me' and len(path) > 1 and path[1][0] == 'p2'):
            rest = path[1:] if k == 'mv' else path[2:]
            if rest:
                new = self._upd(self.S.unpack(z3.Select(v.val, p[1]), v.vt), rest, val, v.vt)
            else:
                new = val
            return VMap(v.kt, v.vt, v.dom, z3.Store(v.val, p[1], self.S.pack(new, v.vt)))
        raise Unsupported('store path ' + str(p))

    def place_type(self, st, pl):
        """static type held at a place (None when unknown)"""
        if pl.root.startswith('heap:'):
            t = st.types[pl.root][1]
            path = pl.path[1:]
        else:
            t = st.types.get(pl.root)
            path = pl.path
        for p in path:
            if t is None:
                return None
            k = p[0]
            if k == 'f':
                t = dict(self.S.fields(t)).get(p[1])
            elif k == 'i':
                t = t[1]
            elif k == 'p1' or k == 'se':
                t = t[1]
            elif k == 'p2' or k == 'mv':
                t = t[2]
            elif k == 'me':
                t = ('pair', t[1], t[2])
            elif k == 'mk':
                t = t[1]
        return t

    def rv(self, st, v):
        """value of an lvalue-or-value"""
        if isinstance(v, Place):
            return self.get(st, v)
        if isinstance(v, VRefProxy):
            return self.get(st, v.place)
        return v

    def as_place(self, st, v, t):
        if isinstance(v, Place):
            return v
        if isinstance(v, VRefProxy):
            return v.place
        return st.new_cell(v, t, 'tmp')

    # -------------------------------------------------------- obligations
    def oblige(self, st, name, goal):
        goal = z3.BoolVal(goal) if isinstance(goal, bool) else goal
        if self.suppress:
            st.assume(goal)
            return True
        o = Obligation(self.fn, name)
        o.trace = st.trace
        o.hyps = list(st.pc)
        o.goal = goal
        o.status = None
        self.obls.append(o)
        st.assume(goal)

    def discharge(self, obls):
        """prove the obligations collected so far (each from the facts of its own path)"""
        todo = [o for o in obls if o.status is None]
        for o, (r, info, t) in zip(todo, self.solver.prove_many([(o.hyps, o.goal) for o in todo], deep=True, show=self._model_str)):
            o.time = t
            if r == 'proved':
                o.status, o.backend = 'discharged', info
                o.hyps = None
            else:
                o.status = 'failed' if r == 'failed' else 'unknown'
                o.detail = info

    def record(self, name, backend='z3-ematching'):
        o = Obligation(self.fn, name)
        o.status, o.backend = 'discharged', backend
        self.obls.append(o)

    def record_check(self, name, ok):
        o = Obligation(self.fn, name)
        o.status, o.backend = ('discharged', 'z3-sat') if ok else ('unknown', None)
        o.kind = 'check'
        if not ok:
            o.hyps, o.goal = [], None
        self.obls.append(o)

    def _model_str(self, m):
        try:
            out = []
            for d in m.decls()[:60]:
                s = str(m[d])
                if len(s) < 200:
                    out.append('%s = %s' % (d.name(), s))
            return '; '.join(out)
        except Exception:
            return 'model'

    def feasible(self, st):
        return self.solver.feasible(st.pc)

    def branch(self, st, c):
        """fork on boolean term c -> [(state, bool)]"""
        c = z3.simplify(c) if isinstance(c, z3.ExprRef) else z3.BoolVal(bool(c))
        if z3.is_true(c):
            return [(st, True)]
        if z3.is_false(c):
            return [(st, False)]
        out = []
        a = st.fork()
        a.assume(c)
        if self.feasible(a):
            out.append((a, True))
        b = st.fork()
        b.assume(z3.Not(c))
        if self.feasible(b):
            out.append((b, False))
        return out

    # -------------------------------------------------------- arithmetic
    def arith(self, st, op, a, b, t):
        if t[0] == 'float':
            f = z3.Function('dbl' + {'+': 'add', '-': 'sub', '*': 'mul', '/': 'div'}[op], self.S.dbl, self.S.dbl, self.S.dbl)
            return f(a, b)
        if t[0] != 'int':
            raise Unsupported('arith on ' + str(t))
        bits, sg = t[1], t[2]
        if op == '+':
            r = a + b
            for p, q in ((a, b), (b, a)):
                if z3.is_app(p) and p.decl().eq(MUL) and not sg:
                    # row-major offset shape: introduce off(c,x,y) for both readings of mul
                    st.assume(OFF(p.arg(1), p.arg(0), q) == r, OFF(p.arg(0), p.arg(1), q) == r)
        elif op == '-':
            r = a - b
        elif op == '*':
            if z3.is_int_value(z3.simplify(a)) or z3.is_int_value(z3.simplify(b)):
                r = z3.simplify(a) * b if z3.is_int_value(z3.simplify(a)) else a * z3.simplify(b)
            else:
                r = MUL(a, b)
        elif op in ('/', '%'):
            self.oblige(st, 'division by zero', b != 0)
            if z3.is_int_value(b):
                q, m = a / b, a % b
            else:
                q, m = QUO(a, b), REM(a, b)
                st.assume(OFF(b, q, m) == a)
                st.assume(z3.Implies(b > 0, z3.And(m >= 0, m < b, a == MUL(q, b) + m, z3.Implies(a >= 0, z3.And(q >= 0, q <= a)), z3.Implies(z3.And(a >= 0, a < b), z3.And(q == 0, m == a)),
                                                   z3.Implies(z3.And(a >= b, a < 2 * b), z3.And(q == 1, m == a - b)))))
            if sg and not self.solver.quick(st.pc, z3.And(a >= 0, b > 0)):
                raise Unsupported('signed division with possibly negative operand')
            return q if op == '/' else m
        else:
            raise Unsupported('arith ' + op)
        r = z3.simplify(r)
        if sg:
            self.assumed.add('signed machine arithmetic treated as mathematical (no overflow)')
            return r
        if z3.is_int_value(r):
            return iv(r.as_long() % (1 << bits))
        if op == '-':
            if self.solver.quick(st.pc, r >= 0):
                return r
            return z3.If(r >= 0, r, r + (1 << bits))
        # + and *: exact when provably in range, else modelled with one wrap for '+'
        if op == '+':
            if self.solver.quick(st.pc, r < (1 << bits)):
                return r
            isneg1 = any(z3.is_int_value(x) and x.as_long() > (1 << 62) for x in (a, b)) or self._mentions_wrap(a) or self._mentions_wrap(b)
            if isneg1:
                return z3.If(r < (1 << bits), r, r - (1 << bits))
            self.assumed.add('unsigned addition/multiplication does not exceed 2^64 (sizes and offsets of in-memory objects)')
            return r
        self.assumed.add('unsigned addition/multiplication does not exceed 2^64 (sizes and offsets of in-memory objects)')
        return r

    def _mentions_wrap(self, e):
        s = e.sexpr() if not z3.is_int_value(e) else ''
        return '18446744073709551616' in s

    def convert(self, st, v, frm, to):
        if to[0] == 'bool':
            if frm[0] == 'bool':
                return v
            if frm[0] == 'int' or frm[0] == 'ptr':
                if isinstance(v, VPtr):
                    return z3.BoolVal(True)
                return v != 0
        if to[0] == 'int':
            if frm[0] == 'bool':
                return z3.If(v, iv(1), iv(0))
            if frm[0] == 'int':
                fb, fs = frm[1], frm[2]
                tb, ts = to[1], to[2]
                if z3.is_int_value(v):
                    x = v.as_long() % (1 << tb)
                    if ts and x >= (1 << (tb - 1)):
                        x -= 1 << tb
                    return iv(x)
                if fs == ts and tb >= fb or (ts and not fs and tb > fb):
                    return v
                lo, hi = (-(1 << (tb - 1)), (1 << (tb - 1)) - 1) if ts else (0, (1 << tb) - 1)
                rng = z3.And(v >= lo, v <= hi)
                if self.solver.quick(st.pc, rng):
                    return v
                if tb >= fb and any(x in v.sexpr() for x in ('select', 'narrow')):
                    # read out of memory: a value of its own, so that it can take part in triggers
                    if self.solver.prove(st.pc, rng, timeout=1500)[0] == 'proved':
                        return v
                    r = fresh('conv', I)
                    st.assume(r == (z3.If(v > hi, v - (1 << tb), v) if ts else z3.If(v < 0, v + (1 << tb), v)))
                    return r
                if tb >= fb:
                    if ts:
                        return z3.If(v > hi, v - (1 << tb), v)
                    return z3.If(v < 0, v + (1 << tb), v)
                if self.solver.prove(st.pc, rng, timeout=1500)[0] == 'proved':
                    return v
                r = fresh('narrow', I)
                st.assume(r == z3.If(rng, v, ((v + (1 << (tb - 1))) % (1 << tb)) - (1 << (tb - 1)) if ts else v % (1 << tb)))
                return r
            if frm[0] == 'float':
                return z3.Function('dbl2int%d%s' % (to[1], to[2]), self.S.dbl, I)(v)
        if to[0] == 'float':
            if frm[0] == 'float':
                return v
            if frm[0] == 'int':
                return z3.Function('int2dbl', I, self.S.dbl)(v)
        raise Unsupported('convert %s -> %s' % (frm, to))

    # -------------------------------------------------------- expressions
    def bind(self, gen, f):
        for st, v in gen:
            if st.abrupt:
                yield st, None
            else:
                yield from f(st, v)

    def ev(self, e, st):
        k = e.get('kind')
        m = getattr(self, 'e_' + str(k), None)
        if m is None:
            raise Unsupported('expr %s' % k)
        return m(e, st)

    def evs(self, es, st):
        """evaluate a list of expressions left to right -> (state, [values])"""
        if not es:
            yield st, []
            return

        def go(i, st, acc):
            if i == len(es):
                yield st, acc
                return
            for s1, v in self.ev(es[i], st):
                if s1.abrupt:
                    yield s1, None
                else:
                    yield from go(i + 1, s1, acc + [v])
        yield from go(0, st, [])

    def evv(self, e, st):
        """evaluate to an rvalue"""
        for s, v in self.ev(e, st):
            yield s, (None if s.abrupt else self.rv(s, v))

    def e_IntegerLiteral(self, e, st):
        yield st, iv(int(e['value']))

    def e_CXXBoolLiteralExpr(self, e, st):
        yield st, z3.BoolVal(bool(e['value']))

    def e_CharacterLiteral(self, e, st):
        yield st, iv(int(e['value']))

    def e_CXXNullPtrLiteralExpr(self, e, st):
        yield st, iv(0)

    def e_GNUNullExpr(self, e, st):
        yield st, iv(0)

    def e_FloatingLiteral(self, e, st):
        yield st, z3.Const('dbl_' + e['value'], self.S.dbl)

    def e_StringLiteral(self, e, st):
        yield st, VOpaque(('strlit', e.get('value')))

    def _pass(self, e, st):
        return self.ev(e.inner[-1], st)

    e_ParenExpr = e_ExprWithCleanups = e_CXXBindTemporaryExpr = e_SubstNonTypeTemplateParmExpr = e_CXXRewrittenBinaryOperator = _pass

    def e_ConstantExpr(self, e, st):
        v = e.get('value')
        if of(e)[0] == 'bool' and v in ('true', 'false'):
            yield st, z3.BoolVal(v == 'true')
        else:
            yield from self.ev(e.inner[-1], st)

    def e_MaterializeTemporaryExpr(self, e, st):
        t = of(e)
        for s, v in self.ev(e.inner[0], st):
            if s.abrupt:
                yield s, None
            elif isinstance(v, (Place, VOpaque, VLambda)):
                yield s, v
            else:
                yield s, s.new_cell(v, strip_ref(t), 'tmp')

    def e_ImplicitCastExpr(self, e, st):
        ck = e.get('castKind')
        sub = e.inner[0]
        t = of(e)
        if ck == 'LValueToRValue':
            for s, v in self.ev(sub, st):
                yield s, (None if s.abrupt else self.rv(s, v))
            return
        if ck in ('NoOp', 'ConstructorConversion', 'UserDefinedConversion', 'UncheckedDerivedToBase', 'DerivedToBase',
                  'FunctionToPointerDecay', 'ArrayToPointerDecay', 'LValueBitCast'):
            yield from self.ev(sub, st)
            return
        if ck == 'ToVoid':
            for s, v in self.ev(sub, st):
                yield s, VOID
            return
        if ck == 'NullToPointer':
            yield st, iv(0)
            return
        if ck in ('IntegralCast', 'IntegralToBoolean', 'PointerToBoolean', 'IntegralToFloating', 'FloatingCast', 'FloatingToIntegral', 'BooleanToSignedIntegral'):
            ft = of(sub)
            for s, v in self.evv(sub, st):
                if s.abrupt:
                    yield s, None
                else:
                    if isinstance(v, VPtr):
                        yield s, z3.BoolVal(True)
                    else:
                        yield s, self.convert(s, v, ft, t)
            return
        raise Unsupported('cast ' + str(ck))

    e_CXXStaticCastExpr = e_CStyleCastExpr = e_CXXFunctionalCastExpr = e_CXXConstCastExpr = e_ImplicitCastExpr

    def lookup(self, st, did):
        for fr in reversed(st.frames):
            if did in fr:
                return fr[did]
            if fr.get('$closure') is None and fr.get('$barrier'):
                return None
        return None

    def e_DeclRefExpr(self, e, st):
        r = e['referencedDecl']
        k = r['kind']
        if k in ('VarDecl', 'ParmVarDecl', 'BindingDecl'):
            p = self.lookup(st, r['id'])
            if p is not None:
                yield st, p
                return
            if k == 'VarDecl':
                yield from self.global_var(r, st, of(e))
                return
            raise Unsupported('unbound variable ' + str(r.get('name')))
        if k == 'EnumConstantDecl' and r['id'] in self.tu.enums:
            yield st, iv(self.tu.enums[r['id']])
            return
        if k in ('FunctionDecl', 'CXXMethodDecl'):
            yield st, VOpaque(('fn', r))
            return
        raise Unsupported('declref ' + k)

    def global_var(self, r, st, t):
        """a namespace-scope constant or static data member: evaluate its initializer"""
        if r['id'] in self.tu.std_consts:
            yield st, z3.BoolVal(self.tu.std_consts[r['id']])
            return
        vd = self.tu.by_id.get(r['id'], r)
        name = vd.get('_qname') or vd.get('name')
        cid = 'g:' + str(name)
        if cid in st.cells:
            yield st, Place(cid)
            return
        t = strip_ref(t)
        qt = vd.get('type', {}).get('qualType', '')
        if 'const' not in qt.split('<')[0] and not qt.rstrip().endswith('const') and not vd.get('constexpr') and not self.tu.never_written(vd):
            # a mutable global holds an arbitrary value
            v = self.S.fresh('global_' + str(name).replace(':', '_'), t)
            st.assume(*self.S.range_facts(v, t))
            st.cells[cid] = v
            st.types[cid] = t
            yield st, Place(cid)
            return
        init = None
        cands = [vd] + [v for v in self.tu.vars.values() if v.get('previousDecl') == r['id'] or (v.get('_qname') == name)]
        for c in cands:
            ex = [x for x in c.inner if x.get('kind', '').endswith('Expr') or x.get('kind', '').endswith('Literal') or x.get('kind', '').endswith('Operator') or x.get('kind') == 'ExprWithCleanups']
            if ex:
                init = ex[-1]
                break
        if init is None and r['id'] not in self.tu.vars:
            # a constant of a library: its value is not known here
            v = self.S.fresh('global_' + str(name), t)
            st.assume(*self.S.range_facts(v, t))
            st.cells[cid] = v
            st.types[cid] = t
            yield st, Place(cid)
            return
        if init is None:
            # static member of a template: its out-of-class definition value-initialises it
            for s, v in self.default_value(st, t):
                if s.abrupt:
                    yield s, None
                    continue
                s.cells[cid] = v
                s.types[cid] = t
                yield s, Place(cid)
            return
        saved = st.frames
        st.frames = [{'$barrier': True}]
        for s, v in self.evv(init, st):
            if s.abrupt:
                raise Unsupported('abrupt global initialiser')
            s.frames = [dict(f) for f in saved]
            s.cells[cid] = v
            s.types[cid] = t
            yield s, Place(cid)

    def e_CXXThisExpr(self, e, st):
        p = self.lookup(st, '$this')
        if p is None:
            raise Unsupported('this')
        yield st, VPtr(p)

    def e_MemberExpr(self, e, st):
        base = e.inner[0]
        name = e.get('name')
        mid = e.get('referencedMemberDecl')
        md = self.tu.by_id.get(mid)
        if md is not None and md.get('kind') == 'VarDecl':
            yield from self.global_var(md, st, of(e))
            return
        bt = of(base)
        for s, v in self.ev(base, st):
            if s.abrupt:
                yield s, None
                continue
            if e.get('isArrow'):
                v = self.rv(s, v)
                if isinstance(v, VPtr):
                    pl = v.place
                elif isinstance(v, z3.ExprRef):
                    pl = self.heap_place(s, v, bt[1], 'member of null/freed pointer')
                else:
                    raise Unsupported('arrow on %s' % type(v).__name__)
                bt2 = bt[1]
            else:
                bt2 = strip_ref(bt)
                pl = self.as_place(s, v, bt2)
            if bt2[0] == 'pair' or name in ('first', 'second') and bt2[0] != 'rec':
                yield s, pl.ext(('p1',) if name == 'first' else ('p2',))
            else:
                pt = self.place_type(s, pl)
                yield s, pl.ext(('f', name))

    def heap_place(self, st, addr, t, why):
        root = 'heap:' + show(t)
        if root not in st.cells:
            raise Unsupported('no heap model for ' + show(t))
        hv = st.cells[root]
        self.oblige(st, why, z3.And(addr != 0, z3.Select(hv.f['alive'], addr)))
        return Place(root, (('h', addr),))

    def e_UnaryOperator(self, e, st):
        op = e['opcode']
        sub = e.inner[0]
        t = of(e)
        if op in ('++', '--'):
            for s, pl in self.ev(sub, st):
                if s.abrupt:
                    yield s, None
                    continue
                old = self.rv(s, pl)
                if isinstance(old, VPtr) or t[0] == 'ptr':
                    raise Unsupported('pointer arithmetic')
                new = self.arith(s, '+' if op == '++' else '-', old, iv(1), of(sub))
                self.set(s, pl, new)
                yield s, (old if e.get('isPostfix') else pl)
            return
        if op == '*':
            for s, v in self.evv(sub, st):
                if s.abrupt:
                    yield s, None
                elif isinstance(v, VPtr):
                    yield s, v.place
                elif isinstance(v, z3.ExprRef):
                    yield s, self.heap_place(s, v, of(sub)[1], 'dereference of null or freed pointer')
                else:
                    raise Unsupported('deref')
            return
        if op == '&':
            for s, v in self.ev(sub, st):
                if s.abrupt:
                    yield s, None
                elif isinstance(v, Place):
                    yield s, VPtr(v)
                else:
                    raise Unsupported('address-of')
            return
        for s, v in self.evv(sub, st):
            if s.abrupt:
                yield s, None
                continue
            if op == '!':
                yield s, z3.Not(v)
            elif op == '-':
                if t[0] == 'int':
                    if t[2]:
                        yield s, z3.simplify(-v)
                    else:
                        yield s, self.arith(s, '-', iv(0), v, t)
                else:
                    yield s, z3.Function('dblneg', self.S.dbl, self.S.dbl)(v)
            elif op == '+':
                yield s, v
            else:
                raise Unsupported('unary ' + op)

    def e_BinaryOperator(self, e, st):
        op = e['opcode']
        l, r = e.inner[0], e.inner[1]
        t = of(e)
        if op == '=':
            def asg(s, vs):
                # C++17: right operand sequenced first
                rvv, lp = vs
                self.set(s, lp if isinstance(lp, Place) else lp.place, self.rv(s, rvv))
                yield s, lp
            yield from self.bind(self.evs([r, l], st), asg)
            return
        if op in ('&&', '||'):
            for s, v in self.evv(l, st):
                if s.abrupt:
                    yield s, None
                    continue
                for s2, b in self.branch(s, v):
                    if b == (op == '||'):
                        yield s2, z3.BoolVal(b)
                    else:
                        yield from self.evv(r, s2)
            return
        if op == ',':
            for s, v in self.ev(l, st):
                if s.abrupt:
                    yield s, None
                else:
                    yield from self.ev(r, s)
            return

        def go(s, vs):
            a, b = self.rv(s, vs[0]), self.rv(s, vs[1])
            yield s, self.binop(s, op, a, b, of(l), of(r), t)
        yield from self.bind(self.evs([l, r], st), go)

    def binop(self, s, op, a, b, lt, rt, t):
        if op in ('==', '!=') and (isinstance(a, VPtr) or isinstance(b, VPtr)):
            if isinstance(a, VPtr) and isinstance(b, VPtr):
                r = same_place(a.place, b.place)
                if r is None:
                    raise Unsupported('pointer comparison')
            else:
                o = b if isinstance(a, VPtr) else a
                if not (z3.is_int_value(o) and o.as_long() == 0):
                    raise Unsupported('pointer comparison')
                r = False
            return z3.BoolVal(r == (op == '=='))
        if op in ('==', '!=', '<', '<=', '>', '>='):
            if z3.is_expr(a) and a.sort() == self.S.dbl:
                lt_ = z3.Function('dbllt', self.S.dbl, self.S.dbl, B)
                eq_ = z3.Function('dbleq', self.S.dbl, self.S.dbl, B)
                return {'==': lambda: eq_(a, b), '!=': lambda: z3.Not(eq_(a, b)), '<': lambda: lt_(a, b), '>': lambda: lt_(b, a),
                        '<=': lambda: z3.Or(lt_(a, b), eq_(a, b)), '>=': lambda: z3.Or(lt_(b, a), eq_(a, b))}[op]()
            if z3.is_expr(a) and z3.is_bool(a):
                a2, b2 = a, b
                if op in ('==', '!='):
                    return (a2 == b2) if op == '==' else (a2 != b2)
                raise Unsupported('bool order')
            return {'==': lambda: a == b, '!=': lambda: a != b, '<': lambda: a < b, '<=': lambda: a <= b,
                    '>': lambda: a > b, '>=': lambda: a >= b}[op]()
        if op in ('+', '-', '*', '/', '%'):
            return self.arith(s, op, a, b, t)
        raise Unsupported('binary ' + op)

    def e_CompoundAssignOperator(self, e, st):
        op = e['opcode'][:-1]
        l, r = e.inner
        lt = of(l)
        ct = parse((e.get('computeResultType') or {}).get('desugaredQualType') or (e.get('computeResultType') or e['type'])['qualType'])

        def go(s, vs):
            rvv, lp = vs
            a = self.convert(s, self.rv(s, lp), lt, ct)
            b = self.rv(s, rvv)
            self.set(s, lp if isinstance(lp, Place) else lp.place, self.convert(s, self.arith(s, op, a, b, ct), ct, lt))
            yield s, lp
        yield from self.bind(self.evs([r, l], st), go)

    def e_ConditionalOperator(self, e, st):
        c, a, b = e.inner
        for s, v in self.evv(c, st):
            if s.abrupt:
                yield s, None
                continue
            for s2, tv in self.branch(s, v):
                yield from self.ev(a if tv else b, s2)

    def e_CXXDefaultArgExpr(self, e, st):
        if e.inner:
            yield from self.ev(e.inner[-1], st)
        else:
            yield st, VOpaque(('defaultarg',))

    def e_CXXScalarValueInitExpr(self, e, st):
        yield from self.default_value(st, of(e))

    e_ImplicitValueInitExpr = e_CXXScalarValueInitExpr

    def e_InitListExpr(self, e, st):
        t = of(e)
        if t[0] in ('int', 'bool', 'float', 'ptr') and len(e.inner) == 1:
            yield from self.ev(e.inner[0], st)
            return

        def go(s, vs):
            vals = [self.rv(s, v) for v in vs]
            if t[0] == 'rec':
                fs = self.S.fields(t)
                yield s, VRec(t, {f: v for (f, ft), v in zip(fs, vals)})
            else:
                yield s, VList(vals)
        yield from self.bind(self.evs(e.inner, st), go)

    def e_CXXStdInitializerListExpr(self, e, st):
        for s, v in self.ev(e.inner[0], st):
            yield s, (None if s.abrupt else self.rv(s, v))

    def e_LambdaExpr(self, e, st):
        rec = [c for c in e.inner if c.get('kind') == 'CXXRecordDecl'][0]
        op = [c for c in rec.inner if c.get('kind') == 'CXXMethodDecl' and c.get('name') == 'operator()'][0]
        env = {}
        for fr in st.frames:
            env.update(fr)
        caps = {}
        # by-value captures are snapshots
        flds = [c for c in rec.inner if c.get('kind') == 'FieldDecl']
        yield st, VLambda(op, env, self.lookup(st, '$this'), caps)

    def e_CXXThrowExpr(self, e, st):
        st.abrupt = (THROW, None)
        yield st, None

    def e_CXXNewExpr(self, e, st):
        t = of(e)[1]
        inner = [c for c in e.inner if c.get('kind') != 'CXXPlaceholder']
        if e.get('isArray'):
            raise Unsupported('array new')

        def alloc(s, v):
            root = 'heap:' + show(t)
            if root not in s.cells:
                raise Unsupported('no heap model for ' + show(t))
            hv = s.cells[root]
            a = fresh('new', I)
            s.assume(a > 0, z3.Not(z3.Select(hv.f['alive'], a)))
            for ax in self.models.new_facts(s, root, a):
                s.assume(ax)
            s.cells[root] = VRec(hv.t, {'alive': z3.Store(hv.f['alive'], a, z3.BoolVal(True)),
                                        'val': z3.Store(hv.f['val'], a, self.S.pack(v, t)), 'count': hv.f['count'] + 1})
            yield s, a
        if inner:
            yield from self.bind(self.evv(inner[0], st), alloc)
        else:
            yield from self.bind(self.default_value(st, t), alloc)

    def e_CXXDeleteExpr(self, e, st):
        sub = e.inner[0]
        t = of(sub)[1]
        for s, v in self.evv(sub, st):
            if s.abrupt:
                yield s, None
                continue
            root = 'heap:' + show(t)
            if root not in s.cells:
                raise Unsupported('no heap model for ' + show(t))
            hv = s.cells[root]
            self.oblige(s, 'delete of an address that is not a live allocation (double free)', z3.Or(v == 0, z3.Select(hv.f['alive'], v)))
            s.cells[root] = VRec(hv.t, {'alive': z3.If(v == 0, hv.f['alive'], z3.Store(hv.f['alive'], v, z3.BoolVal(False))) if not self.solver.quick(s.pc, v != 0)
                                        else z3.Store(hv.f['alive'], v, z3.BoolVal(False)), 'val': hv.f['val'], 'count': hv.f['count'] - (1 if self.solver.quick(s.pc, v != 0) else z3.If(v == 0, 0, 1))})
            yield s, VOID

    # -------------------------------------------------------- construction
    def default_value(self, st, t):
        k = t[0]
        if k == 'int' or k == 'ptr':
            yield st, iv(0)
        elif k == 'bool':
            yield st, z3.BoolVal(False)
        elif k == 'float':
            yield st, z3.Const('dbl_0', self.S.dbl)
        elif k == 'str':
            yield st, self.models.empty_str()
        elif k == 'vec':
            yield st, self.models.empty_vec(t)
        elif k == 'map':
            yield st, self.models.empty_map(t)
        elif k == 'pair':
            for s, a in self.default_value(st, t[1]):
                for s2, b in self.default_value(s, t[2]):
                    yield s2, VPair(a, b)
        elif k == 'rec':
            if t[1] in self.S.opaque:
                yield st, self.S.opaque_default(t)
            else:
                yield from self.construct(st, t, 'void ()', [])
        else:
            raise Unsupported('default value of %s' % (t,))

    def e_CXXConstructExpr(self, e, st):
        t = of(e)
        ctor = (e.get('ctorType') or {}).get('qualType', '')

        def go(s, vs):
            yield from self.construct(s, t, ctor, vs, e)
        yield from self.bind(self.evs(e.inner, st), go)

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def e_CXXInheritedCtorInitExpr(self, e, st):
        raise Unsupported('inherited ctor')

    def construct(self, st, t, ctor, args, e=None):
        k = t[0]
        if k == 'rec' and t[1] in self.S.opaque:
            if not args:
                yield st, self.S.opaque_default(t)
            elif len(args) == 1:
                v = self.rv(st, args[0])
                if isinstance(v, z3.ExprRef) and v.sort() == self.S.opaque[t[1]]:
                    yield st, v
                else:
                    yield from self.models.opaque_construct(st, t, args)
            else:
                yield from self.models.opaque_construct(st, t, args)
            return
        if k != 'rec':
            yield from self.models.construct(st, t, ctor, args, e)
            return
        rec = self.tu.records.get(t[1])
        if rec is None:
            yield from self.models.construct(st, t, ctor, args, e)
            return
        sel = None
        for c in rec.inner:
            cc = [c] if c.get('kind') == 'CXXConstructorDecl' else \
                [x for x in c.inner if x.get('kind') == 'CXXConstructorDecl'] if c.get('kind') == 'FunctionTemplateDecl' else []
            for x in cc:
                if self._sig(x['type']) == self._sigs(ctor):
                    sel = x
        if sel is None:
            if not args:
                sel = {'isImplicit': True}
            else:
                raise Unsupported('constructor %s of %s' % (ctor, t[1]))
        d = self.tu.definition(sel.get('id')) if sel.get('id') else None
        implicit = sel.get('isImplicit') or sel.get('explicitlyDefaulted') or d is None or self.tu.body(d) is None
        if implicit:
            if len(args) == 1:
                yield st, self.slice(self.rv(st, args[0]), t)
                return
            if not args:
                yield from self.default_fields(st, t, rec)
                return
            raise Unsupported('ctor without body: %s %s' % (t[1], ctor))
        # user constructor
        tmp = st.new_cell(VRec(t, {f: self.undef(st, f, ft) for f, ft in self.S.fields(t)}), t, 'obj')
        for s, _ in self.call(st, d, tmp, args):
            if s.abrupt:
                yield s, None
            else:
                yield s, self.get(s, tmp)

    def construct_n(self, st, t, args):
        """direct construction from several arguments (emplace_back): the only constructor with that many parameters"""
        if t[0] == 'pair' and len(args) == 2:
            def one(v, et):
                return self.slice(self.rv(st, v), et)
            return [(st, VPair(one(args[0], t[1]), one(args[1], t[2])))]
        if t[0] != 'rec' or t[1] in self.S.opaque:
            return None
        rec = self.tu.records.get(t[1])
        if rec is None:
            return None
        cs = [x for x in rec.inner if x.get('kind') == 'CXXConstructorDecl' and len([p for p in x.inner if p.get('kind') == 'ParmVarDecl']) == len(args)]
        if len(args) == 1 and z3.is_int(self.rv(st, args[0])):
            par = lambda x: strip_ref(of([p for p in x.inner if p.get('kind') == 'ParmVarDecl'][0]))
            cs = [x for x in cs if par(x)[0] == 'int']
        if len(cs) != 1:
            return None
        return self.construct(st, t, cs[0]['type'].get('qualType'), args)

    def undef(self, st, f, ft):
        """uninitialised storage"""
        if ft[0] in ('int', 'bool', 'float', 'ptr'):
            return self.S.fresh('uninit_' + f, ft)
        return None

    def _sig(self, ty):
        return self._sigs(ty.get('qualType'))

    def _sigs(self, q):
        return q.replace('noexcept(false)', '').replace('noexcept', '').replace(' ', '')

    def slice(self, v, t):
        """copy of v as a t (memberwise; derived-to-base slicing)"""
        if isinstance(v, VRec) and v.t != t and v.t[0] != 'stream':
            return VRec(t, {f: v.f[f] for f, _ in self.S.fields(t)})
        return v

    def default_fields(self, st, t, rec):
        def go(i, s, acc):
            fs = self.S.fields(t)
            if i == len(fs):
                yield s, VRec(t, acc)
                return
            f, ft = fs[i]
            if ft[0] in ('int', 'bool', 'float', 'ptr'):
                a = dict(acc)
                a[f] = self.S.fresh('uninit_' + f, ft)
                yield from go(i + 1, s, a)
            else:
                for s2, v in self.default_value(s, ft):
                    a = dict(acc)
                    a[f] = v
                    yield from go(i + 1, s2, a)
        yield from go(0, st, {})

    # -------------------------------------------------------- calls
    def callee_of(self, e):
        c = e.inner[0]
        while c.get('kind') in ('ImplicitCastExpr', 'ParenExpr'):
            c = c.inner[0]
        return c

    def e_CXXMemberCallExpr(self, e, st):
        m = e.inner[0]
        while m.get('kind') == 'ParenExpr':
            m = m.inner[0]
        if m.get('kind') != 'MemberExpr':
            raise Unsupported('member call via ' + m.get('kind', '?'))
        name = m.get('name')
        base = m.inner[0]
        bt = of(base)
        mid = m.get('referencedMemberDecl')
        fn = self.tu.definition(mid)
        argn = e.inner[1:]
        for s, bv in self.ev(base, st):
            if s.abrupt:
                yield s, None
                continue
            if m.get('isArrow'):
                bv = self.rv(s, bv)
                if isinstance(bv, VPtr):
                    pl = bv.place
                elif isinstance(bv, z3.ExprRef):
                    pl = self.heap_place(s, bv, bt[1], 'call through null/freed pointer')
                else:
                    raise Unsupported('arrow call')
                ct = bt[1]
            else:
                ct = strip_ref(bt)
                if isinstance(bv, VOpaque):
                    pl = bv
                else:
                    pl = self.as_place(s, bv, ct)
            def go(s2, vs, pl=pl, ct=ct):
                if fn is not None and fn.get('kind') in ('CXXMethodDecl', 'CXXDestructorDecl', 'CXXConversionDecl') and ct[0] != 'iter' and not (ct[0] == 'rec' and ct[1] in self.S.opaque):
                    yield from self.call(s2, fn, pl, vs)
                else:
                    yield from self.models.method(s2, ct, name, pl, vs, e)
            yield from self.bind(self.evs(argn, s), go)

    def e_CXXOperatorCallExpr(self, e, st):
        c = self.callee_of(e)
        r = c.get('referencedDecl', {})
        name = r.get('name', '')
        args = e.inner[1:]
        # stream output is dropped (no effect on the modelled state)
        if name == 'operator<<' and self.is_stream(args[0]) and not self.models.is_file(args[0]):
            yield st, VOpaque(('stream',))
            return
        fn = self.tu.definition(r.get('id'))
        order = list(range(len(args)))
        rev = name == 'operator=' or (name.endswith('=') and name[8:] in ('+=', '-=', '*=', '/='))

        def go(s, vs):
            if rev:
                vs = vs[::-1]
            t0 = strip_ref(of(args[0]))
            if fn is not None and not (t0[0] == 'rec' and t0[1] in self.S.opaque) and t0[0] != 'iter' and not self.models.hooked(s, name, vs, t0):
                if fn.get('kind') == 'CXXMethodDecl':
                    if isinstance(vs[0], VLambda):
                        yield from self.call_lambda(s, vs[0], vs[1:])
                        return
                    yield from self.call(s, fn, self.as_place(s, vs[0], t0), vs[1:])
                else:
                    yield from self.call(s, fn, None, vs)
                return
            if isinstance(vs[0], VLambda):
                yield from self.call_lambda(s, vs[0], vs[1:])
                return
            yield from self.models.operator(s, name, [strip_ref(of(a)) for a in args], vs, e)
        yield from self.bind(self.evs(args[::-1] if rev else args, st), go)

    def is_stream(self, a):
        while a.get('kind') in ('ImplicitCastExpr', 'ParenExpr'):
            a = a.inner[0]
        q = a.get('type', {}).get('qualType', '')
        return 'ostream' in q or 'ofstream' in q

    def e_CallExpr(self, e, st):
        c = self.callee_of(e)
        if c.get('kind') != 'DeclRefExpr':
            raise Unsupported('call through ' + c.get('kind', '?'))
        r = c['referencedDecl']
        fn = self.tu.definition(r['id'])
        args = [a for a in e.inner[1:]]

        def go(s, vs):
            if fn is not None:
                yield from self.call(s, fn, None, vs)
            else:
                yield from self.models.function(s, r.get('name'), [strip_ref(of(a)) for a in args], vs, e)
        yield from self.bind(self.evs(args, st), go)

    def call_lambda(self, st, lam, args):
        fr = dict(lam.env)
        fr['$closure'] = True
        if lam.this is not None:
            fr['$this'] = lam.this
        params = [p for p in lam.node.inner if p.get('kind') == 'ParmVarDecl']
        body = self.tu.body(lam.node)
        return self._run(st, params, args, body, fr, of_ret(lam.node), 'lambda')

    def call(self, st, fn, this, args):
        key = self.contracts.key(fn)
        if key in self.models.fn_models:
            yield from self.models.fn_models[key](st, fn, args)
            return
        c = None if self.bypass else self.contracts.lookup(self, fn)
        if c is not None and not c.inline:
            self.used_contracts.add(c.name)
            for s2, full in self.fill_defaults(st, fn, list(args)):
                yield from c.apply(self, s2, fn, this, full)
            return
        d = self.tu.definition(fn['id']) or fn
        body = self.tu.body(d)
        if body is None:
            if fn.get('name') == 'operator=' and (fn.get('isImplicit') or fn.get('explicitlyDefaulted')):
                self.set(st, this, self.slice(self.rv(st, args[0]), self.place_type(st, this)))
                yield st, this
                return
            raise Unsupported('no body for ' + fn.get('_qname', fn.get('name', '?')))
        if fn.get('name') == 'operator=' and (fn.get('isImplicit') or fn.get('explicitlyDefaulted')):
            self.set(st, this, self.slice(self.rv(st, args[0]), self.place_type(st, this)))
            yield st, this
            return
        self.inlined.add(d['_qname'])
        yield from self.inline(st, d, this, args)

    def fill_defaults(self, st, fn, args):
        """default arguments of a call, evaluated where they are declared"""
        for i, a in enumerate(args):
            if isinstance(a, VOpaque) and a.t == ('defaultarg',):
                for ini in self.tu.default_args(fn, i):
                    t = of([p for p in fn.inner if p.get('kind') == 'ParmVarDecl'][i])
                    for s2, v in self.ev(ini, st):
                        if t[0] == 'ref' and not isinstance(v, Place):
                            v = s2.new_cell(self.rv(s2, v), t[1], 'default')
                        yield from self.fill_defaults(s2, fn, args[:i] + [v] + args[i + 1:])
                    return
        yield st, args

    def inline(self, st, d, this, args):
        params = [p for p in d.inner if p.get('kind') == 'ParmVarDecl']
        fr = {'$barrier': True}
        if this is not None:
            fr['$this'] = this
        inits = [c for c in d.inner if c.get('kind') == 'CXXCtorInitializer']
        return self._run(st, params, args, self.tu.body(d), fr, of_ret(d), d['_qname'], inits, this)

    def bind_params(self, st, params, args, fr):
        """generator over states (default arguments may need evaluation)"""
        def go(i, s):
            if i == len(params):
                yield s
                return
            p = params[i]
            t = of(p)
            if i < len(args):
                a = args[i]
                if isinstance(a, VOpaque) and a.t == ('defaultarg',):
                    ini = [x for x in p.inner if x.get('kind')]
                    if not ini:
                        fr[p['id']] = a
                        yield from go(i + 1, s)
                        return
                    for s2, v in self.ev(ini[-1], s):
                        bindone(s2, p, t, v)
                        yield from go(i + 1, s2)
                    return
                bindone(s, p, t, a)
                yield from go(i + 1, s)
            else:
                raise Unsupported('missing argument')

        def bindone(s, p, t, a):
            if isinstance(a, (VLambda, VOpaque)):
                fr[p['id']] = a
            elif t[0] == 'ref':
                fr[p['id']] = self.as_place(s, a, t[1])
            else:
                v = self.rv(s, a)
                if t[0] == 'rec':
                    v = self.slice(v, t)
                fr[p['id']] = s.new_cell(v, t, p.get('name', 'arg'))
        return go(0, st)

    def _run(self, st, params, args, body, fr, rt, name, inits=(), this=None):
        if len(st.frames) > self.MAXDEPTH:
            raise Unsupported('call depth (recursion)')
        for s in list(self.bind_params(st, params, args, fr)):
            s.frames.append(dict(fr))
            nfr = len(s.frames)
            for s1 in self.run_inits(s, inits, this):
                if s1.abrupt:
                    s1.frames = s1.frames[:nfr - 1]
                    yield s1, None
                    continue
                for s2, k, v in self.ex(body, s1):
                    s2.frames = s2.frames[:nfr - 1]
                    if k in (THROW, EXIT):
                        s2.abrupt = (k, v)
                        yield s2, None
                    elif k == RET:
                        yield s2, self.conv_ret(s2, v, rt)
                    elif k == NORMAL:
                        yield s2, VOID
                    else:
                        raise Unsupported('outcome ' + k)

    def conv_ret(self, s, v, rt):
        if rt is None or v is None:
            return VOID if v is None else v
        if rt[0] == 'ref':
            return v
        v = self.rv(s, v) if not isinstance(v, (VLambda, VOpaque)) else v
        if rt[0] == 'rec':
            v = self.slice(v, rt)
        return v

    def run_inits(self, st, inits, this):
        if not inits:
            yield st
            return

        def go(i, s):
            if i == len(inits):
                yield s
                return
            c = inits[i]
            ex = c.inner[-1] if c.inner else None
            if 'anyInit' in c:
                f = c['anyInit']['name']
                ft = parse(c['anyInit']['type'].get('desugaredQualType') or c['anyInit']['type']['qualType'])
                for s2, v in self.evv(ex, s):
                    if s2.abrupt:
                        yield s2
                        continue
                    if isinstance(v, VList):
                        r = list(self.models.construct(s2, ft, '', [v], None))
                        for s3, v3 in r:
                            self.set(s3, this.ext(('f', f)), v3)
                            yield from go(i + 1, s3)
                        continue
                    self.set(s2, this.ext(('f', f)), v)
                    yield from go(i + 1, s2)
            elif 'baseInit' in c or 'delegatingInit' in c:
                for s2, v in self.evv(ex, s):
                    if s2.abrupt:
                        yield s2
                        continue
                    cur = self.get(s2, this)
                    f = dict(cur.f)
                    f.update(v.f)
                    self.set(s2, this, VRec(cur.t, f))
                    yield from go(i + 1, s2)
            else:
                raise Unsupported('ctor initializer')
        yield from go(0, st)

    # -------------------------------------------------------- statements
    def ex(self, n, st):
        k = n.get('kind')
        if st.abrupt:
            a = st.abrupt
            st.abrupt = None
            yield st, a[0], a[1]
            return
        m = getattr(self, 's_' + str(k), None)
        if m is not None:
            yield from m(n, st)
            return
        # expression statement
        for s, v in self.ev(n, st):
            if s.abrupt:
                a = s.abrupt
                s.abrupt = None
                yield s, a[0], a[1]
            else:
                yield s, NORMAL, None

    def s_CompoundStmt(self, n, st):
        yield from self.seq(n.inner, st)

    def seq(self, stmts, st):
        if not stmts:
            yield st, NORMAL, None
            return
        for s, k, v in self.ex(stmts[0], st):
            if k == NORMAL:
                yield from self.seq(stmts[1:], s)
            else:
                yield s, k, v

    def s_NullStmt(self, n, st):
        yield st, NORMAL, None

    def s_BreakStmt(self, n, st):
        yield st, BREAK, None

    def s_ContinueStmt(self, n, st):
        yield st, CONT, None

    def s_ReturnStmt(self, n, st):
        if not n.inner:
            yield st, RET, None
            return
        for s, v in self.ev(n.inner[0], st):
            if s.abrupt:
                a = s.abrupt
                s.abrupt = None
                yield s, a[0], a[1]
            else:
                yield s, RET, v

    def s_DeclStmt(self, n, st):
        def go(i, s):
            if i == len(n.inner):
                yield s, NORMAL, None
                return
            d = n.inner[i]
            if d.get('kind') in ('TypeAliasDecl', 'TypedefDecl', 'UsingDecl', 'StaticAssertDecl', 'UsingDirectiveDecl', 'EmptyDecl'):
                yield from go(i + 1, s)
                return
            if d.get('kind') == 'DecompositionDecl':
                yield from self.decomposition(d, s, lambda s2: go(i + 1, s2))
                return
            if d.get('kind') != 'VarDecl':
                raise Unsupported('decl ' + d.get('kind', '?'))
            if d.get('storageClass') == 'static':
                raise Unsupported('static local')
            t = of(d)
            init = [x for x in d.inner if x.get('kind') and not x['kind'].endswith('Attr')]
            if not init:
                if t[0] in ('int', 'bool', 'float', 'ptr'):
                    s.frames[-1][d['id']] = s.new_cell(self.S.fresh('uninit_' + d['name'], t), t, d['name'])
                    yield from go(i + 1, s)
                else:
                    for s2, v in self.default_value(s, t):
                        s2.frames[-1][d['id']] = s2.new_cell(v, t, d['name'])
                        yield from go(i + 1, s2)
                return
            for s2, v in self.ev(init[-1], s):
                if s2.abrupt:
                    a = s2.abrupt
                    s2.abrupt = None
                    yield s2, a[0], a[1]
                    continue
                if isinstance(v, (VLambda, VOpaque)):
                    s2.frames[-1][d['id']] = v
                elif t[0] == 'ref':
                    s2.frames[-1][d['id']] = self.as_place(s2, v, t[1])
                else:
                    v = self.rv(s2, v)
                    if isinstance(v, VList) and t[0] != 'ilist':
                        for s3, v3 in self.models.construct(s2, t, '', [v], None):
                            s3.frames[-1][d['id']] = s3.new_cell(v3, t, d['name'])
                            yield from go(i + 1, s3)
                        continue
                    if t[0] == 'rec':
                        v = self.slice(v, t)
                    if t[0] == 'bitref':
                        raise Unsupported('auto of vector<bool> reference')
                    s2.frames[-1][d['id']] = s2.new_cell(v, t, d['name'])
                yield from go(i + 1, s2)
        yield from go(0, st)

    def decomposition(self, d, st, k):
        binds = [x for x in d.inner if x.get('kind') == 'BindingDecl']
        init = [x for x in d.inner if x.get('kind') and x['kind'] not in ('BindingDecl',)][0]
        t = of(d)
        for s, v in self.ev(init, st):
            if s.abrupt:
                a = s.abrupt
                s.abrupt = None
                yield s, a[0], a[1]
                continue
            if t[0] == 'ref':
                pl = self.as_place(s, v, t[1])
            else:
                pl = s.new_cell(self.rv(s, v), t, 'bind')
            bt = strip_ref(t)
            if bt[0] == 'pair' and len(binds) == 2:
                s.frames[-1][binds[0]['id']] = pl.ext(('p1',))
                s.frames[-1][binds[1]['id']] = pl.ext(('p2',))
                # hidden holding variables std::get<> created by clang
                for b in binds:
                    for x in b.inner:
                        if x.get('kind') == 'DeclRefExpr' and x.get('referencedDecl', {}).get('kind') == 'VarDecl':
                            s.frames[-1][x['referencedDecl']['id']] = s.frames[-1][b['id']]
            elif bt[0] == 'rec':
                for b, (f, ft) in zip(binds, self.S.fields(bt)):
                    s.frames[-1][b['id']] = pl.ext(('f', f))
            else:
                raise Unsupported('structured binding of %s' % (bt,))
            yield from k(s)

    def s_IfStmt(self, n, st):
        inner = list(n.inner)
        idx = 0
        pre = []
        if n.get('hasInit'):
            pre.append(inner[idx]); idx += 1
        if n.get('hasVar'):
            pre.append(inner[idx]); idx += 1
        cond = inner[idx]
        then = inner[idx + 1]
        els = inner[idx + 2] if n.get('hasElse') else None
        if n.get('isConstexpr') and els is None and len(inner) <= idx + 1:
            raise Unsupported('constexpr if')
        for s0, k0, v0 in self.seq(pre, st):
            if k0 != NORMAL:
                yield s0, k0, v0
                continue
            for s, c in self.evv(cond, s0):
                if s.abrupt:
                    a = s.abrupt
                    s.abrupt = None
                    yield s, a[0], a[1]
                    continue
                for s2, b in self.branch(s, c):
                    s2.trace = s2.trace + (b,)
                    if b:
                        yield from self.ex(then, s2) if then.get('kind') else [(s2, NORMAL, None)]
                    elif els is not None and els.get('kind'):
                        yield from self.ex(els, s2)
                    else:
                        yield s2, NORMAL, None

    def s_CXXTryStmt(self, n, st):
        body = n.inner[0]
        handlers = n.inner[1:]
        for s, k, v in self.ex(body, st):
            if k == THROW:
                if len(handlers) != 1:
                    raise Unsupported('multiple handlers')
                h = handlers[0]
                hb = h.inner[-1]
                for c in h.inner[:-1]:
                    if c.get('kind') == 'VarDecl':
                        s.frames[-1][c['id']] = VOpaque(('exception',))
                yield from self.ex(hb, s)
            else:
                yield s, k, v

    # -------------------------------------------------------- loops
    def s_ForStmt(self, n, st):
        init, condvar, cond, inc, body = n.inner
        if condvar.get('kind'):
            raise Unsupported('for condition variable')
        st0 = [(st, NORMAL, None)] if not init.get('kind') else self.ex(init, st)
        for s, k, v in st0:
            if k != NORMAL:
                yield s, k, v
                continue
            yield from self.loop(s, self.mk_iter(cond, inc, body), 'for')

    def s_WhileStmt(self, n, st):
        if n.get('hasVar'):
            raise Unsupported('while condition variable')
        cond, body = n.inner
        yield from self.loop(st, self.mk_iter(cond, None, body), 'while')

    def s_DoStmt(self, n, st):
        body, cond = n.inner
        # first iteration peeled: body; then while(cond) body
        for s, k, v in self.ex(body, st):
            if k in (NORMAL, CONT):
                yield from self.loop(s, self.mk_iter(cond, None, body), 'do')
            elif k == BREAK:
                yield s, NORMAL, None
            else:
                yield s, k, v

    def s_CXXForRangeStmt(self, n, st):
        ini, rng, beg, end, cond, inc, var, body = n.inner
        pre = [x for x in (ini, rng, beg, end) if x.get('kind')]
        for s, k, v in self.seq(pre, st):
            if k != NORMAL:
                yield s, k, v
                continue
            yield from self.loop(s, self.mk_iter(cond, inc, body, var), 'range-for')

    def mk_iter(self, cond, inc, body, var=None):
        """one iteration: state -> [(state, kind, val)], kind 'next' | 'done' | RET/THROW/EXIT"""
        def it(st):
            cs = [(st, z3.BoolVal(True))] if cond is None or not cond.get('kind') else self.evv(cond, st)
            for s, c in cs:
                if s.abrupt:
                    a = s.abrupt
                    s.abrupt = None
                    yield s, a[0], a[1]
                    continue
                for s2, b in self.branch(s, c):
                    if not b:
                        yield s2, 'done', None
                        continue
                    stm = ([var] if var is not None else []) + [body]
                    for s3, k, v in self.seq([x for x in stm if x.get('kind')], s2):
                        if k in (NORMAL, CONT):
                            if inc is not None and inc.get('kind'):
                                for s4, _ in self.ev(inc, s3):
                                    if s4.abrupt:
                                        a = s4.abrupt
                                        s4.abrupt = None
                                        yield s4, a[0], a[1]
                                    else:
                                        yield s4, 'next', None
                            else:
                                yield s3, 'next', None
                        elif k == BREAK:
                            yield s3, 'done', None
                        else:
                            yield s3, k, v
        return it

    def loop(self, st, iterate, label):
        from loops import LoopEngine
        for s, k, v in LoopEngine(self).run(st, iterate, label):
            yield s, k, v


def of_ret(fn):
    q = fn['type']['qualType']
    if fn.get('kind') in ('CXXConstructorDecl', 'CXXDestructorDecl'):
        return None
    # result type = text before the parameter list
    depth = 0
    # find the '(' that starts the parameter list: last top-level '(' group
    i = len(q) - 1
    # strip trailing qualifiers
    end = q.rfind(')')
    d = 0
    for j in range(end, -1, -1):
        if q[j] == ')':
            d += 1
        elif q[j] == '(':
            d -= 1
            if d == 0:
                r = q[:j].strip()
                if r.startswith('auto') and '->' in q:
                    r = q[q.rindex('->') + 2:].strip()
                return parse(r)
    return None
