"""Function contracts: application at call sites and verification of bodies."""
import re
import time
import z3
from values import *
from ctypes_ import *
from solver import *
from interp import Interp, of_ret, RET, THROW, EXIT, NORMAL


def generic(q):
    """qualified name without template arguments"""
    out, d = '', 0
    q = q.removeprefix('qlmps::')
    q = q.replace('operator<=', 'operator@le').replace('operator<<', 'operator@ls').replace('operator<', 'operator@lt')
    q = q.replace('operator>=', 'operator@ge').replace('operator>>', 'operator@gs').replace('operator->', 'operator@ar').replace('operator>', 'operator@gt')
    for ch in q:
        if ch == '<':
            d += 1
        elif ch == '>':
            d -= 1
        elif d == 0:
            out += ch
    for a, b in (('@le', '<='), ('@ls', '<<'), ('@lt', '<'), ('@ge', '>='), ('@gs', '>>'), ('@ar', '->'), ('@gt', '>')):
        out = out.replace(a, b)
    return out


class Ctx:
    def __init__(self, ip, fn, pre, post, this, args, ret=None):
        self.ip, self.fn, self.pre, self.post, self.thisp, self.args, self.ret = ip, fn, pre, post, this, args, ret
        self.S = ip.S

    def _v(self, st, x):
        return self.ip.rv(st, x)

    def old(self, x):
        return self._v(self.pre, x)

    def new(self, x):
        return self._v(self.post, x)

    @property
    def this0(self):
        return self._v(self.pre, self.thisp)

    @property
    def this1(self):
        return self._v(self.post, self.thisp)

    def a(self, i):
        """value of argument i before the call"""
        return self._v(self.pre, self.args[i])

    def a1(self, i):
        return self._v(self.post, self.args[i])

    @property
    def r(self):
        """returned value (reference results are read in the post state)"""
        return self._v(self.post, self.ret)

    def pack(self, v, t):
        return self.S.pack(v, t)

    def named(self, term):
        """the same array under a constant name (usable in patterns)"""
        if z3.is_const(term) and term.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            return term
        n = fresh('nm', term.sort())
        self.post.assume(n == term)
        if self.post is not self.pre:
            self.pre.assume(n == term)
        return n

    def nvec(self, v):
        return VVec(v.et, v.len, self.named(v.arr))

    def default(self, t):
        return default_const(self.ip, t)

    def eq(self, a, b, t):
        return self.ip.models.eq(self.post or self.pre, a, b, t)


def default_const(ip, t):
    """packed value of T()"""
    c = ip.default_cache.get(show(t))
    if c is None:
        st = State()
        ip.suppress += 1
        byp, ip.bypass = ip.bypass, True
        try:
            rs = list(ip.default_value(st, t))
        finally:
            ip.suppress -= 1
            ip.bypass = byp
        if len(rs) != 1:
            raise Unsupported('default value forks')
        c = ip.default_cache[show(t)] = ip.S.pack(rs[0][1], t)
    return c


def field(v, name, t, S):
    """field by name, else the unique field of that type"""
    if name in v.f:
        return v.f[name]
    c = [f for f, ft in S.fields(v.t) if ft == t]
    if len(c) == 1:
        return v.f[c[0]]
    raise Unsupported('field %s of %s' % (name, show(v.t)))


class Contract:
    def __init__(self, name, requires=None, ensures=None, modifies=(), throws=None, exits=None, hints=None, aliases=(), sel=None, fresh_ret=None, setup=None, const_inst=None, pre_hint=None, inline=False, retplace=None):
        self.name = name
        self.requires = requires or (lambda c: [])
        self.ensures = ensures or (lambda c: [])
        self.modifies = modifies       # 'this', 0,1,.. (argument index), 'heap:T', 'g:name'
        self.throws = throws           # condition on the pre-state under which it throws (None: never)
        self.exits = exits
        self.hints = hints
        self.aliases = aliases         # e.g. {0: 'this'}: verify again with argument 0 aliasing this
        self.sel = sel                 # overload selector: list of parameter type strings or predicate
        self.setup = setup
        self.inline = inline
        self.retplace = retplace       # the object a returned reference refers to
        self.verified = set()
        self.assumed = False

    # -------------------------------------------------- at a call site
    def apply(self, ip, st, fn, this, args):
        ip.used.add(self.name)
        c = Ctx(ip, fn, st, st, this, args)
        for lab, f in self.requires(c):
            ip.oblige(st, 'precondition of %s: %s' % (self.name, lab), f)
        cases = []
        tcond = self.throws(c) if self.throws else None
        econd = self.exits(c) if self.exits else None
        base = st
        for cond, kind in ((tcond, THROW), (econd, EXIT)):
            if cond is None:
                continue
            nxt = None
            for s, b in ip.branch(base, cond):
                if b:
                    s.abrupt = (kind, None)
                    yield s, None
                else:
                    nxt = s
            if nxt is None:
                return
            base = nxt
        pre = base.fork()
        post = base
        # values of by-value arguments and places
        mods = list(self.modifies)
        for m in mods:
            self._havoc(ip, post, this, args, m, fn)
        rt = of_ret(fn)
        ret = VOID
        if rt is not None and rt[0] != 'void':
            if rt[0] == 'ref':
                ret = self.retplace(Ctx(ip, fn, pre, post, this, args)) if self.retplace else self.ref_result(ip, post, fn, this, args, rt)
            else:
                ret = ip.S.fresh('ret_' + re.sub(r'\W+', '_', self.name), rt)
                post.assume(*ip.S.range_facts(ret, rt))
        c2 = Ctx(ip, fn, pre, post, this, args, ret)
        for lab, f in self.ensures(c2):
            post.assume(f)
        yield post, ret

    def ref_result(self, ip, st, fn, this, args, rt):
        if fn.get('name', '').startswith('operator') and fn['name'] in ('operator=', 'operator+='):
            return this
        v = ip.S.fresh('ret', rt[1])
        st.assume(*ip.S.range_facts(v, rt[1]))
        return st.new_cell(v, rt[1], 'retref')

    def _havoc(self, ip, st, this, args, m, fn):
        if isinstance(m, str) and m.startswith('heap:'):
            hv = st.cells[m]
            et = st.types[m][1]
            st.cells[m] = VRec(hv.t, {k: fresh('heap_' + k, x.sort()) for k, x in hv.f.items()})
            return
        pl = this if m == 'this' else args[m]
        if not isinstance(pl, Place):
            raise Unsupported('modified argument is not an object')
        t = ip.place_type(st, pl)
        cls = fn.get('_cls')
        if m == 'this' and t[0] == 'rec' and cls and t[1] != cls and cls in ip.S.tu.records:
            # a member function of a base class: the fields a derived class adds stay as they are
            old = ip.get(st, pl)
            base = [f for f, _ in ip.S.fields(('rec', cls))]
            if isinstance(old, VRec) and all(f in old.f for f in base):
                v = ip.S.fresh('mod', ('rec', cls))
                st.assume(*ip.S.range_facts(v, ('rec', cls)))
                ip.set(st, pl, VRec(old.t, dict(old.f, **v.f)))
                return
        v = ip.S.fresh('mod', t)
        st.assume(*ip.S.range_facts(v, t))
        ip.set(st, pl, v)

    # -------------------------------------------------- verifying the body
    def verify(self, ip, fn, alias=None, tag=''):
        name = self.name + tag + ('[' + ','.join('%s is %s' % kv for kv in alias.items()) + ']' if alias else '')
        ip.fn = name
        st = State()
        ip.models.begin(st) if hasattr(ip.models, 'begin') else None
        d = ip.tu.definition(fn['id']) or fn
        this = None
        cls = d.get('_cls')
        is_ctor = d.get('kind') == 'CXXConstructorDecl'
        static = d.get('storageClass') == 'static'
        if cls and d.get('kind') in ('CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl') and not static:
            t = ('rec', cls)
            if is_ctor:
                v = VRec(t, {f: ip.undef(st, f, ft) for f, ft in ip.S.fields(t)})
            else:
                v = ip.S.fresh('this', t)
            this = st.new_cell(v, t, 'this')
            if not is_ctor:
                st.assume(*ip.S.range_facts(v, t))
        args = []
        params = [p for p in d.inner if p.get('kind') == 'ParmVarDecl']
        for i, p in enumerate(params):
            t = of(p)
            if alias and i in alias:
                args.append(this if alias[i] == 'this' else args[alias[i]])
                continue
            bt = strip_ref(t)
            v = ip.S.fresh(p.get('name', 'arg%d' % i), bt)
            st.assume(*ip.S.range_facts(v, bt))
            args.append(st.new_cell(v, bt, p.get('name', 'arg%d' % i)))
        for t in getattr(ip, 'heap_types', ()):
            root = 'heap:' + show(t)
            st.cells[root] = VRec(('heap', t), {'alive': z3.Const('alive0', z3.ArraySort(I, B)), 'val': z3.Const('val0', z3.ArraySort(I, ip.S.sort(t))), 'count': z3.Int('count0')})
            st.types[root] = ('heap', t)
        for root, f in getattr(ip, 'ghost_heaps', {}).items():
            st.cells[root] = VRec(('heap', None), {k: z3.Const(k + '0', x) for k, x in f.items()})
            st.types[root] = ('heap', None)
        if self.setup:
            self.setup(ip, st, this, args)
        c = Ctx(ip, fn, st, st, this, args)
        for lab, f in self.requires(c):
            st.assume(f)
        for f in getattr(self, 'defs', lambda c: [])(c):
            st.assume(f)
        # vacuity: the precondition must not be contradictory
        ok = ip.solver.consistent(st.pc)
        ip.record_check('precondition satisfiable (vacuity)', ok)
        pre = st.fork()
        ip.fctx = Ctx(ip, fn, pre, pre, this, args)
        ip.hint_providers = [self.hints] if self.hints else []
        ip.hint_providers += ip.generic_hints
        tcond = self.throws(ip.fctx) if self.throws else None
        econd = self.exits(ip.fctx) if self.exits else None
        n = 0
        kinds = {}
        reach = False
        live = False
        for s, r in ip.inline(st, d, this, args):
            n += 1
            if s.abrupt:
                k = s.abrupt[0]
                s.abrupt = None
                kinds[k] = kinds.get(k, 0) + 1
                cond = {THROW: tcond, EXIT: econd}.get(k)
                ip.oblige(s, '%s only where the contract allows it' % {THROW: 'throws', EXIT: 'exits'}[k], cond if cond is not None else z3.BoolVal(False))
                if k == THROW and hasattr(self, 'throw_ensures'):
                    for lab, f in self.throw_ensures(Ctx(ip, fn, pre, s, this, args)):
                        ip.oblige(s, 'when throwing: ' + lab, f)
                continue
            reach = True
            live = live or ip.solver.consistent(s.pc, 2000)
            for cond, nm in ((tcond, 'throws'), (econd, 'exits')):
                if cond is not None:
                    ip.oblige(s, 'returns normally only where the contract does not say it %s' % nm, z3.Not(cond))
            c2 = Ctx(ip, fn, pre, s, this, args, r)
            rt = of_ret(d)
            if self.retplace:
                ip.oblige(s, 'postcondition: refers to the object named by the contract', place_eq(r, self.retplace(Ctx(ip, fn, pre, s, this, args))))
            for lab, f in self.ensures(c2):
                # a proved postcondition may be used for the ones after it
                ip.oblige(s, 'postcondition: ' + lab, f)
            # frame
            for i, a in enumerate(args):
                if i in self.modifies or (alias and i in alias and alias[i] == 'this' and 'this' in self.modifies) or not isinstance(a, Place):
                    continue
                if of(params[i])[0] != 'ref':
                    continue
                self._frame(ip, s, pre, a, 'argument %d unchanged' % i)
            if this is not None and 'this' not in self.modifies and not is_ctor:
                self._frame(ip, s, pre, this, '*this unchanged')
            for cid in pre.cells:
                if str(cid).startswith('g:') and cid not in self.modifies:
                    self._frame(ip, s, pre, Place(cid), 'global unchanged')
                if str(cid).startswith('heap:') and cid not in self.modifies:
                    self._frame(ip, s, pre, Place(cid), 'heap unchanged', raw=True)
        ip.record_check('some execution returns normally', reach)
        ip.record_check('facts on some returning path not contradictory (vacuity)', live)
        ip.hint_providers = []
        ip.fctx = None
        return kinds

    def _frame(self, ip, s, pre, pl, lab, raw=False):
        if raw:
            a, b = pre.cells[pl.root], s.cells[pl.root]
        else:
            a, b = ip.get(pre, pl), ip.get(s, pl)
        for (p, x), (_, y) in zip(leaves(a), leaves(b)):
            if not x.eq(y):
                ip.oblige(s.fork(), 'frame: %s (%s)' % (lab, '.'.join(map(str, p))), x == y)


class ContractSet:
    def __init__(self):
        self.by = {}

    def add(self, *cs):
        for c in cs:
            self.by.setdefault(c.name.split('#')[0], []).append(c)
        return cs[0] if len(cs) == 1 else cs

    def key(self, fn):
        return generic(fn.get('_qname', fn.get('name', '?')))

    def lookup(self, ip, fn):
        for c in self.by.get(self.key(fn), []):
            if c.sel is None or c.sel(fn):
                return c
        return None


def nparams(fn):
    return [p for p in fn.inner if p.get('kind') == 'ParmVarDecl']


def ptypes(fn):
    return [of(p) for p in nparams(fn)]
