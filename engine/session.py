"""A verification session: one translation unit, its contracts, and the functions to verify."""
import os
import sys
import time
import traceback
import z3
sys.setrecursionlimit(20000)
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from cppast import TU, FrontEndError
from values import *
from ctypes_ import *
from solver import *
from stdmodel import *
from interp import Interp
from contract import *


class Session:
    def __init__(self, driver, opaque=(), extra=(), timeout=8000, stubs=False, strings=None):
        self.driver = os.path.join(ROOT, 'drivers', driver)
        self.tu = TU(self.driver, extra, stubs)
        self.sorts = Sorts(self.tu, {n.removesuffix(':ring'): I if n.endswith(':ring') else z3.DeclareSort(n) for n in opaque})
        self.sorts.rings = {n.removesuffix(':ring') for n in opaque if n.endswith(':ring')}
        if strings == 'seq':
            self.sorts.str = z3.StringSort()
        self.theory = Theory()
        mul, off = arith_axioms()
        self.theory.add(['mul'], mul)
        self.theory.add(['off'], off)
        self.theory.add(['SUM', 'PERM', 'CNT'], sum_axioms())
        self.solver = Solver(self.theory, timeout)
        self.models = StdModel(self.sorts)
        self.models.theory = self.theory
        self.contracts = ContractSet()
        self.ip = Interp(self.tu, self.sorts, self.solver, self.contracts, self.models)
        for n in opaque:
            if not n.endswith(':ring'):
                self.opaque_equality(n)
            else:
                self.ip.assumed.add('the numeric/operator type parameters form a commutative ring/module: += adds, * multiplies, construction from 0 gives zero (rounding of floating-point types is not modelled)')
        self.results = []     # (contract name, status, detail)
        self.verified = []

    def opaque_equality(self, n):
        s = self.sorts.opaque[n]
        eq = z3.Function('eq_' + n, s, s, B)
        a, b, c = z3.Consts('ea eb ec', s)
        self.theory.add([eq.name()], [
            z3.ForAll([a], eq(a, a), patterns=[eq(a, a)]),
            z3.ForAll([a, b], eq(a, b) == eq(b, a), patterns=[eq(a, b)]),
            z3.ForAll([a, b, c], z3.Implies(z3.And(eq(a, b), eq(b, c)), eq(a, c)), patterns=[z3.MultiPattern(eq(a, b), eq(b, c))]),
        ])
        self.models.eqpred[n] = lambda x, y: eq(x, y)
        self.ip.assumed.add('operator== of the element type parameter is an equivalence relation and its copy operations copy')

    def functions_for(self, c):
        """definitions in the source a contract is about"""
        out = []
        seen = set()
        for f in self.tu.functions.values():
            if generic(f['_qname']) != c.name.split('#')[0]:
                continue
            d = self.tu.definition(f['id'])
            if self.tu.body(d) is None or d['id'] in seen:
                continue
            if c.sel is not None and not c.sel(d):
                continue
            seen.add(d['id'])
            out.append(d)
        return out

    def verify(self, c, only=None, tag=''):
        """verify one contract against every matching definition; -> list of result dicts"""
        rs = []
        fns = self.functions_for(c)
        if only:
            fns = [f for f in fns if only(f)]
        if not fns:
            rs.append(dict(fn=c.name, status='missing', detail='no definition of %s found in the source' % c.name, obls=[]))
        for f in fns:
            for alias in [None] + list(c.aliases):
                n0 = len(self.ip.obls)
                t0 = time.time()
                q = f['_qname']
                lab = c.name + (' {%s}' % q if '<' in q else '')
                try:
                    self.ip.suppress = 0
                    self.ip.loop_stack = []
                    self.ip.light = 0
                    self.ip.memo = []
                    c.verify(self.ip, f, alias, tag='')
                    self.ip.discharge(self.ip.obls[n0:])
                    ob = self.ip.obls[n0:]
                    bad = [o for o in ob if o.status != 'discharged']
                    st = 'proved' if not bad else 'failed'
                    det = ''
                except Unsupported as ex:
                    ob = self.ip.obls[n0:]
                    st, det = 'unsupported', str(ex)
                    bad = []
                except z3.Z3Exception as ex:
                    ob = self.ip.obls[n0:]
                    st, det = 'unsupported', 'sort mismatch: ' + str(ex)[:300]
                except (KeyError, AttributeError, IndexError, TypeError, AssertionError, ValueError) as ex:
                    ob = self.ip.obls[n0:]
                    st, det = 'unsupported', 'engine: %s %s' % (type(ex).__name__, traceback.format_exc()[-700:])
                if st == 'unsupported':
                    for o in ob:
                        if o.status is None:
                            o.status, o.detail = 'unknown', 'not attempted: the function left the verifier subset'
                self.ip.suppress = 0
                self.ip.hint_providers = []
                rs.append(dict(fn=lab + (' [aliased]' if alias else ''), status=st, detail=det, obls=ob, time=time.time() - t0))
        self.results += rs
        return rs


def report(rs, verbose=True, out=sys.stdout):
    for r in rs:
        n = len(r['obls'])
        d = sum(1 for o in r['obls'] if o.status == 'discharged')
        out.write('%-60s %-12s %d/%d  %.1fs %s\n' % (r['fn'], r['status'], d, n, r.get('time', 0), r['detail']))
        if verbose:
            for o in r['obls']:
                if o.status != 'discharged':
                    out.write('     FAILED %s | %s | %s\n' % (o.fn, o.name, o.detail[:150]))
    out.flush()
