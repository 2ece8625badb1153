"""Symbolic executor for LLVM IR over mathematical integers and exact reals, deciding with Z3.

Run as: python3-vt lsx.py JOB.json   (see lsxq.py). Integers are kept as mathematical integers congruent to the
machine value and reduced to the signed or unsigned range only where an operation needs it; doubles are exact
real numbers (quotients as numerator and a product of denominators); libm functions are uninterpreted constants
per argument with their defining or bounding axioms. Paths fork at undecided branches."""
import re
import json
import math
import os
import random
import struct
import subprocess
import sys
import time
from fractions import Fraction

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import z3  # noqa: E402
from vlib.llir import Module  # noqa: E402

sys.setrecursionlimit(100000)
NAN = float('nan')


class Stop(Exception):
    """End of this path."""


class Fork(Exception):
    def __init__(self, cond):
        self.cond = cond


class Violated(Exception):
    pass


class NoVerdict(Exception):
    pass


class I:
    """An integer congruent to the machine value; lo <= e <= hi; divisible by 2^tz."""
    __slots__ = ('e', 'lo', 'hi', 'tz')

    def __init__(self, e, lo, hi, tz=0):
        self.e, self.lo, self.hi, self.tz = e, lo, hi, tz


class R:
    """num / prod(d**p)"""
    __slots__ = ('n', 'd')

    def __init__(self, n, d=()):
        self.n, self.d = n, d


class Any_:
    def __repr__(self):
        return 'ANY'


ANY = Any_()  # unknown double (result of an undefined operation)
UNDEF = ('undef',)


class Ptr:
    __slots__ = ('o', 'off')

    def __init__(self, o, off=0):
        self.o, self.off = o, off


class FPtr:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name


class Packed:
    __slots__ = ('pieces', 'n')

    def __init__(self, pieces, n):
        self.pieces, self.n = pieces, n


NULL = Ptr(0, 0)


class Obj:
    __slots__ = ('size', 'cells', 'base', 'alive', 'name', 'owner')

    def __init__(self, size, base, name, owner):
        self.size, self.cells, self.base, self.alive, self.name, self.owner = size, {}, base, True, name, owner

    def copy(self, owner):
        o = Obj(self.size, self.base, self.name, owner)
        o.cells = dict(self.cells)
        o.alive = self.alive
        return o


class Frame:
    __slots__ = ('fn', 'bb', 'prev', 'i', 'regs', 'dst', 'allocas')

    def __init__(self, fn):
        self.fn, self.bb, self.prev, self.i, self.regs, self.dst, self.allocas = fn, fn.entry, None, 0, {}, None, []

    def clone(self):
        f = Frame(self.fn)
        f.bb, f.prev, f.i, f.dst = self.bb, self.prev, self.i, self.dst
        f.regs = dict(self.regs)
        f.allocas = list(self.allocas)
        return f


_vars = {}
_keep = []


def vars_of(e):
    k = e.get_id()
    r = _vars.get(k)
    if r is not None:
        return r
    stack = [e]
    while stack:
        x = stack[-1]
        xi = x.get_id()
        if xi in _vars:
            stack.pop()
            continue
        ch = x.children()
        todo = [c for c in ch if c.get_id() not in _vars]
        if todo:
            stack.extend(todo)
            continue
        if not ch:
            s = frozenset([xi]) if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED else frozenset()
        else:
            s = frozenset().union(*[_vars[c.get_id()] for c in ch])
        _vars[xi] = s
        _keep.append(x)
        stack.pop()
    return _vars[k]


def rv(x):
    return z3.RealVal(x.numerator) / z3.RealVal(x.denominator) if isinstance(x, Fraction) else z3.RealVal(x)


def rval(x):
    return z3.Q(x.numerator, x.denominator)


def zbool(b):
    return z3.BoolVal(b) if isinstance(b, bool) else b


def znot(b):
    return (not b) if isinstance(b, bool) else z3.Not(b)


def zand(a, b):
    if isinstance(a, bool):
        return b if a else False
    if isinstance(b, bool):
        return a if b else False
    return z3.And(a, b)


def simp(b):
    if isinstance(b, bool):
        return b
    s = z3.simplify(b)
    if z3.is_true(s):
        return True
    if z3.is_false(s):
        return False
    return s


def f2d(x):
    """nearest double of a Fraction"""
    try:
        return x.numerator / x.denominator
    except OverflowError:
        return float('inf') if x > 0 else float('-inf')


class State:
    _n = 0

    def __init__(self):
        State._n += 1
        self.id = State._n
        self.frames, self.objs, self.pc, self.inputs, self.facts = [], {}, [], [], {}
        self.globals, self.nobj, self.model, self.ufs, self.defs, self.log = {}, 1, {}, {}, {}, []
        self.steps = 0
        self.order = []  # uninterpreted applications in order of creation: (name, arg, results)

    def clone(self):
        s = State.__new__(State)
        State._n += 1
        s.id = State._n
        s.frames = [f.clone() for f in self.frames]
        s.objs = dict(self.objs)
        s.pc = list(self.pc)
        s.inputs = list(self.inputs)
        s.facts = dict(self.facts)
        s.globals = dict(self.globals)
        s.nobj = self.nobj
        s.model = dict(self.model) if self.model is not None else None
        s.ufs = {k: list(v) for k, v in self.ufs.items()}
        s.defs = dict(self.defs)
        s.log = list(self.log)
        s.order = list(self.order)
        s.steps = 0
        # both sides now share the objects: neither owns them
        self.id = State._n + 1
        State._n += 1
        return s


class Engine:
    def __init__(self, job):
        self.roots = {}
        self.job = job
        self.mod = Module(open(job['ll']).read())
        self.t_end = time.time() + job.get('timeout', 300)
        self.solver_s = 0.0
        self.nq = 0
        self.vccs = 0
        self.trivial = 0
        self.paths = 0
        self.steps = 0
        self.fresh_n = 0
        self.fns = set()
        self.wit = {}
        self.labels = set()
        self.notes = []
        self.violation = None
        self.unproved = []
        self.max_paths = job.get('max_paths', 20000)
        self.check_timeout = job.get('check_timeout', 40)
        self.branch_timeout = job.get('branch_timeout', 5)
        self.cache = {}
        self.lcache = {}
        self.later = []
        self.ranges = {}
        self.tcache = {}
        self.monos = {}
        self.abounds = {}
        self.rng = random.Random(job.get('seed', 1))

    # ---------------------------------------------------------------- solver
    def fresh(self, name, sort):
        self.fresh_n += 1
        return z3.Const('%s!%d' % (name, self.fresh_n), sort)

    def slice(self, st, conds):
        need = set()
        for c in conds:
            need |= vars_of(c)
        pcs = [(c, vars_of(c)) for c in st.pc]
        used = [False] * len(pcs)
        changed = True
        while changed:
            changed = False
            for i, (c, v) in enumerate(pcs):
                if not used[i] and (v & need):
                    used[i] = True
                    if not v <= need:
                        need |= v
                        changed = True
        return [c for i, (c, v) in enumerate(pcs) if used[i]], need

    def query(self, cons, timeout, want_model=False, hard=False):
        key = frozenset(c.get_id() for c in cons)
        if key in self.cache and not want_model:
            r = self.cache[key]
            if r != 'unknown' or not hard:
                return r, None
        if time.time() > self.t_end:
            raise NoVerdict('time limit')
        t0 = time.time()
        r, m = 'unknown', None
        if self.job.get('linabs'):
            x = self.linabs(cons, timeout)
            if x == z3.unsat or not hard:
                self.solver_s += time.time() - t0
                self.cache[key] = 'unsat' if x == z3.unsat else 'sat'
                _keep.extend(cons)
                return self.cache[key], None
        tries = [('default', timeout)] if not hard else [('default', min(10, timeout)), ('nlsat', timeout), ('default', timeout)]
        for name, to in tries:
            to = max(0.2, min(to, self.t_end - time.time()))
            if name == 'nlsat':
                s = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'elim-uncnstr', 'qfnra-nlsat').solver()
                if any(has_int(c) for c in cons):
                    continue
            else:
                s = z3.Solver()
            s.set('timeout', int(to * 1000))
            s.add(*cons)
            self.nq += 1
            try:
                x = s.check()
            except z3.Z3Exception:
                x = z3.unknown
            if x == z3.sat:
                r, m = 'sat', s.model()
                break
            if x == z3.unsat:
                r = 'unsat'
                break
        self.solver_s += time.time() - t0
        if os.environ.get('LSX_DEBUG') and time.time() - t0 > 0.5:
            print('slow %.1fs %s n=%d %s' % (time.time() - t0, r, len(cons), str(cons[-1])[:int(os.environ['LSX_DEBUG'])].replace('\n', ' ')), file=sys.stderr)
        self.cache[key] = r
        _keep.extend(cons)
        return r, m

    def hard_timeout(self):
        if self.job.get('assume_nonzero'):
            return min(self.check_timeout, 4)
        return min(self.check_timeout, 10) if self.job.get('linabs') else self.check_timeout

    def linabs(self, cons, timeout):
        """Satisfiability with every non-linear monomial taken for an independent variable: 'unsat' is sound."""
        s = z3.Solver()
        s.set('timeout', int(1000 * min(timeout, 10)))
        s.add(*[self.labs(z3.simplify(c, som=True)) for c in cons])
        self.nq += 1
        try:
            return s.check()
        except z3.Z3Exception:
            return z3.unknown

    def labs(self, e):
        k = e.get_id()
        if k in self.lcache:
            return self.lcache[k][1]
        r = e
        if z3.is_app(e) and e.num_args():
            d = e.decl().kind()
            if d in (z3.Z3_OP_MUL, z3.Z3_OP_POWER):
                a = [x for x in e.children() if not (z3.is_rational_value(x) or z3.is_int_value(x))]
                c = [x for x in e.children() if z3.is_rational_value(x) or z3.is_int_value(x)] if d == z3.Z3_OP_MUL else []
                if d == z3.Z3_OP_POWER or len(a) > 1:
                    mono = e if d == z3.Z3_OP_POWER else tuple(sorted(x.get_id() for x in a))
                    mk = mono if isinstance(mono, tuple) else mono.get_id()
                    _keep.extend(a)
                    if (mk, e.sort().name()) not in self.monos:
                        self.monos[mk, e.sort().name()] = self.fresh('mono', e.sort())
                    r = self.monos[mk, e.sort().name()]
                else:
                    r = self.labs(a[0]) if a else e
                for x in (c if r is not e else []):
                    r = x * r
            else:
                ch = [self.labs(x) for x in e.children()]
                if any(x is not y for x, y in zip(ch, e.children())):
                    r = {z3.Z3_OP_ADD: lambda: z3.Sum(ch), z3.Z3_OP_AND: lambda: z3.And(*ch), z3.Z3_OP_OR: lambda: z3.Or(*ch)}.get(d, lambda: e.decl()(*ch))()
        self.lcache[k] = (e, r)
        return r

    def model_val(self, st, e):
        if st.model is None:
            return None
        vs = vars_of(e)
        sub = []
        for v in vs:
            if v not in st.model:
                return None
            sub.append(st.model[v])
        x = z3.simplify(z3.substitute(e, *sub)) if sub else z3.simplify(e)
        return x

    def adopt(self, st, need, m):
        """Update the state's model of the whole path condition with a model of an independent slice."""
        if st.model is None or m is None:
            st.model = None
            return
        for d in m.decls():
            c = d()
            v = m[d]
            if z3.is_algebraic_value(v):
                st.model = None
                return
            st.model[c.get_id()] = (c, v)
            _keep.append(c)

    def feasible(self, st, cond):
        """('sat'|'unsat'|'unknown', model of the slice or None)"""
        sl, need = self.slice(st, [cond])
        return self.query(sl + [cond], self.branch_timeout, True), need

    def choose(self, st, cond):
        cond = simp(cond)
        if isinstance(cond, bool):
            return cond
        k = cond.get_id()
        if k in st.facts:
            return st.facts[k][1]
        neg = z3.simplify(z3.Not(cond))
        if neg.get_id() in st.facts:
            return not st.facts[neg.get_id()][1]
        mv = self.model_val(st, cond)
        kt = kf = None
        if mv is not None and z3.is_true(mv):
            kt = True
        elif mv is not None and z3.is_false(mv):
            kf = True
        if kt is None:
            (r, m), need = self.feasible(st, cond)
            if r == 'unsat':
                st.facts[k] = (cond, False)
                return False
        if kf is None:
            (r, m), need = self.feasible(st, neg)
            if r == 'unsat':
                st.facts[k] = (cond, True)
                return True
        raise Fork(cond)

    def add(self, st, cond):
        """Adds a constraint to the path condition; Stop if it contradicts it."""
        cond = simp(cond)
        if cond is True:
            return
        if cond is False:
            raise Stop()
        st.pc.append(cond)
        st.facts[cond.get_id()] = (cond, True)
        if z3.is_and(cond):
            for c in cond.children():
                st.facts[c.get_id()] = (c, True)
        mv = self.model_val(st, cond)
        if mv is not None and z3.is_true(mv):
            return
        sl, need = self.slice(st, [cond])
        r, m = self.query(sl, self.branch_timeout, True)
        if r == 'unsat':
            raise Stop()
        if r == 'sat':
            if st.model is None and not st.order:
                r2, m2 = self.query(list(st.pc), 1, True)
                st.model = {}
                if r2 == 'sat':
                    self.adopt(st, None, m2)
                else:
                    st.model = None
            elif st.model is not None:
                self.adopt(st, need, m)
        else:
            st.model = None

    def axiom(self, st, cond):
        cond = simp(cond)
        if cond is True:
            return
        st.pc.append(zbool(cond))
        st.model = None

    # ---------------------------------------------------------------- linear forms
    def lin(self, e):
        """(constant, [(coefficient, atom)]) of a simplified sum; exact rationals."""
        const, terms = Fraction(0), []
        stack = [(Fraction(1), e)]
        while stack:
            k, x = stack.pop()
            d = x.decl().kind()
            if z3.is_int_value(x):
                const += k * x.as_long()
            elif z3.is_rational_value(x):
                const += k * Fraction(x.numerator_as_long(), x.denominator_as_long())
            elif d == z3.Z3_OP_ADD:
                stack.extend((k, c) for c in x.children())
            elif d == z3.Z3_OP_SUB:
                ch = x.children()
                stack.append((k, ch[0]))
                stack.extend((-k, c) for c in ch[1:])
            elif d == z3.Z3_OP_UMINUS:
                stack.append((-k, x.arg(0)))
            elif d == z3.Z3_OP_MUL and x.num_args() == 2 and (z3.is_int_value(x.arg(0)) or z3.is_rational_value(x.arg(0))):
                v = x.arg(0)
                stack.append((k * (v.as_long() if z3.is_int_value(v) else Fraction(v.numerator_as_long(), v.denominator_as_long())), x.arg(1)))
            elif d == z3.Z3_OP_TO_REAL and x.arg(0).decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_MUL):
                stack.append((k, x.arg(0)))
            else:
                terms.append((k, x))
        acc = {}
        for k, x in terms:
            i = x.get_id()
            acc[i] = (acc[i][0] + k if i in acc else k, x)
        return const, [(k, x) for k, x in acc.values() if k != 0]

    def setb(self, e, lo, hi):
        self.abounds[e.get_id()] = (lo, hi)
        _keep.append(e)

    def linb(self, const, terms):
        lo = hi = const
        for k, x in terms:
            if x.decl().kind() == z3.Z3_OP_TO_REAL:
                x = x.arg(0)
            b = self.abounds.get(x.get_id())
            if b is None:
                return None, None
            lo += min(k * b[0], k * b[1])
            hi += max(k * b[0], k * b[1])
        return lo, hi

    def lsum(self, const, terms, real):
        e = None
        for k, x in terms:
            if real and z3.is_int(x):
                x = z3.ToReal(x)
            t = x if k == 1 else (rval(Fraction(k)) if real else z3.IntVal(int(k))) * x
            e = t if e is None else e + t
        c = rval(Fraction(const)) if real else z3.IntVal(int(const))
        if e is None:
            return c
        return e if const == 0 else e + c

    def cell(self, st, const, terms, real):
        """floor of a linear form if it is the same everywhere on the path, else None."""
        lo, hi = self.linb(const, terms)
        if lo is not None and math.floor(lo) == math.floor(hi):
            return math.floor(lo)
        e = z3.simplify(self.lsum(const, terms, True))
        mv = self.model_val(st, e)
        if mv is not None and z3.is_rational_value(mv):
            j = math.floor(Fraction(mv.numerator_as_long(), mv.denominator_as_long()))
        else:
            sl, _ = self.slice(st, [e == 0])
            r, m = self.query(sl + [e == e], 1, True)
            if r != 'sat':
                return None
            if m is None:
                return None
            v = m.eval(e, model_completion=True)
            if not z3.is_rational_value(v):
                return None
            j = math.floor(Fraction(v.numerator_as_long(), v.denominator_as_long()))
        n = z3.simplify(z3.Or(e < j, e >= j + 1))
        if z3.is_false(n):
            return j
        sl, _ = self.slice(st, [n])
        r, _ = self.query(sl + [n], 2)
        return j if r == 'unsat' else None

    def idivc(self, st, u, c):
        """floor(u / c), c > 0 constant"""
        if isinstance(u, int):
            return u // c
        if c == 1:
            return u
        if u.lo // c == u.hi // c:
            return u.lo // c
        e = z3.simplify(u.e)
        const, terms = self.lin(e)
        q = [(k / c, x) for k, x in terms if (k / c).denominator == 1]
        r = [(k / c, x) for k, x in terms if (k / c).denominator != 1]
        qc = math.floor(const / c)
        j = self.cell(st, const / c - qc, r, False)
        lo, hi = u.lo // c, u.hi // c
        if j is not None:
            x = self.lsum(qc + j, q, False)
            if z3.is_int_value(x):
                return x.as_long()
            return I(x, lo, hi)
        x = e / c
        self.setb(z3.simplify(x), lo, hi)
        return I(x, lo, hi)

    def imodc(self, st, u, c):
        if isinstance(u, int):
            return u % c
        q = self.idivc(st, u, c)
        r = self.iadd(u, self.imulc(q, -c))
        if isinstance(r, int):
            return r
        return I(z3.simplify(r.e), max(0, r.lo), min(c - 1, r.hi) if r.hi >= 0 else c - 1, min(r.tz, u.tz))

    # ---------------------------------------------------------------- integers
    def in_range(self, st, v, lo, hi):
        if v.lo >= lo and v.hi <= hi:
            return True
        if v.hi < lo or v.lo > hi:
            return False
        c = z3.simplify(z3.And(v.e >= lo, v.e <= hi))
        k = ('rng', c.get_id())
        if k in st.facts:
            return st.facts[k][1]
        ok = False
        mv = self.model_val(st, c)
        if mv is None or not z3.is_false(mv):
            n = z3.Not(c)
            sl, _ = self.slice(st, [n])
            r, _ = self.query(sl + [n], 2)
            ok = r == 'unsat'
        st.facts[k] = (c, ok)
        return ok

    def signed(self, st, v, w):
        if isinstance(v, bool):
            return -int(v) if w == 1 else int(v)
        h = 1 << (w - 1)
        if isinstance(v, int):
            return ((v + h) & (2 * h - 1)) - h
        k = (v.lo + h) // (2 * h)
        if k and k == (v.hi + h) // (2 * h):
            return self.iadd(v, -2 * h * k)
        if self.in_range(st, v, -h, h - 1):
            return v if v.lo >= -h and v.hi < h else I(v.e, max(v.lo, -h), min(v.hi, h - 1), v.tz)
        if v.lo >= -3 * h and v.hi < 3 * h:
            return I(z3.If(v.e >= h, v.e - 2 * h, z3.If(v.e < -h, v.e + 2 * h, v.e)), -h, h - 1, v.tz)
        return self.iadd(self.imodc(st, self.iadd(v, h), 2 * h), -h)

    def unsigned(self, st, v, w):
        if isinstance(v, bool):
            return int(v)
        m = 1 << w
        if isinstance(v, int):
            return v & (m - 1)
        k = v.lo // m
        if k and k == v.hi // m:
            return self.iadd(v, -m * k)
        if self.in_range(st, v, 0, m - 1):
            return v if v.lo >= 0 and v.hi < m else I(v.e, max(v.lo, 0), min(v.hi, m - 1), v.tz)
        if v.lo >= -m and v.hi < 2 * m:
            return I(z3.If(v.e >= m, v.e - m, z3.If(v.e < 0, v.e + m, v.e)), 0, m - 1, v.tz)
        return self.imodc(st, v, m)

    def int_of(self, st, v, w):
        """An int or I from any integer-typed register value."""
        if isinstance(v, (int, I)) and not isinstance(v, bool):
            return v
        if isinstance(v, bool):
            return int(v)
        if z3.is_expr(v) and z3.is_bool(v):
            return I(z3.If(v, z3.IntVal(1), z3.IntVal(0)), 0, 1)
        if isinstance(v, Packed):
            t = 0
            for off, n, x in v.pieces:
                if x is UNDEF or isinstance(x, (R, Fraction, float)):
                    return I(self.fresh('mix', z3.IntSort()), 0, (1 << w) - 1)
                t = self.iadd(t, self.imulc(self.unsigned(st, self.int_of(st, x, 8 * n), 8 * n), 1 << (8 * off)))
            return t
        if v is UNDEF:
            x = self.fresh('undef', z3.IntSort())
            st.pc.append(z3.And(x >= 0, x < (1 << w)))
            st.model = None
            return I(x, 0, (1 << w) - 1)
        if isinstance(v, (Ptr, FPtr)):
            return v
        raise NoVerdict('integer from %r' % (v,))

    @staticmethod
    def ex(v):
        return z3.IntVal(v) if isinstance(v, int) else v.e

    @staticmethod
    def bnd(v):
        return (v, v) if isinstance(v, int) else (v.lo, v.hi)

    @staticmethod
    def tzof(v):
        if isinstance(v, int):
            return 64 if v == 0 else (v & -v).bit_length() - 1
        return v.tz

    def iadd(self, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return a + b
        if isinstance(a, int) and a == 0:
            return b
        if isinstance(b, int) and b == 0:
            return a
        (al, ah), (bl, bh) = self.bnd(a), self.bnd(b)
        e = z3.simplify(self.ex(a) + self.ex(b))
        if z3.is_int_value(e):
            return e.as_long()
        lo, hi = self.linb(*self.lin(e))
        if lo is None:
            lo, hi = al + bl, ah + bh
        return I(e, max(al + bl, math.ceil(lo)), min(ah + bh, math.floor(hi)), min(self.tzof(a), self.tzof(b)))

    def imulc(self, a, c):
        if isinstance(a, int):
            return a * c
        if c == 0:
            return 0
        if c == 1:
            return a
        lo, hi = sorted((a.lo * c, a.hi * c))
        return I(a.e * c, lo, hi, min(64, a.tz + self.tzof(c)))

    def imul(self, a, b):
        if isinstance(b, int):
            return self.imulc(a, b)
        if isinstance(a, int):
            return self.imulc(b, a)
        c = [a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi]
        return I(a.e * b.e, min(c), max(c), min(64, a.tz + b.tz))

    def shr(self, st, u, k):
        if isinstance(u, int):
            return u >> k
        if k == 0:
            return u
        return self.idivc(st, u, 1 << k)

    def mask(self, st, u, m):
        """u & m for unsigned u (range known nonnegative) and constant m >= 0"""
        if isinstance(u, int):
            return u & m
        if m == 0:
            return 0
        t = 0
        k = 0
        while m >> k:
            if not (m >> k) & 1:
                k += 1
                continue
            e = k
            while (m >> e) & 1:
                e += 1
            # bits k..e-1
            x = u
            if k >= u.hi.bit_length():
                break
            if e < u.hi.bit_length():
                x = self.imodc(st, u, 1 << e)
            if k > u.tz:
                x = self.imulc(self.idivc(st, x, 1 << k), 1 << k)
            t = self.iadd(t, x)
            k = e
        return t

    def iand(self, st, a, b, w):
        a, b = self.unsigned(st, a, w), self.unsigned(st, b, w)
        if isinstance(b, int):
            return self.mask(st, a, b)
        if isinstance(a, int):
            return self.mask(st, b, a)
        if a.hi < (1 << b.tz) or b.hi < (1 << a.tz):
            return 0
        if a.e.get_id() == b.e.get_id():
            return a
        n = max(1, min(a.hi.bit_length(), b.hi.bit_length()))
        if n <= 16:
            t = z3.IntVal(0)
            for k in range(n):
                t = t + z3.If(z3.And((a.e / (1 << k)) % 2 == 1, (b.e / (1 << k)) % 2 == 1), z3.IntVal(1 << k), z3.IntVal(0))
            return I(t, 0, min(a.hi, b.hi))
        return I(z3.BV2Int(z3.Int2BV(a.e, w) & z3.Int2BV(b.e, w)), 0, min(a.hi, b.hi))

    def binop(self, st, op, w, a, b):
        if w == 1:
            a, b = self.as_bool(st, a), self.as_bool(st, b)
            if op == 'and':
                return zand(a, b)
            if op == 'or':
                return znot(zand(znot(a), znot(b)))
            if op in ('xor', 'add', 'sub'):
                if isinstance(a, bool):
                    return znot(b) if a else b
                if isinstance(b, bool):
                    return znot(a) if b else a
                return z3.Xor(a, b)
            raise NoVerdict('i1 ' + op)
        a, b = self.int_of(st, a, w), self.int_of(st, b, w)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr) and a.o == b.o:
                return self.iadd(self.int_of(st, a.off, 64), self.imulc(self.int_of(st, b.off, 64), -1))
            if op in ('add', 'sub') and isinstance(a, Ptr):
                return Ptr(a.o, self.iadd(a.off, b if op == 'add' else self.imulc(b, -1)))
            raise NoVerdict('pointer arithmetic ' + op)
        if op == 'add':
            r = self.iadd(a, b)
        elif op == 'sub':
            r = self.iadd(a, self.imulc(b, -1))
        elif op == 'mul':
            r = self.imul(a, b)
        elif op == 'shl':
            b = self.concrete(st, self.unsigned(st, b, w))
            if b >= w:
                return UNDEF
            r = self.imulc(a, 1 << b)
        elif op == 'lshr':
            b = self.concrete(st, self.unsigned(st, b, w))
            r = self.shr(st, self.unsigned(st, a, w), b)
        elif op == 'ashr':
            b = self.concrete(st, self.unsigned(st, b, w))
            r = self.shr(st, self.signed(st, a, w), b)
        elif op == 'and':
            r = self.iand(st, a, b, w)
        elif op == 'or':
            r = self.iadd(self.iadd(self.unsigned(st, a, w), self.unsigned(st, b, w)), self.imulc(self.iand(st, a, b, w), -1))
        elif op == 'xor':
            if isinstance(b, int) and self.signed(st, b, w) == -1:
                r = self.iadd(-1, self.imulc(a, -1))
            else:
                r = self.iadd(self.iadd(self.unsigned(st, a, w), self.unsigned(st, b, w)), self.imulc(self.iand(st, a, b, w), -2))
        elif op in ('udiv', 'urem', 'sdiv', 'srem'):
            s = op[0] == 's'
            a, b = (self.signed if s else self.unsigned)(st, a, w), (self.signed if s else self.unsigned)(st, b, w)
            if self.is_true_cond(st, self.ex(b) == 0):
                self.bug(st, 'division by zero')
                raise Stop()
            if isinstance(a, int) and isinstance(b, int):
                q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
                r = q if op[1:] == 'div' else a - q * b
            else:
                ae, be = self.ex(a), self.ex(b)
                (al, ah), (bl, bh) = self.bnd(a), self.bnd(b)
                if isinstance(b, int) and b > 0 and (al >= 0 or self.in_range(st, a, 0, ah)):
                    if op[1:] == 'div':
                        return self.idivc(st, a, b)
                    return self.imodc(st, a, b)
                if al >= 0 and bl >= 0:
                    q = ae / be
                    m = ae % be
                else:
                    ab, bb = z3.If(ae >= 0, ae, -ae), z3.If(be >= 0, be, -be)
                    if isinstance(b, int):
                        bb = z3.IntVal(abs(b))
                    q = ab / bb
                    q = z3.If((ae >= 0) == (be >= 0), q, -q)
                    m = ae - q * be if not isinstance(b, int) else z3.If(ae >= 0, ab % bb, -(ab % bb))
                mx = max(abs(al), abs(ah))
                mb = max(abs(bl), abs(bh)) - 1
                md = max(1, min(abs(bl), abs(bh)) if (bl > 0 or bh < 0) else 1)
                if op[1:] == 'div':
                    neg = al < 0 or bl < 0
                    r = I(q, -(mx // md) if neg else 0, mx // md)
                else:
                    r = I(m, -min(mb, mx) if al < 0 else 0, min(mb, mx) if ah > 0 else 0)
        else:
            raise NoVerdict(op)
        if isinstance(r, I):
            e = z3.simplify(r.e)
            if z3.is_int_value(e):
                return e.as_long()
            r.e = e
        return r

    def concrete(self, st, v):
        """A Python int, forking over the feasible values."""
        if isinstance(v, int):
            return v
        if v.hi - v.lo > 300:
            vs = self.values(st, v, 400)
            for x in vs[:-1]:
                if self.choose(st, v.e == x):
                    return x
            return vs[-1]
        for x in range(v.lo, min(v.hi, v.lo + 300) + 1):
            c = v.e == x
            if v.hi == x and v.lo == x or self.choose(st, c):
                return x
        raise NoVerdict('too many values to concretise')

    def as_bool(self, st, v):
        if isinstance(v, bool) or (z3.is_expr(v) and z3.is_bool(v)):
            return v
        if isinstance(v, int):
            return bool(v & 1)
        if isinstance(v, I):
            return v.e % 2 == 1
        if v is UNDEF:
            return self.fresh('undefb', z3.BoolSort())
        raise NoVerdict('bool from %r' % (v,))

    def is_true_cond(self, st, c):
        return self.choose(st, c if isinstance(c, bool) else c)

    # ---------------------------------------------------------------- reals
    @staticmethod
    def pdens(d):
        e = None
        for _, x, p in d:
            for _ in range(p):
                e = x if e is None else e * x
        return e

    def plain(self, st, x):
        """A z3 real expression (introducing a quotient variable for a symbolic denominator)."""
        if isinstance(x, Fraction):
            return rval(x)
        if not x.d:
            return x.n
        k = (x.n.get_id(), tuple((i, p) for i, _, p in x.d))
        if k not in st.defs:
            q = self.fresh('quot', z3.RealSort())
            st.defs[k] = (q, x)
            st.pc.append(q * self.pdens(x.d) == x.n)
            st.model = None
            st.order.append(('quot', x, (q,)))
        return st.defs[k][0]

    @staticmethod
    def isf(x):
        return isinstance(x, float)

    def dmul(self, a, b):
        m = {}
        for i, e, p in a + b:
            m[i] = (e, m[i][1] + p if i in m else p)
        return tuple(sorted((i, e, p) for i, (e, p) in m.items())) if m else ()

    def dmiss(self, a, common):
        """product of common / a as expr, None if 1"""
        m = {i: p for i, _, p in a}
        return self.pdens([(i, e, p - m.get(i, 0)) for i, e, p in common if p > m.get(i, 0)])

    def dlcm(self, a, b):
        m = {i: (e, p) for i, e, p in a}
        for i, e, p in b:
            if i not in m or m[i][1] < p:
                m[i] = (e, p)
        return tuple(sorted((i, e, p) for i, (e, p) in m.items()))

    def num(self, x):
        return R(rval(x)) if isinstance(x, Fraction) else x

    def fold(self, r):
        if not r.d:
            if z3.is_rational_value(r.n):
                return Fraction(r.n.numerator_as_long(), r.n.denominator_as_long())
        if self.job.get('assume_nonzero'):  # regrouped sums and products become the same term, where they are small
            return R(z3.simplify(r.n, som=True, som_blowup=12), r.d)
        return r

    def fadd(self, st, a, b, sub=False):
        if a is ANY or b is ANY:
            return ANY
        if self.isf(a) or self.isf(b):
            if self.isf(a) and self.isf(b):
                return a - b if sub else a + b
            if self.isf(a):
                return a
            return -b if sub else b
        if isinstance(a, Fraction) and isinstance(b, Fraction):
            return a - b if sub else a + b
        if isinstance(b, Fraction) and b == 0:
            return a
        if isinstance(a, Fraction) and a == 0:
            return self.fneg(b) if sub else b
        a, b = self.num(a), self.num(b)
        if a.d == b.d:
            c, an, bn = a.d, a.n, b.n
        else:
            c = self.dlcm(a.d, b.d)
            ma, mb = self.dmiss(a.d, c), self.dmiss(b.d, c)
            an = a.n if ma is None else a.n * ma
            bn = b.n if mb is None else b.n * mb
        return self.fold(R(z3.simplify(an - bn if sub else an + bn), c))

    def fneg(self, a):
        if a is ANY:
            return a
        if isinstance(a, (Fraction, float)):
            return -a
        return R(z3.simplify(-a.n), a.d)

    def fmul(self, st, a, b):
        if a is ANY or b is ANY:
            return ANY
        if self.isf(a) or self.isf(b):
            x, y = (a, b) if self.isf(a) else (b, a)
            if isinstance(y, (Fraction, float)):
                return x * float(y)
            return ANY
        if isinstance(a, Fraction) and isinstance(b, Fraction):
            return a * b
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Fraction):
                if x == 0:
                    return Fraction(0)
                if x == 1:
                    return y
                return R(z3.simplify(y.n * rval(x)), y.d)
        a, b = self.cut(st, a), self.cut(st, b)
        return self.fold(R(z3.simplify(a.n * b.n), self.dmul(a.d, b.d)))

    def fdiv(self, st, a, b):
        if a is ANY or b is ANY:
            return ANY
        if self.isf(b):
            return Fraction(0) if b in (float('inf'), float('-inf')) and not self.isf(a) else NAN
        if self.isf(a):
            if isinstance(b, Fraction) and b != 0:
                return a if b > 0 else -a
            return ANY
        if isinstance(b, Fraction):
            if b == 0:
                if isinstance(a, Fraction):
                    return NAN if a == 0 else float('inf') if a > 0 else float('-inf')
                return ANY
            return self.fmul(st, a, 1 / b)
        if self.job.get('assume_nonzero'):
            # quotients by an expression that may vanish are outside the query (stated in its bounds)
            z = simp(b.n == 0)
            if z is True:
                return ANY
            if z is not False and z.get_id() not in st.facts:
                nz = z3.simplify(z3.Not(z))
                st.facts[z.get_id()] = (z, False)
                st.pc.append(nz)
                st.model = None
        elif self.choose(st, b.n == 0):
            return ANY
        if isinstance(a, Fraction) and a == 0:
            return a
        a = self.num(a)
        if self.job.get('cut'):
            a = self.cut(st, a)
            b = self.cut(st, b)
            st.facts[z3.simplify(b.n == 0).get_id()] = (z3.simplify(b.n == 0), False)
        # a / (bn/bd) = an * bd / (ad * bn)
        if b.d:
            # cancel common denominators
            ad = {i: p for i, _, p in a.d}
            num_mult, keep_d = [], []
            for i, e, p in b.d:
                c = min(p, ad.get(i, 0))
                ad[i] = ad.get(i, 0) - c
                if p > c:
                    num_mult.append((i, e, p - c))
            ad_l = tuple((i, e, ad[i]) for i, e, p in a.d if ad[i] > 0)
            mult = self.pdens(num_mult)
            n = a.n if mult is None else a.n * mult
        else:
            ad_l, n = a.d, a.n
        if z3.is_rational_value(b.n):
            return R(z3.simplify(n / b.n), ad_l)
        bn = b.n
        if self.job.get('linabs'):
            bn = z3.simplify(bn, som=True, som_blowup=4000)
        _keep.append(bn)
        if n.get_id() == bn.get_id():
            return self.fold(R(z3.RealVal(1), ad_l))
        return self.fold(R(z3.simplify(n), self.dmul(ad_l, ((bn.get_id(), bn, 1),))))

    def sgn_cond(self, st, d, pred):
        """pred in eq, lt, gt: comparison of the rational function d with 0"""
        if isinstance(d, Fraction):
            return {'eq': d == 0, 'lt': d < 0, 'gt': d > 0, 'le': d <= 0, 'ge': d >= 0}[pred]
        if self.job.get('cut'):
            d = self.expand_all(st, d)
            if isinstance(d, Fraction):
                return {'eq': d == 0, 'lt': d < 0, 'gt': d > 0, 'le': d <= 0, 'ge': d >= 0}[pred]
        if self.job.get('square_roots') and not d.d and pred != 'eq':
            x = self.square(d.n, pred)
            if x is not None:
                return x
        if pred == 'eq':
            return d.n == 0
        odd = self.pdens([(i, e, 1) for i, e, p in d.d if p % 2 and not self.known_pos(st, e)])
        x = d.n if odd is None else d.n * odd
        return {'lt': x < 0, 'gt': x > 0, 'le': x <= 0, 'ge': x >= 0}[pred]

    def square(self, n, pred):
        """n pred 0 without its square roots: k*sqrt(p) + c, or k*sqrt(p) - l*sqrt(q)"""
        c, t = self.lin(z3.simplify(n))
        rt = [(k, self.roots.get(x.get_id())) for k, x in t]
        if not t or len(t) > 2 or any(r is None for k, r in rt):
            return None
        if len(t) == 2:
            (k, p), (l, q) = rt
            if c != 0 or k * l > 0:
                return None
            if k < 0:
                (k, p), (l, q) = (l, q), (k, p)
            x = self.z(k * k) * p[1] - self.z(l * l) * q[1]
        else:
            k, p = rt[0]
            v = -c / k
            if v < 0:
                r = {'lt': False, 'le': False, 'gt': True, 'ge': True}[pred]
                return r if k > 0 else {'lt': True, 'le': True, 'gt': False, 'ge': False}[pred]
            x = p[1] - self.z(v * v)
            if k < 0:
                x = -x
        x = z3.simplify(x, som=True)
        return z3.simplify({'lt': x < 0, 'gt': x > 0, 'le': x <= 0, 'ge': x >= 0}[pred])

    def z(self, v):
        return z3.RealVal('%d/%d' % (v.numerator, v.denominator))

    def known_pos(self, st, e):
        c = z3.simplify(e > 0)
        if z3.is_true(c):
            return True
        k = c.get_id()
        if k in st.facts:
            return st.facts[k][1] is True
        n = z3.Not(c)
        mv = self.model_val(st, c)
        if mv is not None and z3.is_false(mv):
            return False
        sl, _ = self.slice(st, [n])
        r, _ = self.query(sl + [n], 2)
        if r == 'unsat':
            st.facts[k] = (c, True)
            return True
        return False

    def fcmp(self, st, pred, a, b):
        if a is ANY or b is ANY:
            return self.fresh('anyc', z3.BoolSort())
        if pred in ('true', 'false'):
            return pred == 'true'
        if self.isf(a) or self.isf(b):
            nan = a != a if self.isf(a) else False
            nan = nan or (b != b if self.isf(b) else False)
            if nan:
                return pred[0] == 'u'
            if pred == 'ord':
                return True
            if pred == 'uno':
                return False
            fa = a if self.isf(a) else 0.0
            fb = b if self.isf(b) else 0.0
            return {'eq': fa == fb, 'ne': fa != fb, 'lt': fa < fb, 'gt': fa > fb, 'le': fa <= fb, 'ge': fa >= fb}[pred[1:]]
        if pred == 'ord':
            return True
        if pred == 'uno':
            return False
        p = pred[1:]
        d = self.fadd(st, a, b, True)
        if p == 'ne':
            return znot(self.sgn_cond(st, d, 'eq'))
        return self.sgn_cond(st, d, p)

    def toint(self, st, e):
        """floor as an Int expression"""
        e = z3.simplify(e)
        if z3.is_rational_value(e):
            f = Fraction(e.numerator_as_long(), e.denominator_as_long())
            return z3.IntVal(math.floor(f))
        if e.decl().kind() == z3.Z3_OP_TO_REAL:
            return e.arg(0)
        const, terms = self.lin(e)

        def isint(x):
            return z3.is_int(x) or x.decl().kind() == z3.Z3_OP_TO_REAL
        q = [(k, x.arg(0) if x.decl().kind() == z3.Z3_OP_TO_REAL else x) for k, x in terms if isint(x) and k.denominator == 1]
        r = [(k, x) for k, x in terms if not (isint(x) and k.denominator == 1)]
        qc = math.floor(const)
        j = self.cell(st, const - qc, r, True)
        if j is not None:
            return z3.simplify(self.lsum(qc + j, q, False))
        if q or qc:
            return z3.simplify(self.lsum(qc, q, False) + z3.ToInt(self.lsum(const - qc, r, True)))
        return z3.ToInt(e)

    def sign_known(self, st, e):
        """+1 if e >= 0 on the whole path, -1 if e <= 0, else 0"""
        c = z3.simplify(e >= 0)
        if z3.is_true(c):
            return 1
        if z3.is_false(c):
            return -1
        const, terms = self.lin(e)
        lo, hi = self.linb(const, terms)
        if lo is not None:
            if lo >= 0:
                return 1
            if hi <= 0:
                return -1
        mv = self.model_val(st, e)
        pos = neg = True
        if mv is not None and z3.is_rational_value(mv):
            n = mv.numerator_as_long()
            pos, neg = n >= 0, n <= 0
        for want, cond, res in ((pos, e < 0, 1), (neg, e > 0, -1)):
            if want:
                cond = z3.simplify(cond)
                sl, _ = self.slice(st, [cond])
                r, _ = self.query(sl + [cond], 2)
                if r == 'unsat':
                    return res
        return 0

    def trunc_int(self, st, x):
        if isinstance(x, Fraction):
            return int(x)
        if self.job.get('linabs') and isinstance(x, R):
            j = self.floor_r(st, x)
            if self.choose(st, zbool(self.fcmp(st, 'oge', x, Fraction(0)))):
                return j
            if self.choose(st, zbool(self.fcmp(st, 'oeq', x, R(z3.ToReal(j))))):
                return j
            return j + 1
        e = self.plain(st, x)
        s = self.sign_known(st, e)
        if s > 0:
            return self.toint(st, e)
        if s < 0:
            return -self.toint(st, -e)
        return z3.If(e >= 0, self.toint(st, e), -self.toint(st, -e))

    def same(self, st, a, b):
        d = self.fadd(st, a, b, True)
        if isinstance(d, Fraction):
            return d == 0
        n = z3.simplify(d.n, som=True, som_blowup=4000)
        return z3.is_rational_value(n) and n.numerator_as_long() == 0

    def nterms(self, e):
        k = e.get_id()
        if k not in self.tcache:
            n = z3.simplify(e, som=True, som_blowup=4000)
            self.tcache[k] = (e, n.num_args() if z3.is_add(n) else 1)
        return self.tcache[k][1]

    def cut(self, st, x):
        """A large value gets a name before it enters a product (option cut: number of monomials)."""
        lim = self.job.get('cut')
        if not lim or not isinstance(x, R):
            return x
        nt = self.nterms(x.n)
        if nt < lim and not (x.d and nt + sum(p * self.nterms(e) for _, e, p in x.d) >= lim + 1):
            return x
        lst = st.ufs.setdefault('cut', [])
        x = self.expand_all(st, x, 150)
        if not isinstance(x, R):
            return x
        for a, v in lst:
            if self.same(st, x, a):
                return R(v)
        v = self.fresh('cut', z3.RealSort())
        den = self.pdens(x.d)
        st.pc.append((v if den is None else v * den) == x.n)
        st.model = None
        lst.append((x, v))
        st.order.append(('cut', x, (v,)))
        return R(v)

    def expand(self, st, x, v, df):
        """x with the named value v replaced by its definition df (numerator only; denominators of x are kept)"""
        n = z3.simplify(x.n, som=True, som_blowup=4000)
        vid = v.get_id()
        monos = n.children() if z3.is_add(n) else [n]
        out, kmax = [], 0
        for m in monos:
            fs, todo, k = [], [m], 0
            while todo:
                f = todo.pop()
                if z3.is_mul(f):
                    todo.extend(f.children())
                elif f.decl().kind() == z3.Z3_OP_POWER and z3.is_rational_value(f.arg(1)):
                    todo.extend([f.arg(0)] * int(f.arg(1).numerator_as_long()))
                elif f.get_id() == vid:
                    k += 1
                elif vid in vars_of(f):
                    return None
                else:
                    fs.append(f)
            out.append((fs, k))
            kmax = max(kmax, k)
        if not kmax:
            return x
        den = self.pdens(df.d)
        acc = None
        for fs, k in out:
            t = rval(Fraction(1))
            for f in fs + [df.n] * k + ([den] * (kmax - k) if den is not None else []):
                t = t * f
            acc = t if acc is None else acc + t
        n2 = z3.simplify(acc, som=True, som_blowup=4000)
        return R(n2, self.dmul(x.d, tuple((i, e, p * kmax) for i, e, p in df.d)) if df.d else x.d)

    def expand_all(self, st, x, limit=600):
        """All names replaced by their definitions, newest first: a canonical form for conditions"""
        if not isinstance(x, R):
            return x
        for df, v in reversed(st.ufs.get('cut', [])):
            if v.get_id() in vars_of(x.n):
                y = self.expand(st, x, v, df)
                if y is None or self.nterms(y.n) > limit:
                    return x
                x = y
        return self.fold(x)

    def expand_some(self, st, x):
        """Is x zero after replacing names, smallest definitions first?"""
        x0 = x
        for df, v in reversed(st.ufs.get('cut', [])):
            if v.get_id() in vars_of(x.n):
                y = self.expand(st, x, v, df)
                if y is None or self.nterms(y.n) > 2000:
                    break
                x = y
                if z3.is_rational_value(x.n):
                    return x
        x = x0
        for _ in range(200):
            c = [(self.nterms(df.n) + sum(self.nterms(e) for _, e, _ in df.d), k) for k, (df, v) in enumerate(st.ufs.get('cut', [])) if v.get_id() in vars_of(x.n)]
            if not c:
                return x
            df, v = st.ufs['cut'][min(c)[1]]
            y = self.expand(st, x, v, df)
            if y is None or self.nterms(y.n) > 3000:
                return x
            x = y
            if z3.is_rational_value(x.n):
                return x
        return x

    def floor_r(self, st, x):
        """floor as a named integer, bounded through the numerator where the denominator is known positive"""
        lst = st.ufs.setdefault('floor', [])
        for a, q in lst:
            if self.same(st, x, a):
                return q
        if self.job.get('assume_nonzero') and not x.d:  # one path per value, if they are few
            q = z3.Int('floor_probe')
            xv = set(vars_of(x.n))
            sl, _n = self.slice(st, [x.n > 0])
            t = z3.Solver()
            t.set('timeout', 3000)
            t.add(z3.ToReal(q) <= x.n, x.n < z3.ToReal(q) + 1, *[c for c in sl if set(vars_of(c)) <= xv])
            for _ in range(8):
                self.nq += 1
                if t.check() != z3.sat:
                    break
                v = t.model().eval(q, model_completion=True).as_long()
                if self.choose(st, zbool(self.fcmp(st, 'oge', x, Fraction(v)))) and self.choose(st, zbool(self.fcmp(st, 'olt', x, Fraction(v + 1)))):
                    return z3.IntVal(v)
                t.add(q != v)
        q = self.fresh('floor', z3.IntSort())
        den = self.pdens(x.d)
        qr = z3.ToReal(q)
        if den is None:
            st.pc.append(z3.And(qr <= x.n, x.n < qr + 1))
        elif all(p % 2 == 0 or self.known_pos(st, e) for _, e, p in x.d):
            st.pc.append(z3.And(qr * den <= x.n, x.n < (qr + 1) * den))
        else:
            # a product with the denominator keeps the order
            st.pc.append(z3.And(qr * den * den <= x.n * den, x.n * den < (qr + 1) * den * den))
        lst.append((x, q))
        st.order.append(('floor', x, (q,)))
        st.model = None
        return q

    def ite(self, st, c, a, b):
        """select on reals"""
        if isinstance(c, bool):
            return a if c else b
        if self.job.get('linabs'):
            return a if self.choose(st, c) else b
        if any(v is ANY or self.isf(v) or (isinstance(v, R) and v.d) for v in (a, b)):
            return a if self.choose(st, c) else b
        if isinstance(a, Fraction) and isinstance(b, Fraction) and a == b:
            return a
        return R(z3.If(c, self.plain(st, a), self.plain(st, b)))

    # ---------------------------------------------------------------- libm
    def uf(self, st, name, args, mk):
        """Uninterpreted function: same results for (provably) the same arguments."""
        plain = [self.plain(st, a) for a in args]
        plain = [z3.simplify(p, som=True) for p in plain]
        lst = st.ufs.setdefault(name, [])
        if self.job.get('linabs'):
            raw = st.ufs.setdefault('raw ' + name, [])
            for (ra, res) in raw:
                if all(self.same(st, x, y) for x, y in zip(ra, args)):
                    return res, 1
                if name == 'trig' and self.same(st, ra[0], self.fneg(args[0])):
                    return res, -1
        for pa, res in lst:
            if all(x.get_id() == y.get_id() for x, y in zip(pa, plain)):
                return res, 1
        for pa, res in lst:
            d = [z3.simplify(x - y, som=True) for x, y in zip(pa, plain)]
            if all(z3.is_rational_value(x) and x.numerator_as_long() == 0 for x in d):
                return res, 1
            if name == 'trig':
                s = z3.simplify(pa[0] + plain[0], som=True)
                if z3.is_rational_value(s) and s.numerator_as_long() == 0:
                    return res, -1
        for pa, res in lst:
            ne = z3.Or(*[x != y for x, y in zip(pa, plain)])
            if self.job.get('uf_equal', True):
                sl, _ = self.slice(st, [ne])
                r, _ = self.query(sl + [ne], 1)
                if r == 'unsat':
                    return res, 1
        res = mk(plain)
        for pa, r0 in lst:
            if len(lst) < 12:
                c = z3.And(*[x == y for x, y in zip(pa, plain)])
                st.pc.append(z3.Implies(c, z3.And(*[x == y for x, y in zip(r0, res)])))
        lst.append((plain, res))
        if self.job.get('linabs'):
            raw.append((args, res))
        st.order.append((name, plain, res))
        st.model = None
        return res, 1

    def trig(self, st, x):
        def mk(p):
            s, c = self.fresh('sin', z3.RealSort()), self.fresh('cos', z3.RealSort())
            st.pc.append(z3.And(s * s + c * c == 1, s >= -1, s <= 1, c >= -1, c <= 1))
            pi = rval(Fraction(math.pi))
            if self.job.get('trig_signs'):
                st.pc.append(z3.Implies(p[0] == 0, z3.And(s == 0, c == 1)))
                st.pc.append(z3.Implies(z3.And(p[0] > 0, p[0] < pi), s > 0))
                st.pc.append(z3.Implies(z3.And(p[0] < 0, p[0] > -pi), s < 0))
                st.pc.append(z3.Implies(z3.And(p[0] < pi / 2, p[0] > -pi / 2), c > 0))
            return (s, c)
        (s, c), sg = self.uf(st, 'trig', [x], mk)
        return R(s if sg > 0 else -s), R(c)

    def libm(self, st, name, a):
        f32 = name.endswith('f') and name not in ('modf',) and name[:-1] in ('sin', 'cos', 'pow', 'sqrt', 'exp', 'log', 'tan', 'floor', 'ceil', 'fmod', 'fabs', 'round', 'atan2', 'rint')
        if f32:
            name = name[:-1]
        if any(x is ANY for x in a):
            return ANY
        conc = all(isinstance(x, (Fraction, float)) for x in a)
        if name in ('fabs',):
            x = a[0]
            if conc:
                return abs(x)
            if x.d or self.job.get('assume_nonzero'):
                return self.fneg(x) if self.choose(st, self.sgn_cond(st, x, 'lt')) else x
            return R(z3.If(x.n >= 0, x.n, -x.n))
        if name in ('floor', 'ceil', 'round', 'trunc', 'rint', 'nearbyint'):
            x = a[0]
            if self.isf(x):
                return x
            if conc:
                return Fraction({'floor': math.floor, 'ceil': math.ceil, 'trunc': int, 'rint': round, 'nearbyint': round,
                                 'round': lambda v: int(v + Fraction(1, 2)) if v >= 0 else -int(-v + Fraction(1, 2))}[name](x))
            if self.job.get('linabs') and name in ('floor', 'trunc'):
                i = self.floor_r(st, x) if name == 'floor' else self.trunc_int(st, x)
                return self.fold(R(z3.simplify(z3.ToReal(i))))
            e = self.plain(st, x)
            if name == 'floor':
                i = self.toint(st, e)
            elif name == 'ceil':
                i = -self.toint(st, -e)
            elif name == 'trunc':
                i = self.trunc_int(st, x)
            elif name == 'round':
                h = rval(Fraction(1, 2))
                i = z3.If(e >= 0, self.toint(st, e + h), -self.toint(st, -e + h))
            else:
                t = self.toint(st, e + rval(Fraction(1, 2)))
                i = z3.If(z3.And(z3.ToReal(t) == e + rval(Fraction(1, 2)), t % 2 != 0), t - 1, t)
            return self.fold(R(z3.simplify(z3.ToReal(i))))
        if name == 'fmod':
            x, y = a
            if self.isf(x) or self.isf(y):
                return ANY
            if conc:
                if y == 0:
                    return NAN
                q = int(x / y)
                return x - q * y
            q = self.fdiv(st, x, y)
            if q is ANY:
                return ANY
            t = self.trunc_int(st, q)
            t = Fraction(t) if isinstance(t, int) else self.fold(R(z3.simplify(z3.ToReal(t))))
            return self.fadd(st, x, self.fmul(st, t, y), True)
        if name in ('fmax', 'fmin', 'maxnum', 'minnum'):
            x, y = a
            for u, v in ((x, y), (y, x)):
                if self.isf(u) and u != u:
                    return v
            c = self.fcmp(st, 'oge', x, y)
            return self.ite(st, c, x, y) if 'max' in name else self.ite(st, c, y, x)
        if name == 'copysign':
            x, y = a
            m = self.libm(st, 'fabs', [x])
            return self.ite(st, self.fcmp(st, 'oge', y, Fraction(0)), m, self.fneg(m))
        if conc and not any(self.isf(x) for x in a):
            fl = [f2d(x) for x in a]
            if name == 'sqrt' and a[0] >= 0:
                n, d = math.isqrt(a[0].numerator), math.isqrt(a[0].denominator)
                if n * n == a[0].numerator and d * d == a[0].denominator:
                    return Fraction(n, d)
            try:
                v = {'sin': math.sin, 'cos': math.cos, 'tan': math.tan, 'sqrt': math.sqrt, 'exp': math.exp, 'log': math.log, 'log10': math.log10,
                     'asin': math.asin, 'acos': math.acos, 'atan': math.atan, 'atan2': math.atan2, 'pow': math.pow, 'cbrt': getattr(math, 'cbrt', None)}[name](*fl)
                return Fraction(v)
            except (ValueError, OverflowError):
                return NAN
        if any(self.isf(x) for x in a):
            return ANY
        if name == 'sqrt':
            x = a[0]
            if self.choose(st, self.sgn_cond(st, x, 'lt')):
                return ANY

            def mk(p):
                r = self.fresh('sqrt', z3.RealSort())
                st.pc.append(z3.And(r >= 0, r * r == p[0]))
                self.roots[r.get_id()] = (r, p[0])
                return (r,)
            return R(self.uf(st, 'sqrt', [x], mk)[0][0])
        if name == 'sin':
            return self.trig(st, a[0])[0]
        if name == 'cos':
            return self.trig(st, a[0])[1]
        if name == 'tan':
            s, c = self.trig(st, a[0])
            return self.fdiv(st, s, c)
        if name == 'pow' and isinstance(a[0], Fraction) and a[0] == 1:
            return Fraction(1)
        if name == 'pow' and isinstance(a[1], Fraction) and a[1].denominator == 1 and 0 <= a[1] <= 8:
            r = Fraction(1)
            for _ in range(int(a[1])):
                r = self.fmul(st, r, a[0])
            return r
        pi = Fraction(math.pi)
        if name in ('asin', 'acos'):
            x = a[0]
            if self.choose(st, z3.Or(zbool(self.fcmp(st, 'ogt', x, Fraction(1))), zbool(self.fcmp(st, 'olt', x, Fraction(-1))))):
                return NAN

        def mk(p):
            r = self.fresh(name, z3.RealSort())
            lo, hi = {'asin': (-pi / 2, pi / 2), 'acos': (0, pi), 'atan': (-pi / 2, pi / 2), 'atan2': (-pi, pi)}.get(name, (None, None))
            ax = []
            if lo is not None:
                ax += [r >= rval(Fraction(lo)), r <= rval(Fraction(hi))]
            if name in ('asin', 'atan'):
                ax += [(p[0] > 0) == (r > 0), (p[0] < 0) == (r < 0)]
            if name == 'exp':
                ax += [r > 0, (p[0] > 0) == (r > 1), (p[0] < 0) == (r < 1), r >= 1 + p[0]]
            if name == 'pow':
                ax += [z3.Implies(p[0] > 0, r > 0)]
            if name == 'log':
                ax += [(p[0] > 1) == (r > 0)]
            if name == 'atan2':
                ax += [z3.Implies(p[0] > 0, r > 0), z3.Implies(p[0] < 0, r < 0)]
            st.pc.extend(ax)
            return (r,)
        return R(self.uf(st, name, a, mk)[0][0])

    # ---------------------------------------------------------------- memory
    def new(self, st, size, base, name):
        n = st.nobj
        st.nobj += 1
        st.objs[n] = Obj(size, base, name, st.id)
        return n

    def wr(self, st, o):
        x = st.objs[o]
        if x.owner != st.id:
            x = st.objs[o] = x.copy(st.id)
        return x

    def glob(self, st, name):
        if name in self.mod.fns or name in self.mod.decls:
            return FPtr(name)
        if name not in st.globals:
            t, init, const = self.mod.globals[name]
            o = self.new(st, self.mod.size(t), 'zero' if init else 'undef', name)
            st.globals[name] = o
            if init:
                self.init(st, o, 0, t, init)
        return Ptr(st.globals[name], 0)

    def init(self, st, o, off, t, v):
        t = self.mod.res(t)
        if v[0] == 'zero' or v[0] == 'undef':
            return
        if v[0] == 'str':
            for i, b in enumerate(v[1]):
                if b:
                    st.objs[o].cells[off + i] = (1, b)
            return
        if v[0] == 'agg':
            if t[0] in ('a', 'x'):
                es = self.mod.size(t[2])
                for i, (et, ev) in enumerate(v[1]):
                    self.init(st, o, off + i * es, et, ev)
            else:
                offs = self.mod.layout(t)[0]
                for i, (et, ev) in enumerate(v[1]):
                    self.init(st, o, off + offs[i], et, ev)
            return
        x = self.val(st, None, t, v)
        st.objs[o].cells[off] = (self.mod.size(t), x)

    def pieces(self, st, ob, off, n):
        """[(rel, size, value)] covering [off, off+n)"""
        c = ob.cells.get(off)
        if c is not None and c[0] == n:
            return [(0, n, c[1])]
        out = []
        i = off
        end = off + n
        while i < end:
            c = ob.cells.get(i)
            if c is not None:
                if i + c[0] <= end:
                    out.append((i - off, c[0], c[1]))
                    i += c[0]
                else:
                    out.append((i - off, end - i, self.part(st, c[1], c[0], 0, end - i)))
                    i = end
                continue
            # inside a bigger cell?
            for k in range(1, 16):
                c = ob.cells.get(i - k)
                if c is not None:
                    break
            if c is not None and i - k + c[0] > i:
                m = min(end, i - k + c[0]) - i
                out.append((i - off, m, self.part(st, c[1], c[0], k, m)))
                i += m
                continue
            j = i + 1
            while j < end and j not in ob.cells:
                j += 1
            z = 0 if ob.base == 'zero' else UNDEF
            out.append((i - off, j - i, z))
            i = j
        return out

    def part(self, st, v, n, k, m):
        """bytes k..k+m of an n-byte value"""
        if v is UNDEF:
            return UNDEF
        if isinstance(v, (Fraction, float)):
            v = int.from_bytes(struct.pack('<d' if n == 8 else '<f', f2d(v) if isinstance(v, Fraction) else v), 'little')
        v = self.int_of(st, v, 8 * n)
        if not isinstance(v, (int, I)):
            raise NoVerdict('part of a pointer')
        u = self.unsigned(st, v, 8 * n)
        return self.mask(st, self.shr(st, u, 8 * k), (1 << (8 * m)) - 1)

    def put(self, st, o, off, n, v):
        ob = self.wr(st, o)
        c = ob.cells.get(off)
        if not (c is not None and c[0] == n):
            # clear overlap, keeping the parts outside
            for i in range(off - 15, off + n):
                c = ob.cells.get(i)
                if c is None or i + c[0] <= off:
                    continue
                del ob.cells[i]
                if i < off:
                    ob.cells[i] = (off - i, self.part(st, c[1], c[0], 0, off - i))
                if i + c[0] > off + n:
                    ob.cells[off + n] = (i + c[0] - off - n, self.part(st, c[1], c[0], off + n - i, i + c[0] - off - n))
        if isinstance(v, Packed):
            ob.cells.pop(off, None)
            for r, s, x in v.pieces:
                ob.cells[off + r] = (s, x)
        else:
            ob.cells[off] = (n, v)

    def from_pieces(self, st, ps, n, t):
        if len(ps) == 1:
            v = ps[0][2]
        elif all(isinstance(p[2], int) for p in ps):
            v = 0
            for r, s, x in ps:
                v |= (x & ((1 << (8 * s)) - 1)) << (8 * r)
        else:
            v = Packed(ps, n)
            if t[0] == 'i' and all(isinstance(p[2], (int, I)) for p in ps):
                v = self.int_of(st, v, 8 * n)
        if t[0] == 'i':
            if isinstance(v, (Fraction, float)):
                return int.from_bytes(struct.pack('<d' if n == 8 else '<f', f2d(v) if isinstance(v, Fraction) else v), 'little')
            if isinstance(v, R):
                return Packed([(0, n, v)], n)
            if isinstance(v, Ptr):
                return v
            if t[1] == 1:
                if isinstance(v, int):
                    return bool(v & 1)
                if isinstance(v, I):
                    b = self.unsigned(st, v, 8)
                    return b.e != 0 if isinstance(b, I) else b != 0
            return v
        if t[0] == 'f':
            if isinstance(v, Packed) and len(v.pieces) == 1:
                v = v.pieces[0][2]
            if isinstance(v, int):
                d = struct.unpack('<d' if n == 8 else '<f', (v & ((1 << (8 * n)) - 1)).to_bytes(n, 'little'))[0]
                return d if d != d or d in (float('inf'), -float('inf')) else Fraction(d)
            if v is UNDEF:
                return R(self.fresh('undef', z3.RealSort()))
            if isinstance(v, (I, Packed)):
                return ANY
            return v
        if t[0] == 'p':
            if isinstance(v, int):
                if v == 0:
                    return NULL
                raise NoVerdict('integer as pointer')
            if v is UNDEF:
                return NULL
            return v
        raise NoVerdict('load %r' % (t,))

    def ptr_ok(self, st, p, n, what):
        """Checks an access of n bytes; the concrete offset."""
        if isinstance(p, FPtr) or p.o == 0 or not isinstance(p, Ptr):
            self.bug(st, what + ' through a null pointer')
            raise Stop()
        ob = st.objs[p.o]
        if not ob.alive:
            self.bug(st, what + ' of a dead object')
            raise Stop()
        off = p.off
        if isinstance(off, int):
            off = self.signed(st, off, 64)
            if off < 0 or off + n > ob.size:
                self.bug(st, '%s out of bounds of %s' % (what, ob.name))
                raise Stop()
            return ob, off
        off = self.signed(st, off, 64)
        if not self.in_range(st, off, 0, ob.size - n):
            c = z3.And(off.e >= 0, off.e <= ob.size - n)
            if not self.choose(st, c):
                self.bug(st, '%s out of bounds of %s' % (what, ob.name))
                raise Stop()
        return ob, I(off.e, max(0, off.lo), min(off.hi, ob.size - n), off.tz)

    def values(self, st, v, cap=1100):
        """All feasible values of an integer."""
        out = []
        cons = []
        if v.hi - v.lo <= 64:
            for x in range(v.lo, v.hi + 1):
                c = z3.simplify(v.e == x)
                if z3.is_false(c):
                    continue
                sl, _ = self.slice(st, [c])
                r, _ = self.query(sl + [c], 2)
                if r != 'unsat':
                    out.append(x)
            return out
        sl, _ = self.slice(st, [v.e == 0])
        s = z3.Solver()
        s.set('timeout', 10000)
        s.add(*sl)
        while len(out) < cap:
            self.nq += 1
            t0 = time.time()
            r = s.check()
            self.solver_s += time.time() - t0
            if r == z3.unsat:
                return sorted(out)
            if r == z3.unknown:
                raise NoVerdict('symbolic index')
            x = s.model().eval(v.e, model_completion=True).as_long()
            out.append(x)
            s.add(v.e != x)
        raise NoVerdict('symbolic index with too many values')

    def load(self, st, t, p):
        t = self.mod.res(t)
        n = self.mod.size(t)
        ob, off = self.ptr_ok(st, p, n, 'read')
        if t[0] in ('s', 'a', 'x'):
            if not isinstance(off, int):
                off = self.concrete(st, off)
            if t[0] == 's':
                offs = self.mod.layout(t)[0]
                return [self.load(st, x, Ptr(p.o, off + offs[i])) for i, x in enumerate(t[1])]
            es = self.mod.size(t[2])
            return [self.load(st, t[2], Ptr(p.o, off + i * es)) for i in range(t[1])]
        if isinstance(off, int):
            return self.from_pieces(st, self.pieces(st, ob, off, n), n, t)
        vs = self.values(st, off)
        if not vs:
            raise Stop()
        cand = [(x, self.from_pieces(st, self.pieces(st, ob, x, n), n, t)) for x in vs]
        if len(cand) == 1:
            return cand[0][1]
        if t[0] == 'f' and all(isinstance(c[1], Fraction) or (isinstance(c[1], R) and not c[1].d) for c in cand):
            e = self.plain(st, cand[-1][1])
            for x, v in cand[-2::-1]:
                e = z3.If(off.e == x, self.plain(st, v), e)
            return R(e)
        if t[0] == 'i' and t[1] > 1 and all(isinstance(c[1], (int, I)) for c in cand):
            cs = [(x, self.unsigned(st, v, t[1]) if t[1] <= 8 else self.signed(st, v, t[1])) for x, v in cand]
            e = self.ex(cs[-1][1])
            lo, hi = self.bnd(cs[-1][1])
            for x, v in cs[-2::-1]:
                e = z3.If(off.e == x, self.ex(v), e)
                a, b = self.bnd(v)
                lo, hi = min(lo, a), max(hi, b)
            return I(e, lo, hi)
        # fork
        for x, v in cand[:-1]:
            if self.choose(st, off.e == x):
                return v
        return cand[-1][1]

    def store(self, st, t, v, p):
        t = self.mod.res(t)
        n = self.mod.size(t)
        ob, off = self.ptr_ok(st, p, n, 'write')
        if not isinstance(off, int):
            vs = self.values(st, off)
            o = None
            for x in vs[:-1]:
                if self.choose(st, off.e == x):
                    o = x
                    break
            off = vs[-1] if o is None else o
        if t[0] in ('s', 'a', 'x'):
            if v is UNDEF:
                return
            if t[0] == 's':
                offs = self.mod.layout(t)[0]
                for i, x in enumerate(t[1]):
                    self.store(st, x, v[i], Ptr(p.o, off + offs[i]))
            else:
                es = self.mod.size(t[2])
                for i in range(t[1]):
                    self.store(st, t[2], v[i], Ptr(p.o, off + i * es))
            return
        if t[0] == 'i' and t[1] == 1:
            v = self.int_of(st, v, 1)
        self.put(st, p.o, off, n, v)

    def memcpy(self, st, d, s, n):
        if n == 0:
            return
        so, soff = self.ptr_ok(st, s, n, 'copy from')
        if not isinstance(soff, int):
            soff = self.concrete_off(st, soff)
        do, doff = self.ptr_ok(st, d, n, 'copy to')
        if not isinstance(doff, int):
            doff = self.concrete_off(st, doff)
        if soff == 0 and doff == 0 and so.size == n == do.size:
            x = self.wr(st, d.o)
            x.cells = dict(so.cells)
            x.base = so.base
            return
        ps = self.pieces(st, so, soff, n)
        for r, k, v in ps:
            if v is UNDEF:
                self.put(st, d.o, doff + r, k, UNDEF)
            elif isinstance(v, int) and v == 0 and k > 8:
                self.put(st, d.o, doff + r, k, 0)
            else:
                self.put(st, d.o, doff + r, k, v)

    def concrete_off(self, st, off):
        vs = self.values(st, off)
        for x in vs[:-1]:
            if self.choose(st, off.e == x):
                return x
        return vs[-1]

    def memset(self, st, d, b, n):
        if n == 0:
            return
        do, off = self.ptr_ok(st, d, n, 'set')
        if not isinstance(off, int):
            off = self.concrete_off(st, off)
        if isinstance(b, int) and (b & 255) == 0 and off == 0 and n == do.size:
            x = self.wr(st, d.o)
            x.cells = {}
            x.base = 'zero'
            return
        self.put(st, d.o, off, n, UNDEF)  # drops whole cells, so that none is split byte by byte
        for i in range(n):
            self.put(st, d.o, off + i, 1, b & 255 if isinstance(b, int) else b)

    # ---------------------------------------------------------------- values
    def val(self, st, fr, t, v):
        k = v[0]
        if k == 'r':
            return fr.regs[v[1]]
        if k == 'c':
            return v[1]
        if k == 'g':
            return self.glob(st, v[1])
        if k == 'null':
            return NULL
        if k == 'undef':
            t = self.mod.res(t)
            if t[0] == 's':
                return [self.val(st, fr, x, v) for x in t[1]]
            if t[0] in ('a', 'x'):
                return [self.val(st, fr, t[2], v)] * t[1]
            if t[0] == 'f':
                return R(self.fresh('undef', z3.RealSort()))
            return UNDEF
        if k == 'zero':
            t = self.mod.res(t)
            if t[0] == 's':
                return [self.val(st, fr, x, v) for x in t[1]]
            if t[0] in ('a', 'x'):
                return [self.val(st, fr, t[2], v)] * t[1]
            return Fraction(0) if t[0] == 'f' else NULL if t[0] == 'p' else 0
        if k == 'agg':
            return [self.val(st, fr, et, ev) for et, ev in v[1]]
        if k == 'ce':
            if v[1] == 'gep':
                return self.gep(st, v[2], [(at, self.val(st, fr, at, av)) for at, av in v[3]])
            if v[1] in ('bitcast', 'ptrtoint', 'inttoptr'):
                return self.val(st, fr, v[2], v[3])
            if v[1] in ('sub', 'add'):
                return self.binop(st, v[1], v[2][1], self.val(st, fr, v[2], v[3]), self.val(st, fr, v[2], v[4]))
        raise NoVerdict('value %r' % (v,))

    def gep(self, st, t, args):
        p = args[0][1]
        if not isinstance(p, Ptr):
            raise NoVerdict('gep of %r' % p)
        off = p.off
        first = True
        for it, iv in args[1:]:
            if first:
                off = self.iadd(off, self.imulc(self.idx(st, it, iv), self.mod.size(t)))
                first = False
                continue
            t = self.mod.res(t)
            if t[0] == 's':
                off = self.iadd(off, self.mod.layout(t)[0][iv])
                t = t[1][iv]
            else:
                off = self.iadd(off, self.imulc(self.idx(st, it, iv), self.mod.size(t[2])))
                t = t[2]
        return Ptr(p.o, off)

    def idx(self, st, it, iv):
        return self.signed(st, self.int_of(st, iv, it[1]), it[1])

    # ---------------------------------------------------------------- checks and counterexamples
    def inputs_from(self, st, m, rnd=True):
        out = []
        for kind, e in st.inputs:
            if m is None:
                return None
            v = m.eval(e, model_completion=True)
            if kind in ('f64', 'f32'):
                if z3.is_algebraic_value(v):
                    v = v.approx(60)
                f = Fraction(v.numerator_as_long(), v.denominator_as_long())
                d = f2d(f)
                out.append(struct.unpack('<Q', struct.pack('<d', d))[0] if kind == 'f64' else struct.unpack('<I', struct.pack('<f', d))[0])
            else:
                n = v.as_long()
                out.append(n & ((1 << int(kind[1:])) - 1))
        return out

    def native(self, vals):
        path = self.job['replay_in']
        with open(path, 'w') as f:
            f.write('\n'.join('%x' % v for v in vals) + '\n')
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=66', UBSAN_OPTIONS='halt_on_error=1:exitcode=67')
        try:
            p = subprocess.run([self.job['native'], path], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=30, env=env)
        except subprocess.TimeoutExpired:
            return 'hang', '', ''
        o, e = p.stdout.decode('utf8', 'replace'), p.stderr.decode('utf8', 'replace')
        if 'REPLAY-FAIL' in o:
            return 'assertion', o, e
        if 'REPLAY-ASSUME' in o:
            return 'assume', o, e
        if p.returncode == 0:
            return 'ok', o, e
        if 'ReserveShadowMemoryRange' in e:
            raise NoVerdict('the sanitised replay could not start')
        if 'AddressSanitizer' in e or p.returncode in (66, 67):
            return 'memory', o, e
        return 'abort', o, e

    def try_model(self, st, m, what):
        vals = self.inputs_from(st, m)
        kind, o, e = self.native(vals)
        if os.environ.get('LSX_DEBUG'):
            print('cex', what, kind, ['%s=%s' % (k, m.eval(x, model_completion=True)) for k, x in st.inputs][:12], o[-100:], file=sys.stderr)
        if kind in ('assertion', 'memory', 'abort', 'hang'):
            self.violation = dict(what=what, native=kind, inputs=['%x' % v for v in vals], detail=(o[-300:] + e[:600]))
            raise Violated()
        return kind

    def pinned(self, st, extra, rounds, what, base):
        """Re-solves with the double inputs pinned to concrete values, so that libm results become known numbers."""
        fl = [e for k, e in st.inputs if k in ('f64', 'f32')]
        used = set()
        for c in extra:
            used |= vars_of(c)
        for r in range(rounds):
            if time.time() > self.t_end - 2:
                return
            s = z3.Solver()
            s.set('timeout', 4000)
            s.add(*st.pc)
            s.add(*extra)
            pins = {}
            ok = True
            order = list(fl)
            self.rng.shuffle(order)
            for e in order:
                # a target near a random point of the input's feasible range, rounded
                t = self.rng.choice([-3, -2.5, -1.25, -1, -0.5, -0.25, 0.125, 0.25, 0.5, 0.75, 1, 1.5, 2, 2.75, 3, 10, 100, 1000, 40000, 300000, 1e6, 2e7]) * self.rng.choice([1, 1, 0.93, 1.07, -1])
                s.push()
                s.add(e == rval(Fraction(t)))
                self.nq += 1
                t0 = time.time()
                x = s.check()
                self.solver_s += time.time() - t0
                if x == z3.sat:
                    pins[e.get_id()] = (e, rval(Fraction(t)))
                    continue
                s.pop()
                self.nq += 1
                x = s.check()
                if x != z3.sat:
                    ok = False
                    break
                v = s.model().eval(e, model_completion=True)
                if z3.is_algebraic_value(v):
                    v = v.approx(30)
                f = Fraction(v.numerator_as_long(), v.denominator_as_long())
                f = Fraction(f2d(f))
                s.push()
                s.add(e == rval(f))
                if s.check() == z3.sat:
                    pins[e.get_id()] = (e, rval(f))
                else:
                    s.pop()
                    ok = False
            self.nq += 1
            if s.check() == z3.sat:
                self.try_model(st, s.model(), what)

    def input_range(self, st, e):
        k = e.get_id()
        if k not in self.ranges or self.job.get('assume_nonzero'):
            o = z3.Optimize()
            o.set('timeout', 1000)
            o.set('priority', 'box')
            own = frozenset([k])
            o.add(*[c for c in st.pc if vars_of(c) == own])
            lo, hi = o.minimize(e), o.maximize(e)
            r = []
            if o.check() == z3.sat:
                for h in (o.lower(lo), o.upper(hi)):
                    try:
                        r.append(Fraction(str(h)))
                    except ValueError:
                        m = re.match(r'(-?[0-9/]+) \+', str(h))
                        r.append(Fraction(m.group(1)) if m else None)
            self.ranges[k] = (e, r if len(r) == 2 and None not in r else None)
        return self.ranges[k][1]

    def candidates(self, st, extra, rounds, what):
        """Models of the linear abstraction with the inputs spread over their ranges, tried on the real code."""
        t0 = time.time()
        for rnd in range(rounds):
            if time.time() > t0 + 20:
                break
            sub, share = [], self.rng.choice([0.3, 0.5, 0.7, 0.9, 1])
            for k, e in st.inputs:
                if k in ('f64', 'f32') and self.rng.random() < share:
                    r = self.input_range(st, e)
                    t = Fraction(self.rng.choice([0, 0, 1, -1, 0.5, -0.5, 2, 10, 1000])) if r is None else r[0] + (r[1] - r[0]) * Fraction(self.rng.choice([0, 1, 8, 16, 32, 48, 56, 63] + [self.rng.randrange(65)] * 6), 64)
                    sub.append((e, rval(Fraction(f2d(t)))))
            pins = list(sub)
            own = set()
            for name, arg, res in st.order:
                if name == 'trig':
                    x = z3.simplify(z3.substitute(arg[0], *sub)) if sub else arg[0]
                    if z3.is_rational_value(x):
                        v = x.numerator_as_long() / x.denominator_as_long()
                        sub += [(res[0], rval(Fraction(math.sin(v)))), (res[1], rval(Fraction(math.cos(v))))]
                        own |= {res[0].get_id(), res[1].get_id()}
                elif name == 'quot' and isinstance(arg, R) and sub:
                    n, d = z3.simplify(z3.substitute(arg.n, *sub)), z3.simplify(z3.substitute(self.pdens(arg.d), *sub))
                    if z3.is_rational_value(n) and z3.is_rational_value(d) and d.numerator_as_long():
                        sub.append((res[0], z3.simplify(n / d)))
                        own.add(res[0].get_id())
            s = z3.Solver()
            s.set('timeout', 1000)
            self.nq += 1
            ins = {e.get_id() for _, e in st.inputs}
            for c in list(st.pc) + extra:
                if self.job.get('assume_nonzero') and not vars_of(c) <= ins:
                    continue  # the replay decides
                if own and vars_of(c) & own and (vars_of(c) <= own or z3.is_eq(c)):
                    continue  # definitions of values that are known now, up to rounding
                s.add(self.labs(z3.simplify(z3.substitute(c, *sub), som=True)) if sub else self.labs(z3.simplify(c, som=True)))
            s.add(*[e == v for e, v in pins])
            if s.check() == z3.sat:
                self.try_model(st, s.model(), what)

    def cex(self, st, what, conds):
        """conds: list of lists of constraints to try, strongest last."""
        for n, extra in enumerate(conds):
            r, m = self.query(list(st.pc) + extra, 4 if self.job.get('linabs') else self.check_timeout, True, hard=True)
            if r == 'unsat' and n == 0:
                return  # the whole path condition excludes it: the path is infeasible
            if r == 'sat':
                self.try_model(st, m, what)
        if self.job.get('linabs') and len(self.unproved) < 10 and time.time() < self.t_end - 20:
            # look at the other paths first
            self.candidates(st, [], 10, what)
            self.later.append((st, what, conds))
            self.unproved.append(what)
            return
        rounds = self.job.get('cex_rounds', 24)
        k = 0
        for extra in conds[::-1]:
            self.pinned(st, extra, max(4, rounds // len(conds)), what, None)
        self.unproved.append(what)
        if len(self.unproved) >= 3:
            raise NoVerdict('unreproduced: ' + '; '.join(self.unproved))

    def bug(self, st, what):
        """The current path reaches undefined behaviour or a failing assertion."""
        r, m = self.query(list(st.pc), self.check_timeout, True, hard=True)
        self.vccs += 1
        if r == 'unsat':
            return
        self.cex(st, what, [[]])

    def check(self, st, cond, what):
        self.vccs += 1
        c = simp(cond)
        if c is True:
            self.trivial += 1
            return
        n = zbool(znot(c))
        sl, _ = self.slice(st, [n])
        if self.job.get('linabs') and self.linabs(sl + [n], 10) != z3.unsat:
            self.candidates(st, [n], 30, what)
        r, m = self.query(sl + [n], self.check_timeout, hard=True)
        if r == 'unsat':
            if not isinstance(c, bool):
                st.facts[c.get_id()] = (c, True)
            return
        self.cex(st, what + (' (not decided)' if r == 'unknown' else ''), [[n]])

    def check_eq(self, st, a, b, tol, what, le=False):
        self.vccs += 1
        if a is ANY or b is ANY or self.isf(a) or self.isf(b):
            if self.isf(a) and self.isf(b) and (a == b):
                return
            self.cex(st, what, [[]])
            return
        d = self.fadd(st, a, b, True)
        if isinstance(d, Fraction):
            if d == 0 or (d <= tol if le else abs(d) <= tol):
                self.trivial += 1
                return
            self.cex(st, what, [[]])
            return
        if self.job.get('assume_nonzero') and not (z3.is_rational_value(d.n) and d.n.numerator_as_long() == 0):
            self.candidates(st, [], 16, what)
        n = z3.simplify(d.n, som=True, som_blowup=1000 if self.job.get('assume_nonzero') else 100000 if self.job.get('linabs') else 10)
        if self.job.get('cut') and not le and not z3.is_rational_value(n):
            n = z3.simplify(self.expand_some(st, R(n, d.d)).n, som=True, som_blowup=100000)
        if not le and z3.is_rational_value(n) and n.numerator_as_long() == 0:
            self.trivial += 1
            return
        if le:
            neq = zbool(self.sgn_cond(st, d, 'gt'))
        else:
            neq = n != 0
        sl, _ = self.slice(st, [neq])
        if self.job.get('linabs'):
            if self.linabs(sl + [neq], 10) == z3.unsat:
                return
            self.candidates(st, [neq], 30, what)
        r, _ = self.query(sl + [neq], self.hard_timeout(), hard=True)
        if r == 'unsat':
            return
        ex = [[neq]]
        if isinstance(tol, Fraction) and tol > 0:
            def beyond(t):
                hi = self.fadd(st, d, t, True)
                c = zbool(self.sgn_cond(st, hi, 'gt'))
                if le:
                    return c
                return z3.Or(c, zbool(self.sgn_cond(st, self.fadd(st, d, t), 'lt')))
            far = z3.simplify(beyond(tol))
            sl, _ = self.slice(st, [far])
            r2, _ = self.query(sl + [far], self.hard_timeout(), hard=True)
            if r2 == 'unsat':
                return
            ex = [[far], [z3.simplify(beyond(tol * 1000))], [z3.simplify(beyond(tol * 1000000))]]
            r = r2
        self.cex(st, what + (' (not decided)' if r == 'unknown' else ''), ex)

    def witness(self, st, label, cond):
        self.labels.add(label)
        if self.wit.get(label, {}).get('native'):
            return
        c = simp(cond)
        if c is False:
            return
        if self.wit.get(label, {}).get('tries', 0) > (1 if self.job.get('linabs') else 4):
            return
        r, m = self.query(list(st.pc) + ([] if c is True else [c]), 3 if self.job.get('linabs') else 10, True, hard=True)
        if r != 'sat':
            return
        vals = self.inputs_from(st, m)
        kind, o, e = self.native(vals)
        w = self.wit.setdefault(label, dict(tries=0))
        w['tries'] += 1
        w['inputs'] = ['%x' % v for v in vals[:24]]
        w['native'] = kind == 'ok' and ('REPLAY-WITNESS ' + label) in o
        if not w['native']:
            w['why'] = kind + ' ' + (o + e)[-200:]

    # ---------------------------------------------------------------- calls
    def cstring(self, st, p):
        ob = st.objs[p.o]
        out = bytearray()
        i = p.off
        while True:
            v = self.from_pieces(st, self.pieces(st, ob, i, 1), 1, ('i', 8))
            if not isinstance(v, int) or v == 0:
                return out.decode()
            out.append(v & 255)
            i += 1

    def inp(self, st, kind):
        if kind[0] == 'f':
            e = self.fresh('in', z3.RealSort())
            st.inputs.append((kind, e))
            if st.model is not None:
                st.model[e.get_id()] = (e, z3.RealVal(0))
            _keep.append(e)
            if self.job.get('fbound'):
                b = rval(Fraction(self.job['fbound']))
                st.pc.append(z3.And(e >= -b, e <= b))
            return R(e)
        w = int(kind[1:])
        e = self.fresh('in', z3.IntSort())
        self.setb(e, 0, (1 << w) - 1)
        st.inputs.append((kind, e))
        st.pc.append(z3.And(e >= 0, e < (1 << w)))
        if st.model is not None:
            st.model[e.get_id()] = (e, z3.IntVal(0))
        _keep.append(e)
        return I(e, 0, (1 << w) - 1)

    def external(self, st, fr, name, args, rt):
        n = name[1:]
        if n.startswith('vp_'):
            if n in ('vp_u8', 'vp_u16', 'vp_u32', 'vp_u64', 'vp_f64', 'vp_f32'):
                return self.inp(st, n[3:])
            if n in ('vp_s8', 'vp_s16', 'vp_s32', 'vp_s64', 'vp_range', 'vp_srange'):
                if n[4].isdigit():
                    w = int(n[4:])
                    lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
                else:
                    w = 32
                    g = self.signed if n == 'vp_srange' else self.unsigned
                    lo, hi = [self.concrete(st, g(st, self.int_of(st, x, 32), 32)) for x in args]
                e = self.fresh('in', z3.IntSort())
                self.setb(e, lo, hi)
                st.inputs.append(('u%d' % w, e))
                st.pc.append(z3.And(e >= lo, e <= hi))
                if st.model is not None:
                    st.model[e.get_id()] = (e, z3.IntVal(max(lo, min(hi, 0))))
                _keep.append(e)
                return I(e, lo, hi) if lo < hi else lo
            if n == 'vp_assume':
                self.add(st, self.as_bool(st, args[0]))
                return None
            if n == 'vp_check':
                self.check(st, self.as_bool(st, args[0]), self.cstring(st, args[1]))
                return None
            if n in ('vp_check_eq', 'vp_check_le'):
                self.check_eq(st, args[0], args[1], args[2], self.cstring(st, args[3]), le=n == 'vp_check_le')
                return None
            if n == 'vp_witness_c':
                self.witness(st, self.cstring(st, args[0]), self.as_bool(st, args[1]))
                return None
            if n == 'vp_split':  # case split
                self.choose(st, self.as_bool(st, args[0]))
                return None
            if n == 'vp_pick':  # case split over the values of an integer
                return self.concrete(st, self.signed(st, self.int_of(st, args[0], 32), 32))
        if n.startswith('llvm.'):
            p = n.split('.')
            if p[1] in ('memcpy', 'memmove'):
                self.memcpy(st, args[0], args[1], self.concrete(st, self.unsigned(st, args[2], 64)))
                return None
            if p[1] == 'memset':
                self.memset(st, args[0], args[1], self.concrete(st, self.unsigned(st, args[2], 64)))
                return None
            if p[1] == 'stacksave':
                return NULL
            if p[1] in ('stackrestore', 'lifetime', 'dbg', 'assume', 'va_start', 'va_end', 'experimental'):
                return None
            if p[1] == 'is' and p[2] == 'fpclass':
                m = self.concrete(st, args[1])
                x = args[0]
                if x is ANY:
                    return self.fresh('cls', z3.BoolSort())
                if self.isf(x):
                    return bool(m & 3) if x != x else bool(m & (512 if x > 0 else 4))
                if m & 504 == 504:
                    return True
                if m & 504 == 0:
                    return False
                raise NoVerdict('fpclass')
            if p[1] in ('fabs', 'floor', 'ceil', 'round', 'trunc', 'rint', 'nearbyint', 'copysign', 'maxnum', 'minnum', 'sqrt', 'sin', 'cos', 'exp', 'pow', 'log'):
                return self.libm(st, p[1], args)
            if p[1] == 'fmuladd':
                return self.fadd(st, self.fmul(st, args[0], args[1]), args[2])
            if p[1] in ('abs', 'smax', 'smin', 'umax', 'umin'):
                w = int(p[2][1:])
                if p[1] == 'abs':
                    a = self.signed(st, self.int_of(st, args[0], w), w)
                    return abs(a) if isinstance(a, int) else I(z3.If(a.e >= 0, a.e, -a.e), 0, max(abs(a.lo), abs(a.hi)))
                g = self.signed if p[1][0] == 's' else self.unsigned
                a, b = g(st, self.int_of(st, args[0], w), w), g(st, self.int_of(st, args[1], w), w)
                if isinstance(a, int) and isinstance(b, int):
                    return max(a, b) if 'max' in p[1] else min(a, b)
                (al, ah), (bl, bh) = self.bnd(a), self.bnd(b)
                if 'max' in p[1]:
                    return I(z3.If(self.ex(a) >= self.ex(b), self.ex(a), self.ex(b)), max(al, bl), max(ah, bh))
                return I(z3.If(self.ex(a) <= self.ex(b), self.ex(a), self.ex(b)), min(al, bl), min(ah, bh))
        if n == '__assert_fail':
            self.bug(st, 'assertion %s' % self.cstring(st, args[0]))
            raise Stop()
        if n in ('abort', 'exit', '_exit'):
            self.bug(st, n)
            raise Stop()
        if n in ('memcpy', 'memmove'):
            self.memcpy(st, args[0], args[1], self.concrete(st, self.unsigned(st, args[2], 64)))
            return args[0]
        if n == 'memset':
            self.memset(st, args[0], args[1], self.concrete(st, self.unsigned(st, args[2], 64)))
            return args[0]
        if n in ('malloc', 'calloc'):
            k = self.concrete(st, self.unsigned(st, args[0], 64)) * (self.concrete(st, self.unsigned(st, args[1], 64)) if n == 'calloc' else 1)
            return Ptr(self.new(st, k, 'zero' if n == 'calloc' else 'undef', n), 0)
        if n == 'free':
            if isinstance(args[0], Ptr) and args[0].o:
                self.wr(st, args[0].o).alive = False
            return None
        if n == 'memcmp':
            k = self.concrete(st, self.unsigned(st, args[2], 64))
            e = True
            i = -1
            while i + 1 < k:
                i += 1
                if k - i >= 8:  # real numbers: equal bytes are taken for equal values
                    pa, pb = (Ptr(args[j].o, self.iadd(args[j].off, i)) for j in (0, 1))
                    ra, rb = (self.load(st, ('i', 64), x) for x in (pa, pb))
                    if any(isinstance(x, Packed) and len(x.pieces) == 1 and isinstance(x.pieces[0][2], R) for x in (ra, rb)):
                        c = self.fcmp(st, 'oeq', self.load(st, ('f', 64), pa), self.load(st, ('f', 64), pb))
                        e = zand(e, c if isinstance(c, bool) else simp(c))
                        i += 7
                        continue
                a = self.unsigned(st, self.load(st, ('i', 8), Ptr(args[0].o, self.iadd(args[0].off, i))), 8)
                b = self.unsigned(st, self.load(st, ('i', 8), Ptr(args[1].o, self.iadd(args[1].off, i))), 8)
                e = zand(e, simp(zbool(self.ex(a) == self.ex(b))))
            if isinstance(e, bool):
                return 0 if e else 1
            return I(z3.If(e, z3.IntVal(0), z3.IntVal(1)), 0, 1)
        if n in ('modf', 'modff'):
            x = args[0]
            t = self.libm(st, 'trunc', [x])
            self.store(st, rt, t, args[1])
            return self.fadd(st, x, t, True)
        LIBM = ('fabs', 'floor', 'ceil', 'round', 'trunc', 'rint', 'fmod', 'fmax', 'fmin', 'copysign', 'sqrt', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan',
                'atan2', 'exp', 'log', 'log10', 'pow', 'cbrt')
        if n in LIBM or (n[-1] == 'f' and n[:-1] in LIBM):
            return self.libm(st, n, args)
        if n in ('lround', 'llround', 'lrint'):
            x = self.libm(st, 'round' if n != 'lrint' else 'rint', args)
            return self.fptoint(st, x, 64, True)
        raise NoVerdict('no body: ' + n)

    def fptoint(self, st, x, w, signed):
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
        if x is ANY or self.isf(x):
            return I(self.fresh('cvt', z3.IntSort()), lo, hi)
        if isinstance(x, Fraction):
            return int(x)
        e = self.trunc_int(st, x)
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        l, h = self.linb(*self.lin(e))
        if l is not None and l >= lo and h <= hi:
            return I(e, math.ceil(l), math.floor(h))
        c = z3.And(e >= lo, e <= hi)
        if not self.choose(st, c):
            f = self.fresh('cvt', z3.IntSort())
            st.pc.append(z3.And(f >= lo, f <= hi))
            st.model = None
            return I(f, lo, hi)
        return I(e, lo, hi)

    # ---------------------------------------------------------------- interpreter
    def step(self, st):
        fr = st.frames[-1]
        ins = self.mod.block(fr.fn, fr.bb)[fr.i]
        op = ins[0]
        V = lambda t, v: self.val(st, fr, t, v)
        if op == 'load':
            fr.regs[ins[1]] = self.load(st, ins[2], V(('p',), ins[3]))
        elif op == 'store':
            self.store(st, ins[2], V(ins[2], ins[3]), V(('p',), ins[4]))
        elif op == 'gep':
            fr.regs[ins[1]] = self.gep(st, ins[2], [(at, V(at, av)) for at, av in ins[3]])
        elif op == 'bin':
            _, dst, o, t, a, b = ins
            x, y = V(t, a), V(t, b)
            if t[0] == 'f':
                fr.regs[dst] = (self.fadd(st, x, y) if o == 'fadd' else self.fadd(st, x, y, True) if o == 'fsub' else self.fmul(st, x, y) if o == 'fmul'
                                else self.fdiv(st, x, y) if o == 'fdiv' else self.libm(st, 'fmod', [x, y]))
            else:
                fr.regs[dst] = self.binop(st, o, t[1], x, y)
        elif op == 'fneg':
            fr.regs[ins[1]] = self.fneg(V(ins[2], ins[3]))
        elif op == 'icmp':
            fr.regs[ins[1]] = self.icmp(st, ins[2], ins[3], V(ins[3], ins[4]), V(ins[3], ins[5]))
        elif op == 'fcmp':
            fr.regs[ins[1]] = self.fcmp(st, ins[2], V(ins[3], ins[4]), V(ins[3], ins[5]))
        elif op == 'cast':
            fr.regs[ins[1]] = self.cast(st, ins[2], ins[3], V(ins[3], ins[4]), ins[5])
        elif op == 'select':
            _, dst, c, t, a, b = ins
            c = simp(self.as_bool(st, V(('i', 1), c)))
            if isinstance(c, bool):
                fr.regs[dst] = V(t, a if c else b)
            else:
                x, y = V(t, a), V(t, b)
                if t[0] == 'f':
                    fr.regs[dst] = self.ite(st, c, x, y)
                elif t[0] == 'i' and t[1] == 1:
                    x, y = zbool(self.as_bool(st, x)), zbool(self.as_bool(st, y))
                    r = simp(z3.If(c, x, y))
                    fr.regs[dst] = r
                elif t[0] == 'i' and isinstance(x, (int, I)) and isinstance(y, (int, I)):
                    if k_in(st, c):
                        fr.regs[dst] = x if st.facts[c.get_id()][1] else y
                    else:
                        (al, ah), (bl, bh) = self.bnd(x), self.bnd(y)
                        fr.regs[dst] = I(z3.If(c, self.ex(x), self.ex(y)), min(al, bl), max(ah, bh), min(self.tzof(x), self.tzof(y)))
                else:
                    fr.regs[dst] = x if self.choose(st, c) else y
        elif op == 'phi':
            # all phis of the block read the old values
            blk = self.mod.block(fr.fn, fr.bb)
            new = {}
            i = fr.i
            while blk[i][0] == 'phi':
                new[blk[i][1]] = V(blk[i][2], blk[i][3][fr.prev])
                i += 1
            fr.regs.update(new)
            fr.i = i
            return
        elif op == 'br':
            fr.prev, fr.bb, fr.i = fr.bb, ins[2], 0
            return
        elif op == 'cbr':
            b = self.choose(st, self.as_bool(st, V(('i', 1), ins[2])))
            fr.prev, fr.bb, fr.i = fr.bb, ins[3] if b else ins[4], 0
            return
        elif op == 'switch':
            w = ins[2][1]
            v = self.int_of(st, V(ins[2], ins[3]), w)
            v = self.signed(st, v, w)
            dest = ins[4]
            if isinstance(v, int):
                for c, bb in ins[5]:
                    if self.signed(st, c, w) == v:
                        dest = bb
                        break
            else:
                bbs = {}
                for c, bb in ins[5]:
                    bbs.setdefault(bb, []).append(self.signed(st, c, w))
                for bb, cs in bbs.items():
                    cs = [c for c in cs if v.lo <= c <= v.hi]
                    if cs and self.choose(st, z3.Or(*[v.e == c for c in cs])):
                        dest = bb
                        break
            fr.prev, fr.bb, fr.i = fr.bb, dest, 0
            return
        elif op == 'alloca':
            n = 1 if ins[3] is None else self.concrete(st, self.unsigned(st, self.int_of(st, V(*ins[3]), 64), 64))
            o = self.new(st, self.mod.size(ins[2]) * n, 'undef', '%s in %s' % (ins[1], fr.fn.name))
            fr.allocas.append(o)
            fr.regs[ins[1]] = Ptr(o, 0)
        elif op == 'call':
            self.call(st, fr, ins)
            return
        elif op == 'ret':
            v = None if ins[3] is None else V(ins[2], ins[3])
            for o in fr.allocas:
                self.wr(st, o).alive = False
            st.frames.pop()
            if not st.frames:
                raise Stop()
            up = st.frames[-1]
            if up.dst is not None:
                up.regs[up.dst] = v
            up.i += 1
            return
        elif op == 'unreachable':
            raise Stop()
        elif op == 'extractvalue':
            x = V(ins[2], ins[3])
            for i in ins[4]:
                x = x[i]
            fr.regs[ins[1]] = x
        elif op == 'insertvalue':
            x = copy_agg(V(ins[2], ins[3]))
            y = x
            for i in ins[6][:-1]:
                y = y[i]
            y[ins[6][-1]] = V(ins[4], ins[5])
            fr.regs[ins[1]] = x
        elif op == 'extractelement':
            fr.regs[ins[1]] = V(ins[2], ins[3])[self.concrete(st, V(('i', 64), ins[4]))]
        elif op == 'insertelement':
            x = list(V(ins[2], ins[3]))
            x[self.concrete(st, V(('i', 64), ins[5]))] = V(ins[2][2], ins[4])
            fr.regs[ins[1]] = x
        elif op == 'freeze':
            fr.regs[ins[1]] = V(ins[2], ins[3])
        else:
            raise NoVerdict('instruction ' + op)
        fr.i += 1

    def icmp(self, st, pred, t, a, b):
        if t[0] == 'p' or isinstance(a, (Ptr, FPtr)) or isinstance(b, (Ptr, FPtr)):
            def key(p):
                if isinstance(p, FPtr):
                    return ('f', p.name), 0
                if isinstance(p, int):
                    return 0, p
                return p.o, p.off
            (ao, af), (bo, bf) = key(a), key(b)
            if pred in ('eq', 'ne'):
                if ao != bo:
                    r = False
                elif isinstance(af, int) and isinstance(bf, int):
                    r = af == bf
                else:
                    r = self.ex(af) == self.ex(bf)
                return r if pred == 'eq' else znot(r)
            if ao != bo:
                raise NoVerdict('pointer order')
            a, b = af, bf
            pred = 's' + pred[1:]
            t = ('i', 64)
        w = t[1]
        if w == 1:
            x, y = self.as_bool(st, a), self.as_bool(st, b)
            r = simp(zbool(x) == zbool(y))
            if pred == 'eq':
                return r
            if pred == 'ne':
                return znot(r)
        a, b = self.int_of(st, a, w), self.int_of(st, b, w)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            return self.icmp(st, pred, ('p',), a, b)
        if pred in ('eq', 'ne'):
            # one normal form for both
            f = self.signed if (self.bnd(a)[0] < 0 or self.bnd(b)[0] < 0) else self.unsigned
            a, b = f(st, a, w), f(st, b, w)
            p = pred
        else:
            f = self.signed if pred[0] == 's' else self.unsigned
            a, b = f(st, a, w), f(st, b, w)
            p = pred[1:]
        if isinstance(a, int) and isinstance(b, int):
            return {'eq': a == b, 'ne': a != b, 'lt': a < b, 'gt': a > b, 'le': a <= b, 'ge': a >= b}[p]
        (al, ah), (bl, bh) = self.bnd(a), self.bnd(b)
        if ah < bl:
            return p in ('lt', 'le', 'ne')
        if al > bh:
            return p in ('gt', 'ge', 'ne')
        if p in ('lt', 'ge') and al >= bh:
            return p == 'ge'
        if p in ('gt', 'le') and ah <= bl:
            return p == 'le'
        x, y = self.ex(a), self.ex(b)
        return {'eq': x == y, 'ne': x != y, 'lt': x < y, 'gt': x > y, 'le': x <= y, 'ge': x >= y}[p]

    def cast(self, st, op, t, v, t2):
        if op in ('fpext', 'fptrunc'):
            if op == 'fptrunc' and isinstance(v, Fraction):
                try:
                    return Fraction(struct.unpack('<f', struct.pack('<f', f2d(v)))[0])
                except OverflowError:
                    return float('inf')
            return v
        if op in ('fptosi', 'fptoui'):
            return self.fptoint(st, v, t2[1], op == 'fptosi')
        if op in ('sitofp', 'uitofp'):
            if t[1] == 1:
                v = self.int_of(st, v, 1)
                if op == 'sitofp':
                    v = self.imulc(v, -1)
            else:
                v = self.int_of(st, v, t[1])
                v = self.signed(st, v, t[1]) if op == 'sitofp' else self.unsigned(st, v, t[1])
            return Fraction(v) if isinstance(v, int) else R(z3.simplify(z3.ToReal(v.e)))
        if op in ('ptrtoint', 'inttoptr', 'bitcast'):
            if op == 'inttoptr' and isinstance(v, int) and v == 0:
                return NULL
            return v
        if op == 'trunc':
            if t2[1] == 1:
                return self.as_bool(st, v)
            v = self.int_of(st, v, t[1])
            return v if isinstance(v, (I, Ptr)) else self.signed(st, v, t2[1])
        if op == 'zext':
            if t[1] == 1:
                return self.int_of(st, v, 1)
            return self.unsigned(st, self.int_of(st, v, t[1]), t[1])
        if op == 'sext':
            if t[1] == 1:
                return self.imulc(self.int_of(st, v, 1), -1)
            return self.signed(st, self.int_of(st, v, t[1]), t[1])
        raise NoVerdict(op)

    def call(self, st, fr, ins):
        _, dst, rt, (k, callee), args = ins
        name = callee
        if k == 'local':
            p = fr.regs[callee]
            if not isinstance(p, FPtr):
                self.bug(st, 'call through a null pointer')
                raise Stop()
            name = p.name
        vals = [self.val(st, fr, at, av) if av is not None else None for at, av, _ in args]
        f = self.mod.fns.get(name)
        if f is None:
            r = self.external(st, fr, name, vals, rt)
            if dst is not None:
                fr.regs[dst] = r
            fr.i += 1
            return
        if len(st.frames) > 60:
            raise NoVerdict('call depth')
        self.fns.add(name[1:])
        nf = Frame(f)
        for (pt, pn, pa), (at, av, aa), v in zip(f.params, args, vals):
            if 'byval' in pa:
                n = self.mod.size(pa['byval'])
                o = self.new(st, n, 'undef', pn)
                self.memcpy(st, Ptr(o, 0), v, n)
                v = Ptr(o, 0)
                nf.allocas.append(o)
            nf.regs[pn] = v
        fr.dst = dst
        st.frames.append(nf)

    def run(self):
        st = State()
        f = self.mod.fns['@harness']
        st.frames.append(Frame(f))
        work = [st]
        while work:
            st = work.pop()
            limit = self.job.get('max_steps', 2000000)
            try:
                while True:
                    st.steps += 1
                    self.steps += 1
                    if st.steps > limit:
                        raise NoVerdict('step limit')
                    if st.steps & 1023 == 0 and time.time() > self.t_end:
                        raise NoVerdict('time limit')
                    try:
                        self.step(st)
                    except Fork as k:
                        o = st.clone()
                        try:
                            self.add(o, z3.Not(k.cond))
                            work.append(o)
                        except Stop:
                            pass
                        self.add(st, k.cond)
                        if len(work) > self.max_paths:
                            raise NoVerdict('too many paths')
            except Stop:
                self.paths += 1
                if self.paths > self.max_paths:
                    raise NoVerdict('too many paths')


def k_in(st, c):
    return c.get_id() in st.facts


def copy_agg(x):
    return [copy_agg(y) for y in x] if isinstance(x, list) else x


_hasint = {}


def has_int(e):
    k = e.get_id()
    if k in _hasint:
        return _hasint[k]
    seen = set()
    stack = [e]
    r = False
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_int(x):
            r = True
            break
        stack.extend(x.children())
    _hasint[k] = r
    _keep.append(e)
    return r


def main():
    job = json.load(open(sys.argv[1]))
    z3.set_param('memory_max_size', job.get('mem_mb', 3500))
    t0 = time.time()
    res = dict(verdict='error', note='')
    e = None
    try:
        e = Engine(job)
        e.run()
        res['verdict'] = 'holds' if not e.unproved else 'unreproduced'
        if e.unproved:
            res['note'] = 'unreproduced: ' + '; '.join(e.unproved)
    except Violated:
        res['verdict'] = 'violated'
        res['violation'] = e.violation
    except NoVerdict as x:
        res['verdict'] = 'no-verdict'
        res['note'] = str(x)
        if e.unproved:
            res['note'] += ' | unreproduced: ' + '; '.join(e.unproved)
    except z3.Z3Exception as x:
        res['note'] = 'z3: %s' % x
    except Exception as x:
        import traceback
        res['note'] = traceback.format_exc()[-1500:]
    if e:
        res.update(steps=e.steps, paths=e.paths, vccs=e.vccs, trivial=e.trivial, runs=e.nq, solver_s=e.solver_s, functions=sorted(e.fns), witnesses=[
            dict(label=l, reached=l in e.wit, **{k: v for k, v in e.wit.get(l, {}).items()}) for l in sorted(e.labels)])
    res['wall'] = time.time() - t0
    json.dump(res, open(job['out'], 'w'))


if __name__ == '__main__':
    main()
