"""Symbolic values, memory regions, states and the solver interface."""
import itertools
import time
import z3
from .ir import Unsupported
from . import lia

z3.set_param('smt.random_seed', 1)
z3.set_param('sat.random_seed', 1)

BV64 = z3.BitVecSort(64)
BV8 = z3.BitVecSort(8)
MAXSZ = 1 << 60          # no object is larger than this many bytes (address-space assumption)
_ctr = itertools.count()


def fresh_name(p):
    return f'{p}!{next(_ctr)}'


def bv(name, w=64):
    return z3.BitVec(fresh_name(name), w)


def fbool(name):
    return z3.Bool(fresh_name(name))


def isc(v):
    return isinstance(v, (int, bool))


def mask(w):
    return (1 << w) - 1


def E(v, w):
    """to z3 bitvector expr"""
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, int):
        return z3.BitVecVal(v, w)
    if z3.is_bool(v):
        return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    return v


def B(v):
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.BoolVal(bool(v))
    return v


def S(e):
    """simplify and fold to python constants"""
    if isc(e):
        return e
    e = z3.simplify(e)
    if z3.is_bv_value(e):
        return e.as_long()
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return e


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def b_and(*xs):
    ys = []
    for x in xs:
        if x is True or (isinstance(x, int) and not isinstance(x, bool) and x):
            continue
        if x is False or (isinstance(x, int) and not x):
            return False
        ys.append(x)
    if not ys:
        return True
    if len(ys) == 1:
        return ys[0]
    return z3.And(*ys)


def b_or(*xs):
    ys = []
    for x in xs:
        if x is False:
            continue
        if x is True:
            return True
        ys.append(x)
    if not ys:
        return False
    if len(ys) == 1:
        return ys[0]
    return z3.Or(*ys)


def b_not(x):
    if isinstance(x, bool):
        return not x
    return z3.Not(x)


def implies(a, b):
    return b_or(b_not(a), b)


def add(a, b, w=64):
    if isc(a) and isc(b):
        return (a + b) & mask(w)
    if isc(a) and a == 0:
        return b
    if isc(b) and b == 0:
        return a
    return S(E(a, w) + E(b, w))


def sub(a, b, w=64):
    if isc(a) and isc(b):
        return (a - b) & mask(w)
    if isc(b) and b == 0:
        return a
    return S(E(a, w) - E(b, w))


def mul(a, b, w=64):
    if isc(a) and isc(b):
        return (a * b) & mask(w)
    if isc(b) and b == 1:
        return a
    if isc(a) and a == 1:
        return b
    return S(E(a, w) * E(b, w))


def eq(a, b, w=64):
    if isc(a) and isc(b):
        return int(a) == int(b)
    if (not isc(a) and z3.is_bool(a)) or (not isc(b) and z3.is_bool(b)):
        return S(B(a) == B(b))
    return S(E(a, w) == E(b, w))


def ult(a, b, w=64):
    if isc(a) and isc(b):
        return a < b
    return S(z3.ULT(E(a, w), E(b, w)))


def ule(a, b, w=64):
    if isc(a) and isc(b):
        return a <= b
    return S(z3.ULE(E(a, w), E(b, w)))


def slt(a, b, w=64):
    if isc(a) and isc(b):
        return sgn(a, w) < sgn(b, w)
    return S(E(a, w) < E(b, w))


def sle(a, b, w=64):
    if isc(a) and isc(b):
        return sgn(a, w) <= sgn(b, w)
    return S(E(a, w) <= E(b, w))


def ite(c, a, b, w=64):
    if isinstance(c, bool):
        return a if c else b
    if isc(a) and isc(b) and a == b:
        return a
    if not isc(a) and not isc(b) and a.eq(b):
        return a
    return S(z3.If(c, E(a, w), E(b, w)))


class Ptr:
    __slots__ = ('r', 'o')

    def __init__(self, r, o=0):
        self.r, self.o = r, o

    def __repr__(self):
        return f'Ptr(r{self.r}+{self.o})'


NULL = Ptr(0, 0)


class FloatV:
    """opaque floating value"""
    __slots__ = ('v', 'tag')

    def __init__(self, v=None, tag=None):
        self.v = v
        self.tag = tag


class FnPtr:
    __slots__ = ('name',)

    def __init__(self, n):
        self.name = n

    def __repr__(self):
        return 'Fn(' + self.name + ')'


class Agg:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = tuple(v)


UNDEF = object()


class UndefV:
    __slots__ = ()


# ---- blob contents ---------------------------------------------------------
class Chain:
    """persistent byte/element contents. width = bits per unit."""
    __slots__ = ('k', 'p', 'a', 'w', 'memo')

    def __init__(self, k, p, a, w):
        self.k, self.p, self.a, self.w = k, p, a, w
        self.memo = {}

    def read(self, i):
        key = i if isc(i) else ('e', i.get_id())
        m = self.memo.get(key)
        if m is not None:
            return m[0]
        v = self._read(i)
        self.memo[key] = (v, i)
        return v

    def _read(self, i):
        w = self.w
        k = self.k
        if k == 'base':
            return self.a(E(i, 64))
        if k == 'const':
            bs = self.a
            if isc(i):
                return bs[i] if i < len(bs) else 0
            # balanced ite over index bits
            return const_table(bs, i, w)
        if k == 'store':
            j, v = self.a
            c = eq(i, j)
            if c is True:
                return v
            r = self.p.read(i)
            if c is False:
                return r
            return ite(c, v, r, w)
        if k == 'fill':
            lo, n, v = self.a
            c = S(z3.ULT(E(sub(i, lo), 64), E(n, 64)))
            if c is True:
                return v
            r = self.p.read(i)
            if c is False:
                return r
            return ite(c, v, r, w)
        if k == 'copy':
            lo, n, src, so = self.a
            d = sub(i, lo)
            c = S(z3.ULT(E(d, 64), E(n, 64)))
            if c is False:
                return self.p.read(i)
            s = src.read(add(so, d))
            if c is True:
                return s
            return ite(c, s, self.p.read(i), w)
        if k == 'fun':
            lo, n, f = self.a
            d = sub(i, lo)
            c = S(z3.ULT(E(d, 64), E(n, 64)))
            if c is False:
                return self.p.read(i)
            s = f(d)
            if c is True:
                return s
            return ite(c, s, self.p.read(i), w)
        raise Unsupported('chain ' + k)

    def store(self, i, v):
        return Chain('store', self, (i, v), self.w)

    def fill(self, lo, n, v):
        return Chain('fill', self, (lo, n, v), self.w)

    def copy(self, lo, n, src, so):
        return Chain('copy', self, (lo, n, src, so), self.w)

    def fun(self, lo, n, f):
        return Chain('fun', self, (lo, n, f), self.w)


_tabs = {}


def const_table(bs, i, w):
    key = (bytes(bs) if w == 8 else tuple(bs), w)
    n = len(bs)
    bits = max(1, (n - 1).bit_length())

    def rec(lo, b):
        if b == 0:
            return z3.BitVecVal(bs[lo] if lo < n else 0, w)
        l = rec(lo, b - 1)
        h = rec(lo + (1 << (b - 1)), b - 1)
        if l.eq(h):
            return l
        bit = z3.Extract(b - 1, b - 1, E(i, 64)) == 1
        return z3.If(bit, h, l)
    return S(rec(0, bits))


def base_chain(name, w=8):
    f = z3.Function(fresh_name(name), BV64, z3.BitVecSort(w))
    return Chain('base', None, f, w)


class Region:
    __slots__ = ('id', 'name', 'kind', 'size', 'cells', 'chain', 'freed', 'src', 'g', 'meta', 'const', 'default')

    def __init__(self, id, name, kind, size, src):
        self.id, self.name, self.kind, self.size, self.src = id, name, kind, size, src
        self.cells = None
        self.chain = None
        self.freed = False
        self.g = 1
        self.meta = {}
        self.const = False
        self.default = None

    def clone(self):
        r = Region(self.id, self.name, self.kind, self.size, self.src)
        r.cells = dict(self.cells) if self.cells is not None else None
        r.chain = self.chain
        r.freed = self.freed
        r.g = self.g
        r.meta = dict(self.meta)
        r.const = self.const
        r.default = self.default
        return r


class Fact:
    """forall i. closure(i), instantiated at every application trigger(i)"""
    __slots__ = ('f', 'cl', 'done')

    def __init__(self, f, cl):
        self.f, self.cl = f, cl


class State:
    __slots__ = ('pc', 'regs', 'facts', 'nreg', 'trace', 'ghost', 'allocs', 'mods', 'own')

    def __init__(self):
        self.pc = []
        self.regs = {}
        self.facts = []
        self.trace = ()
        self.ghost = {}
        self.allocs = ()
        self.mods = None

    def clone(self):
        s = State()
        s.pc = list(self.pc)
        s.regs = dict(self.regs)
        s.facts = list(self.facts)
        s.trace = self.trace
        s.ghost = dict(self.ghost)
        s.allocs = self.allocs
        return s

    def reg(self, i):
        return self.regs[i]

    def wr(self, i):
        r = self.regs[i].clone()
        self.regs[i] = r
        return r

    def assume(self, c):
        c = S(c) if not isinstance(c, bool) else c
        if c is True:
            return True
        self.pc.append(B(c))
        return c is not False

    def add_idx(self, *ts):
        self.ghost['idx'] = tuple(self.ghost.get('idx', ())) + tuple(E(t, 64) for t in ts)

    def new_region(self, name, kind, size, src):
        i = next(_rid)
        r = Region(i, name, kind, size, src)
        if kind == 'obj':
            r.cells = {}
        elif kind == 'blob':
            r.chain = base_chain(name)
        self.regs[i] = r
        return r


_rid = itertools.count(1)

# ---- solver ----------------------------------------------------------------


class Model:
    """evaluates bit-vector/boolean terms in a model of the formula or of its integer translation"""

    def __init__(self, m, tr):
        self.m, self.tr = m, tr

    def ev(self, t):
        if isc(t):
            return t
        if self.tr is not None:
            x = self.tr.bo(t) if z3.is_bool(t) else self.tr.bvt(t)
        else:
            x = t
        v = self.m.eval(x, model_completion=True)
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        if z3.is_int_value(v) or z3.is_bv_value(v):
            return v.as_long()
        return None


def post(s, exprs):
    """assert Boolean terms (z3.Solver.add without its conversions)"""
    c = s.ctx.ref()
    for e in exprs:
        z3.z3core.Z3_solver_assert(c, s.solver, e.ast)


class Solver:
    def __init__(self, timeout_ms=20000):
        self.timeout = timeout_ms
        self.time = 0.0
        self.queries = 0
        self.cache = {}
        self.apps = {}
        self.keep = []
        self.tr = lia.Tr()
        self.tra = None
        self.nlia = self.nno = 0

    def _apps(self, e):
        """applications f(i) of unary uninterpreted functions in e"""
        k = e.get_id()
        r = self.apps.get(k)
        if r is not None:
            return r
        out = {}
        seen = set()
        st = [e]
        while st:
            x = st.pop()
            xi = x.get_id()
            if xi in seen:
                continue
            seen.add(xi)
            if z3.is_app(x):
                if x.num_args() >= 1 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out[xi] = x
                st.extend(x.children())
        r = list(out.values())
        self.apps[k] = r
        self.keep.append(e)
        return r

    def expand(self, assertions, facts, rounds=3, idx=()):
        res = list(assertions)
        if not facts:
            return res
        by = {}
        for f in facts:
            by.setdefault(f.f.get_id() if f.f is not None else None, []).append(f)
        done = set()
        todo = res
        idx = {i.get_id(): i for i in idx}
        gen = by.get(None, ())
        for rnd in range(rounds):
            new = []
            if gen:
                for a in todo:
                    for x in self._apps(a):
                        if x.decl().name().startswith('wit'):
                            idx[x.get_id()] = x
                for f in gen:
                    for k, i in list(idx.items()):
                        key = (id(f), k)
                        if key in done:
                            continue
                        done.add(key)
                        inst = S(f.cl(i))
                        if inst is not True:
                            new.append(B(inst))
            for a in todo:
                for x in self._apps(a):
                    d = x.decl().get_id()
                    for f in by.get(d, ()):
                        args = tuple(c.get_id() for c in x.children())
                        key = (id(f), args)
                        if key in done:
                            continue
                        done.add(key)
                        inst = f.cl(*x.children())
                        inst = S(inst)
                        if inst is True:
                            continue
                        new.append(B(inst))
            if not new:
                break
            res = res + new
            todo = new
        return res

    def check(self, st, extra, want_model=False, timeout=None):
        """'unsat' | 'sat' | 'unknown' for pc and extra"""
        a = list(st.pc)
        for e in extra:
            if e is True:
                continue
            if e is False:
                return 'unsat', None
            a.append(B(e))
        a = self.expand(a, st.facts, idx=st.ghost.get('idx', ()))
        key = frozenset(x.get_id() for x in a)
        if not want_model:
            r = self.cache.get(key)
            if r is not None:
                return r[0], None
        t = time.time()
        tmo = timeout or self.timeout
        r, m = 'unknown', None
        try:
            b = lia.translate(self.tr, a)
            s = z3.SolverFor('QF_UFLIA')
            s.set('timeout', tmo)
            post(s, b)
            r = str(s.check())
            self.nlia += 1
            if r == 'sat' and want_model:
                m = Model(s.model(), self.tr)
        except lia.No:
            self.nno += 1
            # terms outside linear arithmetic become arbitrary values: a refutation still stands
            if self.tra is None:
                self.tra = lia.Tr()
                self.tra.approx = True
            try:
                b = lia.translate(self.tra, a)
                s = z3.SolverFor('QF_UFLIA')
                s.set('timeout', min(tmo, 5000))
                post(s, b)
                if str(s.check()) == 'unsat':
                    r = 'unsat'
            except lia.No:
                pass
        if r == 'unknown':
            s = z3.Solver()
            s.set('timeout', tmo)
            post(s, a)
            r = str(s.check())
            if r == 'sat' and want_model:
                m = Model(s.model(), None)
        d = time.time() - t
        self.time += d
        self.queries += 1
        self.cache[key] = (r, a)
        return r, m

    def feasible(self, st, cond):
        if cond is True:
            return True
        if cond is False:
            return False
        r, _ = self.check(st, [cond], timeout=3000)
        return r != 'unsat'

    def valid(self, st, cond, timeout=None):
        """True / False / None(unknown)"""
        cond = S(cond) if not isinstance(cond, bool) else cond
        if cond is True:
            return True
        r, _ = self.check(st, [b_not(cond)], timeout=timeout)
        return True if r == 'unsat' else (False if r == 'sat' else None)
