"""Symbolic execution of IR functions, function by function, with contracts at calls and
inferred-and-checked loop invariants."""
import subprocess
import time
import z3
from .ir import Unsupported, Module
from .sym import *
from . import sym


class Kill(Exception):
    """path infeasible after a failed obligation / dead path"""


class Outcome:
    __slots__ = ('kind', 'v')

    def __init__(self, kind, v=None):
        self.kind, self.v = kind, v     # ret, throw(type), terminate, exit

    def __repr__(self):
        return f'<{self.kind} {self.v}>'


class Oblig:
    __slots__ = ('tag', 'where', 'msg', 'ok', 'model', 'stack', 'entry', 'fnname', 'status', 'cond')


SUPERS = {
    '_ZTISt12out_of_range': ['_ZTISt11logic_error', '_ZTISt9exception'],
    '_ZTISt9bad_alloc': ['_ZTISt9exception'],
    '_ZTISt20bad_array_new_length': ['_ZTISt9bad_alloc', '_ZTISt9exception'],
    '_ZTISt12length_error': ['_ZTISt11logic_error', '_ZTISt9exception'],
    '_ZTISt11logic_error': ['_ZTISt9exception'],
    '_ZTISt13runtime_error': ['_ZTISt9exception'],
}


class Machine:
    def __init__(self, mod, layout=None, timeout=20000):
        self.mod = mod
        self.sol = Solver(timeout)
        self.ext = {}
        self.contracts = {}
        self.obs = []
        self.quiet = 0
        self.stack = []
        self.cur = None
        self.glob = {}
        self.init_state = State()
        n = Region(0, 'null', 'null', 0, 'null')
        self.init_state.regs[0] = n
        self.scaled = {}
        self.L = layout or {}
        self.entry = '?'
        self.inlined = set()
        self.used_contracts = set()
        self.used_ext = set()
        self.paths = 0
        self.loops = 0
        self.loop_hints = {}
        self.interfere = True
        self.alloc_fail = True
        self.max_paths = 4000
        self.deadline = None
        self.dem = {}
        self.eager = False       # check every obligation with the solver immediately
        self.tags = None         # tags to record; None = all
        self.ranking = True
        self.dead_loops = []
        self.unroll = 300
        self.loop_hint_list = []
        self.rank_hints = []
        self.loop_log = []
        self.last_invariants = []

    # ---- obligations ---------------------------------------------------
    def where(self):
        if self.cur is None:
            return ('?', 0)
        i = self.cur
        return self.mod.dbg_loc(i.line) if i.line else ('?', 0)

    def oblige(self, st, tag, cond, msg, kill=True):
        cond = S(cond) if not isinstance(cond, bool) else cond
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time limit')
        record = not self.quiet and (self.tags is None or tag in self.tags)
        if record:
            o = Oblig()
            o.tag, o.msg, o.stack, o.entry = tag, msg, tuple(self.stack), self.entry
            o.where = self.where()
            o.fnname = self.stack[-1] if self.stack else ''
            o.model = None
            o.cond = None
            if cond is True:
                o.ok, o.status = True, 'trivial'
            else:
                r, m = self.sol.check(st, [b_not(cond)], want_model=False)
                o.ok = r == 'unsat'
                o.status = r
                if r == 'sat':
                    r2, m = self.sol.check(st, [b_not(cond)], want_model=True)
                    if r2 == 'sat':
                        o.model = self.model_dump(st, m)
            self.obs.append(o)
        if cond is not True:
            if cond is False:
                raise Kill()
            st.assume(cond)
        return True

    def model_dump(self, st, m):
        d = {}
        for k, t in st.ghost.get('watch', ()):
            try:
                if callable(t):
                    t = t()
                v = m.ev(t)
                d[k] = v
            except Exception as e:
                d[k] = '?'
        return d

    # ---- constants -----------------------------------------------------
    def gptr(self, st, name):
        name = self.mod.aliases.get(name, name)
        if name in self.mod.fns or name in self.mod.decls:
            return FnPtr(name)
        i = self.glob.get(name)
        if i is None:
            g = self.mod.global_def(name)
            if g is None:
                raise Unsupported('global ' + name)
            t, v, const = g
            sz = self.mod.size(t) if v is not None else 64
            kind = 'blob' if self._bytey(t) else 'obj'
            r = Region(next(sym._rid), '@' + name, kind, sz, 'global')
            r.const = const
            if kind == 'blob':
                r.g = self.mod.size(self.mod.rt(t)[2]) if self.mod.rt(t)[0] == 'a' else sz
                w = 8 * r.g
                r.size = sz // r.g
                if v is not None and const:
                    bs = self._cbytes(t, v, r.g)
                    if self.opaque and len(bs) >= self.opaque:
                        # large tables: an uninterpreted function; the facts used about it are checked by evaluation
                        r.chain = base_chain('tab_' + name, w)
                        r.meta['bytes'] = bs
                    else:
                        r.chain = Chain('const', None, bs, w)
                else:
                    r.chain = base_chain('g_' + name, w)
                    if v is not None and not const:
                        r.meta['mutable_global'] = True
            else:
                r.cells = {}
                if v is not None:
                    self._cells(self.init_state, r, t, v, 0)
                    if not const:
                        # any earlier operation may have changed it
                        for o, (n, x) in list(r.cells.items()):
                            if isinstance(x, int) and n in (1, 2, 4, 8):
                                r.cells[o] = (n, bv('g', 8 * n))
                r.meta['lazy'] = True
            if not const and name not in self.mod.tls:
                r.meta['shared_global'] = True
            self.glob[name] = r.id
            self.init_state.regs[r.id] = r
            i = r.id
        if i not in st.regs:
            st.regs[i] = self.init_state.regs[i]
        return Ptr(i, 0)

    def _bytey(self, t):
        t = self.mod.rt(t)
        return isinstance(t, tuple) and t[0] == 'a' and isinstance(self.mod.rt(t[2]), tuple) and self.mod.rt(t[2])[0] == 'i'

    def _cbytes(self, t, v, g):
        t = self.mod.rt(t)
        n = t[1]
        if v[0] == 'zero' or v[0] == 'undef':
            return [0] * n
        if v[0] == 'cs':
            return v[1]
        out = []
        for tt, x in v[1]:
            out.append(x[1] & mask(8 * g))
        return bytes(out) if g == 1 else out

    def _cells(self, st, r, t, v, off):
        t0 = self.mod.rt(t)
        if t0 == 'ptr' or t0[0] in ('i', 'f'):
            r.cells[off] = (self.mod.size(t0), self.const(st, t0, v))
            return
        if v[0] in ('zero', 'undef'):
            if t0[0] == 'a':
                es = self.mod.size(t0[2])
                for i in range(min(t0[1], 512)):
                    self._cells(st, r, t0[2], v, off + i * es)
            else:
                for i, ft in enumerate(t0[1]):
                    self._cells(st, r, ft, v, off + self.mod.field(t0, i)[0])
            return
        if v[0] == 'cs':
            for i, b in enumerate(v[1]):
                r.cells[off + i] = (1, b)
            return
        if t0[0] == 'a':
            es = self.mod.size(t0[2])
            for i, (tt, x) in enumerate(v[1]):
                self._cells(st, r, tt, x, off + i * es)
        else:
            for i, (tt, x) in enumerate(v[1]):
                self._cells(st, r, tt, x, off + self.mod.field(t0, i)[0])

    def const(self, st, ty, v):
        k = v[0]
        ty = self.mod.rt(ty)
        if k == 'c':
            if ty[0] == 'f':
                return FloatV(float(v[1]))
            if ty == ('i', 1):
                return bool(v[1])
            return v[1] & mask(ty[1])
        if k == 'f':
            x = v[1]
            if isinstance(x, str):
                import struct
                x = struct.unpack('>d', int(x, 16).to_bytes(8, 'big'))[0] if len(x) <= 18 else x
            return FloatV(x)
        if k == 'null':
            return NULL
        if k == 'g':
            return self.gptr(st, v[1])
        if k == 'zero':
            if ty == 'ptr':
                return NULL
            if ty[0] == 'i':
                return False if ty[1] == 1 else 0
            if ty[0] == 's':
                return Agg([self.const(st, t, v) for t in ty[1]])
            if ty[0] == 'a':
                return Agg([self.const(st, ty[2], v) for _ in range(ty[1])])
            return FloatV(0.0)
        if k == 'undef':
            if ty == 'ptr':
                return NULL
            if ty[0] == 'i':
                return fbool('undef') if ty[1] == 1 else bv('undef', ty[1])
            if ty[0] == 's':
                return Agg([self.const(st, t, v) for t in ty[1]])
            if ty[0] == 'a':
                return Agg([self.const(st, ty[2], v) for _ in range(ty[1])])
            return FloatV(None)
        if k == 'gep':
            base = self.const(st, v[2][0][0], v[2][0][1])
            idx = [(t, self.const(st, t, x)) for t, x in v[2][1:]]
            return self.gep(st, v[1], base, idx)
        if k == 'cast':
            x = self.const(st, v[2], v[3])
            return self.cast(st, v[1], self.mod.rt(v[2]), x, self.mod.rt(v[4]))
        if k == 'bin':
            x = self.const(st, v[2], v[3])
            y = self.const(st, v[2], v[4])
            return self.binop(st, v[1], self.mod.rt(v[2])[1], x, y, set())
        if k == 'agg':
            return Agg([self.const(st, t, x) for t, x in v[1]])
        raise Unsupported('const ' + str(v)[:80])

    def val(self, st, env, ty, v):
        if v[0] == 'r':
            return env[v[1]]
        return self.const(st, ty, v)

    # ---- arithmetic ----------------------------------------------------
    def addr(self, st, p):
        """integer value of a pointer"""
        if isinstance(p, FnPtr):
            r = z3.BitVec('fnaddr_' + p.name, 64)
            return r
        if p.r == 0:
            return p.o
        reg = st.regs[p.r]
        base = z3.BitVec(f'base_{p.r}', 64)
        if not reg.meta.get('based'):
            reg = st.wr(p.r)
            reg.meta['based'] = True
            st.pc.append(base != 0)
            st.pc.append(z3.ULE(base, z3.BitVecVal(1 << 62, 64)))
        return add(base, mul(p.o, reg.g))

    def gep(self, st, bt, base, idx):
        if isinstance(base, FnPtr):
            raise Unsupported('gep on function')
        reg = st.regs[base.r]
        g = reg.g
        off = base.o
        t, i0 = idx[0]
        w = self.mod.rt(t)[1]
        sz = self.mod.size(bt)

        def scaled(i, w, sz):
            if isc(i):
                i = sgn(i, w) if not isinstance(i, bool) else int(i)
                if g != 1:
                    if (i * sz) % g:
                        raise Unsupported('misaligned gep')
                    return (i * sz // g) & mask(64)
                return (i * sz) & mask(64)
            if w < 64:
                i = S(z3.SignExt(64 - w, i))
            if g != 1:
                if sz % g:
                    raise Unsupported('misaligned gep')
                return mul(i, sz // g)
            r = mul(i, sz)
            return r
        off = add(off, scaled(i0, w, sz))
        cur = bt
        for t, i in idx[1:]:
            c = self.mod.rt(cur)
            w = self.mod.rt(t)[1]
            if c[0] == 's':
                o, cur = self.mod.field(c, i)
                if g != 1:
                    if o % g:
                        raise Unsupported('misaligned gep')
                    o //= g
                off = add(off, o)
            elif c[0] in ('a', 'v'):
                off = add(off, scaled(i, w, self.mod.size(c[2])))
                cur = c[2]
            else:
                raise Unsupported('gep type')
        return Ptr(base.r, off)

    def binop(self, st, op, w, a, b, flags):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            raise Unsupported('ptr arithmetic ' + op)
        if w == 1:
            if op == 'xor':
                return S(z3.Xor(B(a), B(b)))
            if op in ('and', 'mul'):
                return S(z3.And(B(a), B(b)))
            if op == 'or':
                return S(z3.Or(B(a), B(b)))
            raise Unsupported('i1 ' + op)
        if op == 'add':
            r = add(a, b, w)
        elif op == 'sub':
            r = sub(a, b, w)
        elif op == 'mul':
            r = mul(a, b, w)
            if not isc(r):
                if isc(a):
                    self.scaled[r.get_id()] = (a, b, r)
                elif isc(b):
                    self.scaled[r.get_id()] = (b, a, r)
        elif op in ('and', 'or', 'xor'):
            f = {'and': lambda x, y: x & y, 'or': lambda x, y: x | y, 'xor': lambda x, y: x ^ y}[op]
            if isc(a) and isc(b):
                return f(int(a), int(b)) & mask(w)
            r = S(f(E(a, w), E(b, w)))
        elif op in ('shl', 'lshr', 'ashr'):
            if not (isc(b) and b < w):
                self.oblige(st, 'ub', implies(self.used_when, ult(b, w, w)), 'shift amount in range')
            if op == 'shl':
                r = S(E(a, w) << E(b, w))
            elif op == 'lshr':
                r = S(z3.LShR(E(a, w), E(b, w)))
            else:
                r = S(E(a, w) >> E(b, w))
        elif op in ('udiv', 'urem', 'sdiv', 'srem'):
            if op == 'sdiv' and isc(b) and not isc(a) and w == 64:
                sc = self.scaled.get(a.get_id())
                if sc and sc[0] == b:
                    return sc[1]
            if not isc(b):
                self.oblige(st, 'ub', b_not(eq(b, 0, w)), 'division by zero')
            elif b == 0:
                self.oblige(st, 'ub', False, 'division by zero')
            x, y = E(a, w), E(b, w)
            r = S({'udiv': lambda: z3.UDiv(x, y), 'urem': lambda: z3.URem(x, y), 'sdiv': lambda: x / y, 'srem': lambda: z3.SRem(x, y)}[op]())
        else:
            raise Unsupported('binop ' + op)
        if 'nsw' in flags and op in ('add', 'sub', 'mul') and not (isc(a) and isc(b)):
            x, y = E(a, w), E(b, w)
            if op == 'add':
                c = z3.And(z3.BVAddNoOverflow(x, y, True), z3.BVAddNoUnderflow(x, y))
            elif op == 'sub':
                c = z3.And(z3.BVSubNoOverflow(x, y), z3.BVSubNoUnderflow(x, y, True))
            else:
                c = z3.And(z3.BVMulNoOverflow(x, y, True), z3.BVMulNoUnderflow(x, y))
            self.oblige(st, 'ub', implies(self.used_when, c), 'signed overflow in ' + op)
        return r

    used_when = True
    _uses = None

    def needed(self, f, blk, res, st, env, depth=0):
        """condition under which a (speculated) result reaches anything but the unselected arm of a select"""
        if self._uses is None:
            self._uses = {}
        us = self._uses.get(f.name)
        if us is None:
            us = self._uses[f.name] = {}
            for bn, ins in f.blocks.items():
                for j in ins:
                    for n, q in self.operands(j):
                        us.setdefault(n, []).append((bn, j, q))
        c = False
        for bn, j, q in us.get(res, ()):
            if bn != blk or depth > 4:
                return True
            if j.op == 'select' and q in (1, 2) and j.a[0] != j.a[q]:
                k = j.a[0]
                if not (isinstance(k, tuple) and k[0] == 'r' and k[1] in env):
                    return True
                g = env[k[1]]
                c = b_or(c, g if q == 1 else b_not(g))
            elif j.op in ('sext', 'zext', 'trunc', 'add', 'sub', 'mul', 'shl', 'and', 'or', 'xor'):
                c = b_or(c, self.needed(f, blk, j.res, st, env, depth + 1))
            else:
                return True
            if c is True:
                return True
        return c

    def operands(self, j):
        def walk(v, q):
            if isinstance(v, tuple):
                if len(v) == 2 and v[0] == 'r':
                    yield v[1], q
                else:
                    for y in v:
                        yield from walk(y, q)
            elif isinstance(v, list):
                for y in v:
                    yield from walk(y, q)
        for q, v in enumerate(j.a or ()):
            yield from walk(v, q)
        yield from walk(j.x if isinstance(j.x, (tuple, list)) else (), 99)

    def cast(self, st, op, ft, x, tt):
        if op == 'ptrtoint':
            if isinstance(x, Ptr) and x.r == 0 and tt[1] == 64:
                return x.o
            a = self.addr(st, x)
            return a if tt[1] == 64 else S(z3.Extract(tt[1] - 1, 0, E(a, 64)))
        if op == 'inttoptr':
            if isc(x):
                return Ptr(0, x)
            raise Unsupported('inttoptr')
        if op == 'zext':
            if ft[1] == 1:
                return S(E(x, tt[1])) if not isc(x) else int(x)
            if isc(x):
                return x
            return S(z3.ZeroExt(tt[1] - ft[1], x))
        if op == 'sext':
            if ft[1] == 1:
                if isc(x):
                    return mask(tt[1]) if x else 0
                return S(z3.If(x, z3.BitVecVal(-1, tt[1]), z3.BitVecVal(0, tt[1])))
            if isc(x):
                return sgn(x, ft[1]) & mask(tt[1])
            return S(z3.SignExt(tt[1] - ft[1], x))
        if op == 'trunc':
            if tt[1] == 1:
                if isc(x):
                    return bool(x & 1)
                return S(z3.Extract(0, 0, x) == 1)
            if isc(x):
                return x & mask(tt[1])
            return S(z3.Extract(tt[1] - 1, 0, x))
        if op == 'bitcast':
            return x
        if op in ('uitofp', 'sitofp'):
            return FloatV(None, ('int', op, x))
        if op in ('fptoui', 'fptosi'):
            if x.v is not None:
                return int(x.v) & mask(tt[1])
            # size * factor: arbitrary result (the code only uses it as a lower-bounded hint)
            return bv('fp', tt[1])
        if op in ('fpext', 'fptrunc'):
            return x
        raise Unsupported('cast ' + op)

    # ---- memory ----------------------------------------------------------
    def rights(self, st, reg, write):
        rid = reg.meta.get('owner')
        if rid is not None:
            rr = st.regs.get(rid)
            if rr is None or rr.freed:
                return
        elif 'rc' in reg.meta:
            rr = reg
        else:
            return
        own, others = rr.meta['rc']
        if own == 0:
            self.oblige(st, 'rc', eq(others, 0, 32), 'shared storage used after this handle let go of it')
        if write:
            if own >= 2:
                self.oblige(st, 'perm', False, 'write to storage shared by another handle')
            self.oblige(st, 'perm', eq(others, 0, 32), 'write to storage possibly shared by another handle')
            if not isc(others) and not rr.meta.get('acq'):
                self.oblige(st, 'rc', False, 'exclusive access decided by a non-acquire read')

    def access(self, st, p, n, write, what='access'):
        """n in region units. Checks liveness, bounds, rights. n symbolic allowed"""
        if isinstance(p, FnPtr):
            raise Unsupported('function memory access')
        if not isinstance(p, Ptr):
            raise Unsupported('access via non-pointer')
        reg = st.regs[p.r]
        if isc(n) and n == 0:
            return reg
        if not isc(n):
            pass
        guard = eq(n, 0)
        if p.r == 0:
            self.oblige(st, 'mem', guard, what + ' through null pointer')
            return reg
        if reg.freed:
            self.oblige(st, 'mem', guard, what + ' to freed or dead storage')
            return reg
        if reg.kind == 'abs':
            raise Unsupported('access to abstract object ' + reg.name)
        vo = reg.meta.get('viewof')
        if vo is not None:
            ow = st.regs.get(vo[0])
            c = ow.cells.get(vo[1]) if ow is not None and not ow.freed and ow.cells else None
            if (c is None or getattr(c[1], 'at', None) is not vo[2].at) and not (ow is not None and not ow.freed and ow.meta.get('elems')):
                raise Unsupported('view of a String used after the String changed')
        ok = b_and(ule(p.o, reg.size), ule(n, sub(reg.size, p.o)))
        self.oblige(st, 'mem', b_or(guard, ok), what + ' in bounds of ' + reg.name)
        if write and reg.const:
            self.oblige(st, 'mem', guard, 'write to constant storage ' + reg.name)
        if reg.meta.get('guarded'):
            self.oblige(st, 'perm', b_or(guard, b_not(write)), 'write to read-only operand ' + reg.name)
        self.rights(st, reg, write)
        return reg

    def to_blob(self, st, reg, g=1):
        reg = st.wr(reg.id)
        if reg.kind == 'obj':
            if reg.cells:
                raise Unsupported('object used as byte array: ' + reg.name)
            reg.kind = 'blob'
            reg.cells = None
            reg.g = g
            reg.chain = base_chain(reg.name, 8 * g)
            if reg.default is not None:
                d = reg.default
                reg.chain = Chain('fill', reg.chain, (0, mask(64), d), 8 * g)
            if isc(reg.size):
                reg.size = reg.size // g
        return reg

    def load(self, st, p, ty, atomic=None):
        ty = self.mod.rt(ty)
        if ty != 'ptr' and ty[0] in ('s', 'a'):
            vals = []
            n = len(ty[1]) if ty[0] == 's' else ty[1]
            for i in range(n):
                o, ft = self.mod.field(ty, i) if ty[0] == 's' else (i * self.mod.size(ty[2]), ty[2])
                vals.append(self.load(st, Ptr(p.r, add(p.o, o)), ft))
            return Agg(vals)
        sz = self.mod.size(ty)
        if isinstance(p, FnPtr):
            raise Unsupported('load from function')
        if p.r == 0 or st.regs[p.r].freed:
            self.access(st, p, 1, False, 'read')
            raise Kill()
        reg = st.regs[p.r]
        g = reg.g
        if reg.kind == 'obj' and not reg.cells and ty == ('i', 8) and isc(reg.size) and reg.size != 1 and not reg.meta.get('struct'):
            reg = self.to_blob(st, reg)
        if reg.kind == 'blob':
            if sz % g:
                if ty == ('i', 8 * g):
                    pass
                raise Unsupported(f'load of {sz} from granule {g}')
            n = sz // g
            self.access(st, p, n, False, 'read')
            if n == 1:
                v = reg.chain.read(p.o)
            else:
                bs = [E(reg.chain.read(add(p.o, i)), 8 * g) for i in range(n)]
                v = S(z3.Concat(*reversed(bs)))
            if ty == 'ptr':
                return self.ptr_from_blob(st, reg, p, v)
            if ty == ('i', 1):
                return S(z3.Extract(0, 0, E(v, 8)) == 1)
            if ty[0] == 'f':
                return FloatV(None)
            return v
        self.access(st, p, sz, False, 'read')
        if not isc(p.o):
            raise Unsupported('symbolic offset in object ' + reg.name)
        if 'rc' in reg.meta and p.o == self.L['refs']:
            return self.rc_load(st, reg, atomic)
        c = reg.cells.get(p.o)
        if c is not None and c[0] == sz:
            v = c[1]
            if ty == ('i', 1) or ty == 'ptr' or isinstance(v, (Ptr, FnPtr, FloatV)):
                if isinstance(v, Ptr) and ty != 'ptr':
                    return self.addr(st, v)
                if ty == 'ptr' and isc(v):
                    return Ptr(0, v)
                return v
            if ty == ('i', 8) and not isc(v) and z3.is_bool(v):
                return S(E(v, 8))
            return v
        if c is None:
            # inside a larger integer cell?
            for o, (cs, cv) in reg.cells.items():
                if o < p.o < o + cs or (o == p.o and cs > sz):
                    if isinstance(cv, (Ptr, FnPtr, FloatV)) or o + cs < p.o + sz:
                        raise Unsupported('partial read of cell')
                    lo = (p.o - o) * 8
                    if isc(cv):
                        v = (cv >> lo) & mask(sz * 8)
                    else:
                        v = S(z3.Extract(lo + sz * 8 - 1, lo, E(cv, cs * 8)))
                    return v
        # composed of smaller cells?
        if ty[0] == 'i' and (c is None or c[0] < sz) and any(p.o < o < p.o + sz for o in reg.cells):
            bs = []
            o = p.o
            while o < p.o + sz:
                k = reg.cells.get(o)
                if k is None or o + k[0] > p.o + sz or isinstance(k[1], (Ptr, FnPtr, FloatV)) or not (isc(k[1]) or z3.is_expr(k[1])):
                    raise Unsupported('composed read')
                bs.append(E(k[1], 8 * k[0]))
                o += k[0]
            return S(z3.Concat(*reversed(bs)))
        if c is None:
            if ty == 'ptr':
                if reg.default == 0:
                    v = NULL
                elif reg.meta.get('lazyptr'):
                    v = reg.meta['lazyptr'](self, st, reg, p.o)
                else:
                    raise Unsupported(f'uninitialised pointer read in {reg.name}+{p.o}')
            elif ty[0] == 'f':
                v = FloatV(None)
            elif reg.default is not None:
                v = int.from_bytes(bytes([reg.default]) * sz, 'little')
            elif ty == ('i', 1):
                v = fbool('u')
            else:
                v = bv('u_' + reg.name, ty[1])
            reg = st.wr(reg.id)
            reg.cells[p.o] = (sz, v)
            return v
        raise Unsupported(f'cell size mismatch {c[0]} vs {sz} at {reg.name}+{p.o}')

    def ptr_from_blob(self, st, reg, p, v):
        f = reg.meta.get('ptrelem')
        if f:
            return f(self, st, reg, p, v)
        raise Unsupported('pointer load from byte array')

    def store(self, st, p, ty, v, atomic=None):
        ty = self.mod.rt(ty)
        if isinstance(v, Agg):
            for i, x in enumerate(v.v):
                o, ft = self.mod.field(ty, i) if ty[0] == 's' else (i * self.mod.size(ty[2]), ty[2])
                self.store(st, Ptr(p.r, add(p.o, o)), ft, x)
            return
        sz = self.mod.size(ty)
        if isinstance(p, FnPtr):
            raise Unsupported('store to function')
        if p.r == 0 or st.regs[p.r].freed:
            self.access(st, p, 1, True, 'write')
            raise Kill()
        reg = st.regs[p.r]
        if atomic is None and 'shared_global' in reg.meta:
            self.oblige(st, 'race', False, f'write to {reg.name[1:]}, which other threads use, without synchronisation')
        if reg.kind == 'obj' and not reg.cells and ty == ('i', 8) and isc(reg.size) and reg.size != 1 and not reg.meta.get('struct'):
            reg = self.to_blob(st, reg)
        if reg.kind == 'blob':
            g = reg.g
            if sz % g:
                raise Unsupported(f'store of {sz} to granule {g}')
            n = sz // g
            self.access(st, p, n, True, 'write')
            if isinstance(v, (Ptr, FnPtr)):
                if isinstance(v, Ptr) and v.r == 0 and isc(v.o):
                    v = v.o
                else:
                    f = reg.meta.get('ptrstore')
                    if f:
                        return f(self, st, reg, p, v)
                    raise Unsupported('pointer store to byte array')
            reg = st.wr(reg.id)
            if ty == ('i', 1):
                v = S(E(v, 8))
            if 'shadow' in reg.meta:
                self.shadow(st, reg, p.o, n)
            if n == 1:
                reg.chain = reg.chain.store(p.o, v)
            else:
                for i in range(n):
                    b = (v >> (8 * g * i)) & mask(8 * g) if isc(v) else S(z3.Extract(8 * g * i + 8 * g - 1, 8 * g * i, v))
                    reg.chain = reg.chain.store(add(p.o, i), b)
            return
        if not isc(p.o):
            self.access(st, p, sz, True, 'write')
            raise Unsupported('symbolic offset store in object ' + reg.name)
        isref = self.L and reg.src == 'new' and isc(reg.size) and reg.size == self.L.get('sizeof_ref')
        if isref and p.o == self.L['refs'] and sz == 4:
            if 'rc' not in reg.meta and isc(v):
                reg = st.wr(reg.id)
                reg.meta['rc'] = (v, 0)
                reg.meta['acq'] = True
                return
            self.oblige(st, 'rc', False, 'non-atomic write to a live reference counter')
            raise Kill()
        self.access(st, p, sz, True, 'write')
        reg = st.wr(reg.id)
        # drop overlapped cells
        for o in list(reg.cells):
            cs = reg.cells[o][0]
            if o != p.o and o < p.o + sz and p.o < o + cs:
                if cs > sz and isinstance(reg.cells[o][1], int):
                    # split constant cell
                    cv = reg.cells.pop(o)[1]
                    for j in range(cs):
                        reg.cells[o + j] = (1, (cv >> (8 * j)) & 255)
                    for j in range(p.o, p.o + sz):
                        reg.cells.pop(j, None)
                else:
                    del reg.cells[o]
        if p.o in reg.cells and reg.cells[p.o][0] > sz:
            old = reg.cells.pop(p.o)
        reg.cells[p.o] = (sz, v)
        if ('rc' in reg.meta or isref) and p.o == self.L['buf'] and isinstance(v, Ptr) and v.r:
            b = st.wr(v.r)
            b.meta['owner'] = reg.id

    # ---- reference counters ----------------------------------------------
    def rc_interfere(self, st, reg):
        own, others = reg.meta['rc']
        if isc(others) or not self.interfere:
            return reg
        n = bv('others', 32)
        st.pc.append(z3.ULE(n, z3.BitVecVal(1 << 28, 32)))
        st.pc.append(z3.Implies(others == 0, n == 0))
        reg = st.wr(reg.id)
        reg.meta['rc'] = (own, n)
        return reg

    def rc_load(self, st, reg, atomic):
        if atomic is None:
            self.oblige(st, 'rc', False, 'non-atomic read of a live reference counter')
            raise Kill()
        reg = self.rc_interfere(st, reg)
        own, others = reg.meta['rc']
        reg = st.wr(reg.id)
        reg.meta['acq'] = atomic in ('acquire', 'seq_cst')
        return add(own, others, 32)

    def rc_rmw(self, st, p, op, order, v):
        reg = self.access(st, p, 4, False, 'counter update')
        if 'rc' not in reg.meta or p.o != self.L['refs']:
            old = self.load(st, p, ('i', 32), 'seq_cst')
            new = self.binop(st, op if op in ('add', 'sub', 'and', 'or', 'xor') else 'xchg', 32, old, v, set()) if op != 'xchg' else v
            self.store(st, p, ('i', 32), new)
            return old
        reg = self.rc_interfere(st, reg)
        own, others = reg.meta['rc']
        if op not in ('add', 'sub') or not isc(v):
            raise Unsupported('counter op')
        d = sgn(v, 32)
        if op == 'sub':
            d = -d
        if d < 0:
            self.oblige(st, 'rc', own >= -d, 'release of a reference this code does not hold')
            self.oblige(st, 'rc', order in ('release', 'acq_rel', 'seq_cst'), 'reference released without release ordering')
        else:
            self.oblige(st, 'rc', b_or(own >= 1, eq(others, 0, 32)), 'reference taken on storage not held')
        reg = st.wr(reg.id)
        reg.meta['rc'] = (max(0, own + d), others)
        reg.meta['acq'] = order in ('acquire', 'acq_rel', 'seq_cst')
        return add(own, others, 32)

    # ---- allocation --------------------------------------------------------
    def new_obj(self, st, name, size, src):
        r = st.new_region(name, 'obj' if isc(size) else 'blob', size, src)
        st.allocs = st.allocs + (r.id,)
        return r

    def free(self, st, p, src):
        if isinstance(p, Ptr) and p.r == 0:
            self.oblige(st, 'mem', eq(p.o, 0), 'free of a non-pointer')
            return
        reg = st.regs[p.r]
        if reg.freed:
            self.oblige(st, 'mem', False, 'double free')
            raise Kill()
        self.oblige(st, 'mem', b_and(eq(p.o, 0), reg.src == src), 'free of a matching allocation')
        if 'rc' in reg.meta or 'owner' in reg.meta:
            rr = reg if 'rc' in reg.meta else st.regs[reg.meta['owner']]
            if not rr.freed:
                own, others = rr.meta['rc']
                self.oblige(st, 'rc', b_and(own == 0 or ('owner' in reg.meta and own == 1), eq(others, 0, 32)), 'storage freed while a handle still refers to it')
            if 'rc' in reg.meta:
                b = reg.cells.get(self.L['buf'])
                if b and isinstance(b[1], Ptr) and b[1].r and not st.regs[b[1].r].freed:
                    self.oblige(st, 'leak', False, 'counter block freed without its buffer')
        h = self.ext.get('#onfree')
        if h:
            h(self, st, reg)
        reg = st.wr(p.r)
        reg.freed = True
        st.trace = st.trace + (('free', p.r),)

    # ---- block transfer -----------------------------------------------------
    def units(self, st, reg, n):
        """byte count -> region units"""
        if reg.g == 1:
            return n
        if isc(n):
            if n % reg.g:
                raise Unsupported('unaligned block op')
            return n // reg.g
        sc = self.scaled.get(n.get_id())
        if sc and sc[0] == reg.g:
            return sc[1]
        raise Unsupported('block op size not a multiple of the element size')

    def memmove(self, st, d, s, n, move=True):
        if isc(n) and n == 0:
            return
        if self.sol.valid(st, eq(n, 0)) is True:
            return
        dr, sr = st.regs[d.r], st.regs[s.r]
        if isc(n) and dr.kind == 'obj' and sr.kind == 'obj' and not (not dr.cells and not sr.cells):
            self.access(st, s, n, False, 'read')
            self.access(st, d, n, True, 'write')
            sr = st.regs[s.r]
            if not isc(s.o) or not isc(d.o):
                raise Unsupported('symbolic struct copy')
            items = [(o, c) for o, c in sr.cells.items() if s.o <= o < s.o + n]
            dr = st.wr(d.r)
            for o in [o for o in dr.cells if d.o <= o < d.o + n]:
                del dr.cells[o]
            for o, c in items:
                if 'rc' in dr.meta and o - s.o + d.o == self.L['refs']:
                    raise Unsupported('block copy over counter')
                dr.cells[o - s.o + d.o] = c
            return
        if isc(n) and n <= 64 and (dr.kind == 'obj' and dr.cells or sr.kind == 'obj' and sr.cells):
            # mixed: byte by byte into cells
            for i in range(n):
                v = self.load(st, Ptr(s.r, add(s.o, i)), ('i', 8))
                self.store(st, Ptr(d.r, add(d.o, i)), ('i', 8), v)
            return
        for q, rr in ((d, dr), (s, sr)):
            if rr.kind == 'obj' and not rr.freed:
                self.to_blob(st, rr)
        dr, sr = st.regs[d.r], st.regs[s.r]
        un = self.units(st, sr if sr.kind == 'blob' else dr, n)
        self.access(st, s, un, False, 'block read')
        self.access(st, d, un, True, 'block write')
        if d.r == 0 or s.r == 0 or st.regs[d.r].freed or st.regs[s.r].freed:
            return
        if not move and d.r == s.r:
            disj = b_or(eq(n, 0), b_or(ule(add(s.o, un), d.o), ule(add(d.o, un), s.o)))
            self.oblige(st, 'mem', disj, 'memcpy of overlapping ranges')
        dr, sr = st.regs[d.r], st.regs[s.r]
        if dr.g != sr.g:
            raise Unsupported('block op between different element sizes')
        ch = sr.chain
        dr = st.wr(d.r)
        dr.chain = dr.chain.copy(d.o, un, ch, s.o)
        self.shadow(st, dr, d.o, un)

    def memset(self, st, d, v, n):
        if isc(n) and n == 0:
            return
        dr = st.regs[d.r]
        if dr.kind == 'obj' and isc(n) and isc(v) and isc(d.o):
            self.access(st, d, n, True, 'write')
            dr = st.wr(d.r)
            if d.o == 0 and n == dr.size and not dr.cells:
                dr.default = v
                return
            for o in [o for o in dr.cells if d.o <= o < d.o + n]:
                del dr.cells[o]
            o = d.o
            while o < d.o + n:
                k = 8 if o % 8 == 0 and o + 8 <= d.o + n else 1
                dr.cells[o] = (k, int.from_bytes(bytes([v]) * k, 'little'))
                o += k
            return
        if dr.kind == 'obj' and not dr.freed:
            dr = self.to_blob(st, dr)
        if dr.g != 1:
            raise Unsupported('memset on elements')
        self.access(st, d, n, True, 'block write')
        if d.r == 0 or st.regs[d.r].freed:
            return
        dr = st.wr(d.r)
        dr.chain = dr.chain.fill(d.o, n, v)
        self.shadow(st, dr, d.o, n)

    def shadow(self, st, reg, o, n):
        """ghost record of the places written"""
        sid = reg.meta.get('shadow')
        if sid is not None:
            g = st.wr(sid)
            g.chain = g.chain.store(o, 1) if isc(n) and n == 1 else g.chain.fill(o, n, 1)

    # ---- control flow graph ----------------------------------------------------
    def cfg(self, f):
        if f.cfg is not None:
            return f.cfg
        succ = {}
        for b in f.order:
            t = f.blocks[b][-1]
            if t.op == 'br':
                succ[b] = [t.a[0]]
            elif t.op == 'cbr':
                succ[b] = [t.a[1], t.a[2]]
            elif t.op == 'switch':
                succ[b] = [t.a[1]] + [x[1] for x in t.a[2]]
            elif t.op == 'invoke':
                succ[b] = [t.x[2], t.x[3]]
            else:
                succ[b] = []
        pred = {b: [] for b in f.order}
        for b, ss in succ.items():
            for s in ss:
                pred[s].append(b)
        # back edges by DFS
        color = {}
        back = []
        stack = [(f.order[0], iter(succ[f.order[0]]))]
        color[f.order[0]] = 1
        while stack:
            b, it = stack[-1]
            for s in it:
                if color.get(s, 0) == 0:
                    color[s] = 1
                    stack.append((s, iter(succ[s])))
                    break
                elif color[s] == 1:
                    back.append((b, s))
            else:
                color[b] = 2
                stack.pop()
        loops = {}
        for t, h in back:
            body = loops.setdefault(h, {h})
            w = [t]
            while w:
                x = w.pop()
                if x in body:
                    continue
                body.add(x)
                w.extend(pred[x])
        f.cfg = (succ, pred, loops)
        return f.cfg

    # ---- execution -------------------------------------------------------------
    def call_fn(self, st, name, args, line=None):
        """inline execution; returns [(state, Outcome)]"""
        f = self.mod.fn(name)
        if len(self.stack) > 60:
            raise Unsupported('recursion too deep')
        if self.stack.count(name) > 4:
            raise Unsupported('recursion in ' + name)
        env = {}
        for (t, n), v in zip(f.params, args):
            env[n] = v
        if f.vararg:
            env['#va'] = list(args[len(f.params):])
        env['#allocas'] = []
        self.stack.append(name)
        self.inlined.add(name)
        save = self.cur
        try:
            outs, exits, backs = self.explore(f, [(st, env, f.order[0], None, 0)], None, None)
        finally:
            self.stack.pop()
            self.cur = save
        res = []
        for s, o, e in outs:
            for a in e['#allocas']:
                if a in s.regs:
                    r = s.wr(a)
                    r.freed = True
            res.append((s, o))
        return res

    def explore(self, f, items, scope, header):
        """run until leaving scope / returning to header. items=(st,env,block,prev,idx)"""
        succ, pred, loops = self.cfg(f)
        outs, exits, backs = [], [], []
        work = list(items)
        while work:
            st, env, b, prev, idx = work.pop()
            if self.deadline and time.time() > self.deadline:
                raise Unsupported('time limit')
            try:
                self.block(f, st, env, b, prev, idx, work, outs, exits, backs, scope, header, loops)
            except Kill:
                continue
            if len(outs) + len(work) > self.max_paths:
                raise Unsupported('too many paths in ' + f.name)
        return outs, exits, backs

    def goto(self, f, st, env, b, target, work, exits, backs, scope, header, loops, outs):
        if target == header:
            backs.append((st, env, b))
            return
        if scope is not None and target not in scope:
            exits.append((st, env, target, b, 0))
            return
        if target in loops and not (b in loops[target]):
            # entering a loop
            try:
                o, ex = self.loop(f, st, env, target, b)
            except Kill:
                return
            outs.extend(o)
            for it in ex:
                s2, e2, t2, p2, _ = it
                self.goto(f, s2, e2, p2, t2, work, exits, backs, scope, header, loops, outs)
            return
        work.append((st, env, target, b, 0))

    def phis(self, f, st, env, b, prev):
        ins = f.blocks[b]
        vals = []
        k = 0
        for i in ins:
            if i.op != 'phi':
                break
            k += 1
            for v, pb in i.a:
                if pb == prev:
                    vals.append((i.res, self.val(st, env, i.ty, v)))
                    break
            else:
                raise Unsupported('phi pred')
        return vals, k

    def block(self, f, st, env, b, prev, idx, work, outs, exits, backs, scope, header, loops):
        ins = f.blocks[b]
        if idx == 0 and ins and ins[0].op == 'phi' and prev is not None:
            vals, k = self.phis(f, st, env, b, prev)
            env = dict(env)
            for n, v in vals:
                env[n] = v
            idx = k
        else:
            env = dict(env)
        n = len(ins)
        mod = self.mod
        while idx < n:
            i = ins[idx]
            self.cur = i
            op = i.op
            idx += 1
            if op in ('call', 'invoke'):
                done = self.do_call(f, st, env, b, i, idx, work, outs, exits, backs, scope, header, loops)
                if done is None:
                    return
                st = done
                if op == 'invoke':
                    self.goto(f, st, env, b, i.x[2], work, exits, backs, scope, header, loops, outs)
                    return
            elif op == 'load':
                p = self.val(st, env, 'ptr', i.a[0])
                env[i.res] = self.load(st, p, i.ty, i.x)
            elif op == 'store':
                v = self.val(st, env, i.ty, i.a[0])
                p = self.val(st, env, 'ptr', i.a[1])
                self.store(st, p, i.ty, v, i.x)
            elif op == 'gep':
                base = self.val(st, env, 'ptr', i.a[0][1])
                ix = [(t, self.val(st, env, t, v)) for t, v in i.a[1:]]
                env[i.res] = self.gep(st, i.ty, base, ix)
            elif op == 'icmp':
                env[i.res] = self.icmp(st, i, self.val(st, env, i.ty, i.a[0]), self.val(st, env, i.ty, i.a[1]))
            elif op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
                t = mod.rt(i.ty)
                if t[0] == 'v':
                    raise Unsupported('vector')
                a = self.val(st, env, i.ty, i.a[0])
                c = self.val(st, env, i.ty, i.a[1])
                self.used_when = self.needed(f, b, i.res, st, env) if i.x or op in ('shl', 'lshr', 'ashr') else True
                if op == 'sub':
                    # pointer difference keeps its element scaling
                    r = self.ptrdiff(st, env, f, i, a, c)
                    env[i.res] = r
                else:
                    env[i.res] = self.binop(st, op, t[1], a, c, i.x)
                self.used_when = True
            elif op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'uitofp', 'sitofp', 'fptoui', 'fptosi', 'fpext', 'fptrunc'):
                x = self.val(st, env, i.x, i.a[0])
                r = self.cast(st, op, mod.rt(i.x), x, mod.rt(i.ty))
                env[i.res] = r
                if op == 'ptrtoint':
                    env[('pi', i.res)] = x
            elif op == 'br':
                self.goto(f, st, env, b, i.a[0], work, exits, backs, scope, header, loops, outs)
                return
            elif op == 'cbr':
                c = self.val(st, env, ('i', 1), i.a[0])
                self.branch(f, st, env, b, [(c, i.a[1]), (b_not(c), i.a[2])], work, exits, backs, scope, header, loops, outs)
                return
            elif op == 'switch':
                t = mod.rt(i.ty)
                v = self.val(st, env, i.ty, i.a[0])
                alts = []
                rest = []
                for cv, lab in i.a[2]:
                    c = eq(v, self.const(st, i.ty, cv), t[1])
                    alts.append((c, lab))
                    rest.append(b_not(c))
                alts.append((b_and(*rest), i.a[1]))
                self.branch(f, st, env, b, alts, work, exits, backs, scope, header, loops, outs)
                return
            elif op == 'ret':
                v = self.val(st, env, i.ty, i.a[0]) if i.a else None
                outs.append((st, Outcome('ret', v), env))
                return
            elif op == 'alloca':
                cnt = self.val(st, env, i.x, i.a[0])
                if not isc(cnt):
                    raise Unsupported('vla')
                t = i.ty
                sz = mod.size(t) * cnt
                if self._bytey(t) and mod.rt(t)[1] > 0:
                    g = mod.size(mod.rt(t)[2])
                    r = st.new_region('alloca' + i.res, 'blob', sz // g, 'stack')
                    if g != 1:
                        r.g = g
                        r.chain = base_chain('alloca', 8 * g)
                else:
                    r = st.new_region('alloca' + i.res, 'obj', sz, 'stack')
                    r.meta['struct'] = mod.rt(t) == 'ptr' or mod.rt(t)[0] != 'i'
                env['#allocas'] = env['#allocas'] + [r.id]
                env[i.res] = Ptr(r.id, 0)
            elif op == 'select':
                c = self.val(st, env, ('i', 1), i.a[0])
                a = self.val(st, env, i.ty, i.a[1])
                d = self.val(st, env, i.ty, i.a[2])
                t = mod.rt(i.ty)
                if isinstance(c, bool):
                    env[i.res] = a if c else d
                elif isinstance(a, (Ptr, FnPtr)) or isinstance(d, (Ptr, FnPtr)):
                    if isinstance(a, Ptr) and isinstance(d, Ptr) and a.r == d.r:
                        env[i.res] = Ptr(a.r, ite(c, a.o, d.o))
                    else:
                        s2 = st.clone()
                        s2.assume(b_not(c))
                        if self.sol.feasible(st, b_not(c)):
                            e2 = dict(env)
                            e2[i.res] = d
                            work.append((s2, e2, b, prev, idx))
                        if not self.sol.feasible(st, c):
                            raise Kill()
                        st.assume(c)
                        env[i.res] = a
                        # idx>0 continuation of the clone must not redo phis: idx is >0 so fine
                elif isinstance(a, (FloatV, Agg)):
                    env[i.res] = FloatV(None)
                elif t[1] == 1:
                    env[i.res] = S(z3.If(c, B(a), B(d)))
                else:
                    env[i.res] = ite(c, a, d, t[1])
            elif op == 'extractvalue':
                v = self.val(st, env, i.ty, i.a[0])
                for k in i.x:
                    v = v.v[k]
                env[i.res] = v
            elif op == 'insertvalue':
                a = self.val(st, env, i.ty, i.a[0])
                t2, ix = i.x
                v = self.val(st, env, t2, i.a[1])
                if len(ix) != 1:
                    raise Unsupported('nested insertvalue')
                l = list(a.v)
                l[ix[0]] = v
                env[i.res] = Agg(l)
            elif op == 'freeze':
                env[i.res] = self.val(st, env, i.ty, i.a[0])
            elif op == 'atomicrmw':
                p = self.val(st, env, 'ptr', i.a[0])
                v = self.val(st, env, i.ty, i.a[1])
                env[i.res] = self.rc_rmw(st, p, i.x[0], i.x[1], v)
            elif op in ('fadd', 'fsub', 'fmul', 'fdiv', 'fneg', 'frem'):
                vs = [self.val(st, env, i.ty, x) for x in i.a]
                env[i.res] = FloatV(None, (op, vs))
            elif op == 'fcmp':
                env[i.res] = self.fcmp(st, env, i)
            elif op == 'landingpad':
                exc = env['#exc']
                sel, ok = 0, i.x
                for k, v in i.a:
                    if k == 'catch':
                        tn = v[1] if v[0] == 'g' else None
                        if tn is None or tn == exc or tn in SUPERS.get(exc, ()):
                            sel = self.typeid(tn)
                            ok = True
                            break
                    elif k == 'filter':
                        sel = 9999
                        ok = True
                        break
                if not ok:
                    outs.append((st, Outcome('throw', exc), env))
                    return
                r = st.new_region('exc', 'obj', 64, 'exc')
                r.meta['exc'] = exc
                if self.exc_init:
                    self.exc_init(self, st, r, exc)
                env[i.res] = Agg([Ptr(r.id, 0), sel])
            elif op == 'resume':
                v = self.val(st, env, i.ty, i.a[0])
                exc = st.regs[v.v[0].r].meta['exc']
                outs.append((st, Outcome('throw', exc), env))
                return
            elif op == 'unreachable':
                self.oblige(st, 'ub', False, 'unreachable code reached')
                return
            elif op == 'phi':
                raise Unsupported('stray phi')
            else:
                raise Unsupported('op ' + op)

    def fcmp(self, st, env, i):
        """comparison of a number of known sign with zero; anything else is unknown"""
        try:
            a, b = (self.val(st, env, i.ty, x) for x in i.a)
            pred = i.x if isinstance(i.x, str) else i.x[0]
        except (TypeError, ValueError):
            return fbool('fcmp')
        if not (isinstance(a, FloatV) and isinstance(b, FloatV)):
            return fbool('fcmp')
        if a.v == 0 and b.tag and b.tag[0] == 'sign':
            a, b = b, a
            pred = pred[0] + {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'}.get(pred[1:], pred[1:])
        if a.tag and a.tag[0] == 'sign' and b.v == 0:
            neg, zero = a.tag[1], a.tag[2]
            r = {'lt': neg, 'ge': b_not(neg), 'gt': b_not(b_or(neg, zero)), 'le': b_or(neg, zero), 'eq': zero, 'ne': b_not(zero)}.get(pred[1:])
            if r is not None:
                return r
        return fbool('fcmp')

    def typeid(self, tn):
        if tn is None:
            return 1
        d = self.dem.setdefault('#tid', {})
        return d.setdefault(tn, len(d) + 2)

    def ptrdiff(self, st, env, f, i, a, c):
        t = self.mod.rt(i.ty)
        pa = env.get(('pi', i.a[0][1])) if i.a[0][0] == 'r' else None
        pc = env.get(('pi', i.a[1][1])) if i.a[1][0] == 'r' else None
        if isinstance(pa, Ptr) and isinstance(pc, Ptr):
            if pa.r == pc.r:
                g = st.regs[pa.r].g
                d = sub(pa.o, pc.o)
                if g == 1 or isc(d):
                    return mul(d, g)
                r = mul(d, g)
                if not isc(r):
                    self.scaled[r.get_id()] = (g, d, r)
                return r
            if pa.r != 0 and pc.r != 0:
                self.oblige(st, 'ub', False, 'difference of unrelated pointers')
        return self.binop(st, 'sub', t[1], a, c, i.x)

    def icmp(self, st, i, a, b):
        p = i.x
        t = self.mod.rt(i.ty)
        if self.cmp_log is not None:
            self.cmp_log.append((a, b, t))
        if t == 'ptr':
            if isinstance(a, FnPtr) or isinstance(b, FnPtr):
                r = isinstance(a, FnPtr) and isinstance(b, FnPtr) and a.name == b.name
                return r if p == 'eq' else not r
            if a.r == b.r:
                x, y = a.o, b.o
                w = 64
                if p in ('eq', 'ne'):
                    c = eq(x, y)
                    return c if p == 'eq' else b_not(c)
                return {'ult': ult, 'ule': ule}[p](x, y) if p in ('ult', 'ule') else \
                    {'ugt': ult, 'uge': ule}[p](y, x)
            if p in ('eq', 'ne'):
                # distinct regions never compare equal (no one-past-end adjacency)
                return p == 'ne'
            self.oblige(st, 'ub', False, 'ordering of unrelated pointers')
            raise Kill()
        w = t[1]
        if w == 1:
            if p == 'eq':
                return S(B(a) == B(b))
            if p == 'ne':
                return S(B(a) != B(b))
            raise Unsupported('icmp i1 ' + p)
        if p == 'eq':
            return eq(a, b, w)
        if p == 'ne':
            return b_not(eq(a, b, w))
        if p == 'ult':
            return ult(a, b, w)
        if p == 'ule':
            return ule(a, b, w)
        if p == 'ugt':
            return ult(b, a, w)
        if p == 'uge':
            return ule(b, a, w)
        if p == 'slt':
            return slt(a, b, w)
        if p == 'sle':
            return sle(a, b, w)
        if p == 'sgt':
            return slt(b, a, w)
        if p == 'sge':
            return sle(b, a, w)
        raise Unsupported('icmp ' + p)

    def branch(self, f, st, env, b, alts, work, exits, backs, scope, header, loops, outs):
        live = []
        for j, (c, lab) in enumerate(alts):
            c = S(c) if not isinstance(c, bool) else c
            if j and j == len(alts) - 1 and not live and c is not False:
                live.append((c, lab))           # the alternatives are exhaustive
                continue
            if c is False:
                continue
            if c is True:
                live.append((c, lab))
                continue
            if self.sol.feasible(st, c):
                live.append((c, lab))
        for k, (c, lab) in enumerate(live):
            s = st if k == len(live) - 1 else st.clone()
            s.assume(c)
            self.goto(f, s, dict(env), b, lab, work, exits, backs, scope, header, loops, outs)

    # ---- calls --------------------------------------------------------------
    def do_call(self, f, st, env, b, i, idx, work, outs, exits, backs, scope, header, loops):
        callee = i.x[0]
        if callee[0] == 'g':
            name = self.mod.aliases.get(callee[1], callee[1])
        else:
            fp = env[callee[1]]
            if not isinstance(fp, FnPtr):
                h = self.ext.get('#indirect')
                if h is None:
                    raise Unsupported('indirect call')
                name = None
                args = [self.val(st, env, t, v) for t, v in i.a if t != 'metadata']
                res = h(self, st, fp, args)
                return self.finish_call(f, st, env, b, i, idx, res, work, outs, exits, backs, scope, header, loops)
            name = fp.name
        if name.startswith('llvm.dbg') or name.startswith('llvm.lifetime') or name.startswith('llvm.experimental.noalias') or name == 'llvm.assume' or name == 'llvm.donothing':
            return st
        args = []
        for t, v in i.a:
            args.append(None if t == 'metadata' else self.val(st, env, t, v))
        res = self.invoke(st, name, args, i, env)
        return self.finish_call(f, st, env, b, i, idx, res, work, outs, exits, backs, scope, header, loops)

    def finish_call(self, f, st, env, b, i, idx, res, work, outs, exits, backs, scope, header, loops):
        cont = None
        for k, (s, o) in enumerate(res):
            if o.kind == 'ret':
                e = env if cont is None else dict(env)
                if cont is None:
                    cont = (s, dict(env))
                    e = cont[1]
                if i.res is not None:
                    e[i.res] = o.v
                if cont[0] is not s:
                    if i.op == 'invoke':
                        self.goto(f, s, e, b, i.x[2], work, exits, backs, scope, header, loops, outs)
                    else:
                        work.append((s, e, b, None, idx))
            elif o.kind == 'throw':
                if i.op == 'invoke':
                    e = dict(env)
                    e['#exc'] = o.v
                    self.goto(f, s, e, b, i.x[3], work, exits, backs, scope, header, loops, outs)
                else:
                    outs.append((s, o, dict(env)))
            else:
                outs.append((s, o, dict(env)))
        if cont is None:
            return None
        env.clear()
        env.update(cont[1])
        return cont[0]

    def demangle(self, name):
        d = self.dem.get(name)
        if d is None:
            names = [n for n in list(self.mod.fns) + list(self.mod.decls)]
            out = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True).stdout.split('\n')
            for n, x in zip(names, out):
                self.dem[n] = x
            d = self.dem.get(name, name)
        return d

    def invoke(self, st, name, args, ins=None, env=None):
        c = self.contracts.get(name)
        if c is not None and name not in self.no_contract:
            r = c(self, st, args)
            if r is not None:
                self.used_contracts.add(name)
                return r
        x = self.ext.get(name)
        if x is None:
            x = self.match_ext(name)
        if x is not None:
            (self.used_contracts if hasattr(x, 'is_contract') else self.used_ext).add(name)
            r = x(self, st, args, ins, env)
            if isinstance(r, list):
                return r
            return [(st, Outcome('ret', r))]
        if name in self.mod.fns:
            return self.call_fn(st, name, args)
        raise Unsupported('external function ' + self.demangle(name))

    no_contract = frozenset()
    exc_init = None
    cmp_log = None
    obj_havoc = None
    obj_preloop = None
    ptr_unify = None
    houdini_ms = 8000
    use_it = False
    opaque = 0

    @staticmethod
    def obj_owned(M, st, r, objs):
        return False

    @staticmethod
    def is_obj(M, st, r):
        return False

    @staticmethod
    def obj_vars(M, st, r):
        return []

    @staticmethod
    def rc_havoc(M, st, r):
        raise Unsupported('loop changes a reference counter')

    def note(self, st, tag, ok, msg):
        if self.quiet or not (self.tags is None or tag in self.tags):
            return
        o = Oblig()
        o.tag, o.msg, o.stack, o.entry = tag, msg, tuple(self.stack), self.entry
        o.where = self.where()
        o.fnname = self.stack[-1] if self.stack else ''
        o.model, o.cond = None, None
        o.ok, o.status = ok, 'unsat' if ok else 'unknown'
        self.obs.append(o)
    ext_patterns = ()

    def match_ext(self, name):
        c = self.dem.get(('x', name), 0)
        if c != 0:
            return c
        d = self.demangle(name)
        r = None
        for pat, fn in self.ext_patterns:
            if pat.match(d):
                r = fn
                break
        self.dem[('x', name)] = r
        return r

    # ---- loops: see loops.py ---------------------------------------------------
    def loop(self, f, st, env, header, prev):
        from .loops import run_loop
        self.loops += 1
        return run_loop(self, f, st, env, header, prev)
