"""Abstraction of the reference counted containers: representation, invariant, abstract sequence,
argument configurations and the exit obligations shared by every operation."""
import itertools
import z3
from .ir import Unsupported
from .sym import *
from .exe import Machine, Outcome, Kill

CAP = 1 << 58     # every capacity/length is below this (address-space assumption)


class Seq:
    """abstract sequence: length term and element function"""
    __slots__ = ('n', 'at', 'w')

    def __init__(self, n, at, w=8):
        self.n, self.at, self.w = n, at, w


def seq_empty(w=8):
    return Seq(0, lambda k: 0, w)


def seq_cat(a, b):
    return Seq(add(a.n, b.n), lambda k: ite(ult(k, a.n), a.at(k), b.at(sub(k, a.n)), a.w), a.w)


def seq_cat3(a, b, c):
    return seq_cat(seq_cat(a, b), c)


def seq_sub(a, start, n):
    """start/n already in range"""
    return Seq(n, lambda k: a.at(add(start, k)), a.w)


def seq_take(a, n):
    return Seq(ite(ult(n, a.n), n, a.n), a.at, a.w)


def seq_const(bs):
    if isinstance(bs, int):
        return Seq(1, lambda k: bs)
    return Seq(len(bs), lambda k: const_table(bs, k, 8))


def seq_one(v, w=8):
    return Seq(1, lambda k: v, w)


def seq_rep(v, n, w=8):
    return Seq(n, lambda k: v, w)


def umin(a, b):
    return ite(ult(a, b), a, b)


def umax(a, b):
    return ite(ult(a, b), b, a)


class Objs:
    """helpers bound to a machine and one RCA instantiation layout"""

    def __init__(self, M, L, vtable, elem_size=1):
        self.M, self.L, self.vtable, self.es = M, L, vtable, elem_size

    # -- construction of symbolic arguments --------------------------------
    def mk_ref(self, st, own, empty=False, name='ref'):
        L = self.L
        r = st.new_region(name, 'obj', L['sizeof_ref'], 'new')
        others = bv('others', 32)
        st.pc.append(z3.ULE(others, z3.BitVecVal(1 << 28, 32)))
        r.meta['rc'] = (own, others)
        r.meta['acq'] = True
        r.meta['struct'] = True
        r.meta['pre'] = True
        if empty:
            r.cells[L['size']] = (8, 0)
            r.cells[L['buf']] = (8, NULL)
        else:
            sz = bv(name + '_size')
            st.pc.append(z3.ULE(sz, z3.BitVecVal(CAP, 64)))
            st.pc.append(z3.UGE(sz, z3.BitVecVal(1, 64)))
            b = st.new_region(name + '_buf', 'blob', sz, 'new')
            b.meta['owner'] = r.id
            b.meta['pre'] = True
            b.g = self.es
            b.chain = base_chain(name + '_buf', 8 * self.es)
            r.cells[L['size']] = (8, sz)
            r.cells[L['buf']] = (8, Ptr(b.id, 0))
        return r.id

    def raw(self, st, name):
        r = st.new_region(name, 'obj', self.L['sizeof_str'], 'arg')
        r.meta['struct'] = True
        return r.id

    def mk_string(self, st, name, ref):
        L = self.L
        rid = self.raw(st, name)
        r = st.regs[rid]
        r.cells[0] = (8, Ptr(self.M.gptr(st, self.vtable).r, 16))
        self.fill(st, rid, ref, name)
        st.ghost['objs'] = st.ghost.get('objs', ()) + (rid,)
        return rid

    def fill(self, st, rid, ref, name='s'):
        L = self.L
        r = st.wr(rid)
        if ref is None:
            r.cells[L['Ref']] = (8, NULL)
            r.cells[L['offset']] = (8, 0)
            r.cells[L['sublen']] = (8, 0)
        else:
            r.cells[L['Ref']] = (8, Ptr(ref, 0))
            size = st.regs[ref].cells[L['size']][1]
            if isc(size) and size == 0:
                r.cells[L['offset']] = (8, 0)
                r.cells[L['sublen']] = (8, 0)
            else:
                o, n = bv(name + '_off'), bv(name + '_len')
                st.pc.append(z3.ULE(o, E(size, 64)))
                st.pc.append(z3.ULE(n, E(size, 64) - o))
                r.cells[L['offset']] = (8, o)
                r.cells[L['sublen']] = (8, n)
        mh = bv(name + '_hash')
        r.cells[L['hash']] = (8, mh)

    # -- reading ----------------------------------------------------------------
    def get(self, st, rid, f):
        return st.regs[rid].cells[self.L[f]][1]

    def seq(self, st, rid):
        """abstract value now"""
        w = 8 * self.es
        ref = self.get(st, rid, 'Ref')
        n = self.get(st, rid, 'sublen')
        if ref.r == 0 or ref.r not in st.regs:
            return Seq(n, lambda k: 0, w)
        rr = st.regs[ref.r]
        b = rr.cells.get(self.L['buf'])
        if b is None or not isinstance(b[1], Ptr) or b[1].r == 0:
            return Seq(n, lambda k: 0, w)
        br = st.regs[b[1].r]
        if br.kind != 'blob':
            br = self.M.to_blob(st, br, self.es)
        ch, o = br.chain, add(self.get(st, rid, 'offset'), b[1].o)
        return Seq(n, lambda k: ch.read(add(o, k)), w)

    # -- invariant ---------------------------------------------------------------
    def check_inv(self, st, rid, what):
        """obligations: the object is a well formed container"""
        M, L = self.M, self.L
        r = st.regs[rid]
        for f in ('Ref', 'offset', 'sublen', 'hash'):
            if L[f] not in r.cells:
                M.oblige(st, 'inv', False, f'{what}: field {f} initialised')
                raise Kill()
        vp = r.cells.get(0)
        vt = M.glob.get(self.vtable)
        M.oblige(st, 'inv', vp is not None and isinstance(vp[1], Ptr) and vp[1].r == vt, f'{what}: dynamic type kept')
        ref, off, n = self.get(st, rid, 'Ref'), self.get(st, rid, 'offset'), self.get(st, rid, 'sublen')
        if ref.r == 0:
            M.oblige(st, 'inv', b_and(eq(n, 0), eq(off, 0), eq(ref.o, 0)), f'{what}: a container without storage is empty')
            return None
        rr = st.regs[ref.r]
        M.oblige(st, 'inv', (not rr.freed) and isc(ref.o) and ref.o == 0 and 'rc' in rr.meta, f'{what}: refers to live storage')
        own, others = rr.meta['rc']
        size = rr.cells.get(L['size'])
        buf = rr.cells.get(L['buf'])
        if size is None or buf is None:
            M.oblige(st, 'inv', False, f'{what}: storage initialised')
            raise Kill()
        size, buf = size[1], buf[1]
        if buf.r == 0:
            M.oblige(st, 'inv', b_and(eq(size, 0), eq(off, 0), eq(n, 0)), f'{what}: no buffer means empty')
        else:
            br = st.regs[buf.r]
            M.oblige(st, 'inv', (not br.freed) and isc(buf.o) and buf.o == 0, f'{what}: buffer is live')
            M.oblige(st, 'inv', eq(size, self.bsize(br)), f'{what}: recorded capacity is the buffer size')
            M.oblige(st, 'inv', b_and(ule(off, size), ule(n, sub(size, off))), f'{what}: offset+length within capacity')
        return ref.r

    def bsize(self, br):
        if br.kind == 'obj' and self.es > 1 and isc(br.size):
            return br.size // self.es
        return br.size

    def check_exit(self, st, live, extra_reach=()):
        """ownership bookkeeping at function exit; live = object regions that exist after the call"""
        M, L = self.M, self.L
        cnt = {}
        for rid in live:
            ref = self.check_inv(st, rid, st.regs[rid].name)
            if ref is not None:
                cnt[ref] = cnt.get(ref, 0) + 1
        reach = set(extra_reach)
        for ref, c in cnt.items():
            reach.add(ref)
            b = st.regs[ref].cells[L['buf']][1]
            if b.r:
                reach.add(b.r)
        for rid, r in list(st.regs.items()):
            if 'rc' in r.meta and r.kind == 'obj':
                own, others = r.meta['rc']
                if r.freed:
                    continue
                M.oblige(st, 'rc', own == cnt.get(rid, 0), f'references counted for {r.name} equal the handles that hold it')
                if own == 0:
                    M.oblige(st, 'leak', b_not(eq(others, 0, 32)), f'storage {r.name} released by its last handle is freed')
                    b = r.cells.get(L['buf'])
                    if b and isinstance(b[1], Ptr):
                        reach.add(b[1].r)
                    reach.add(rid)
        for rid in st.allocs:
            r = st.regs[rid]
            if not r.freed and rid not in reach:
                M.oblige(st, 'leak', False, f'allocation in this call is released or owned ({r.name})')

    # -- hash cache ---------------------------------------------------------------
    def hash_ok(self, st, rid, pre, k=None):
        """cached hash is zero, or copied from an operand whose elements equal the current ones"""
        M = self.M
        h = self.get(st, rid, 'hash')
        s = self.seq(st, rid)
        alts = [eq(h, 0)]
        for prid, (ph, ps) in pre.items():
            j = bv('hk')
            # skolem difference index: must be equal for arbitrary j
            alts.append(b_and(eq(h, ph), eq(s.n, ps.n), implies(ult(j, s.n), eq(s.at(j), ps.at(j), s.w))))
        return b_or(*alts)
