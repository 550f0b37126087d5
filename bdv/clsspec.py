"""Array of a class element type (tu/cls.cpp, tu/cls.h): lifetimes of the elements.
A place without an object holds the marker DEAD; every special member of the element class reports to the ghost hooks, which
demand (tag 'life') that construction happens only where no object lives, every other use only where one does, and that storage
is released only when no object lives in it. Every storage a handle can reach holds an object in each of its places."""
import copy
import re
import z3
from . import arrspec
from . import strspec as ss
from .strspec import *
from .strspec import BUF, NE
from .obj import Objs
from .spec import Runner, Spec
from .exe import Kill, Outcome
from .loops import forall_blob
from .ir import Unsupported
from . import libc
from .libc import rng

DEAD = 0xdeaddeaddeaddead
MOVED = 0x6d6f766564
W = 64
SPECS = {}


def alive(v):
    return b_not(eq(v, DEAD, W))


# ---- ghost hooks ---------------------------------------------------------------------------
def content(M, st, p):
    """what the place p holds now; None: never constructed"""
    if not isinstance(p, Ptr):
        raise Unsupported('element pointer')
    r = st.regs[p.r]
    if p.r == 0 or r.freed:
        M.access(st, p, 1, False, 'element')
        raise Kill()
    if r.kind == 'blob':
        if r.g != 8:
            raise Unsupported('element outside element storage')
        M.access(st, p, 1, False, 'element')
        return r.chain.read(p.o)
    c = r.cells.get(p.o)
    return c[1] if c else None


def el_born(M, st, a, ins, env):
    v = content(M, st, a[0])
    if v is not None:
        M.oblige(st, 'life', eq(v, DEAD, W), 'an element is constructed only where no object lives')


def el_use(M, st, a, ins, env):
    v = content(M, st, a[0])
    M.oblige(st, 'life', v is not None and alive(v), 'an element is used only while it lives')


def el_die(M, st, a, ins, env):
    v = content(M, st, a[0])
    M.oblige(st, 'life', v is not None and alive(v), 'an element is destroyed only while it lives')
    M.store(st, a[0], ('i', 64), DEAD)


def all_(M, st, ch, o, n, body, msg):
    k = bv('k')
    s2 = st.clone()
    s2.assume(ult(k, n))
    s2.add_idx(k)
    M.oblige(s2, 'life', body(ch.read(add(o, k))), msg)


# ---- assumed contracts of the standard algorithms over the element class -----------------------
def bulk(M, st, d, s, n, raw, move, what):
    """transfer n elements s -> d; raw: into places without objects; move: the source elements are moved from"""
    if isc(n) and n == 0 or M.sol.valid(st, eq(n, 0)) is True:
        return
    for q in (d, s):
        r = st.regs[q.r]
        if q.r and r.kind == 'obj' and not r.freed and not r.cells:
            M.to_blob(st, r, 8)
    M.access(st, s, n, move, what)
    M.access(st, d, n, True, what)
    if d.r == 0 or s.r == 0 or st.regs[d.r].freed or st.regs[s.r].freed:
        st.assume(eq(n, 0))
        return
    if st.regs[d.r].kind != 'blob' or st.regs[s.r].kind != 'blob':
        raise Unsupported(what + ' on an object')
    src, dst = st.regs[s.r].chain, st.regs[d.r].chain
    all_(M, st, src, s.o, n, alive, what + ' reads only living elements')
    if raw:
        all_(M, st, dst, d.o, n, lambda v: eq(v, DEAD, W), what + ' constructs only where no object lives')
    else:
        all_(M, st, dst, d.o, n, alive, what + ' assigns only to living elements')
    if move:
        r = st.wr(s.r)
        r.chain = r.chain.fill(s.o, n, MOVED)
    r = st.wr(d.r)
    r.chain = r.chain.copy(d.o, n, src, s.o)


def overlap(M, st, d, s, n, fwd, what):
    if d.r == s.r:
        # forward: the destination must not start inside the source (after its start); backward: must not end inside it
        lo = sub(d.o, s.o) if fwd else sub(s.o, d.o)
        M.oblige(st, 'mem', b_or(eq(lo, 0), ule(n, lo)), what + ' does not overwrite what it still has to read')


def x_copy(move, raw=False, what='std::copy'):
    def f(M, st, a, ins, env):
        p, q, d = a
        r = st.regs[p.r]
        if p.r and r.kind == 'obj' and not r.freed and isc(p.o) and q.r == p.r and isc(q.o) and st.regs[d.r].kind == 'blob':
            # a few elements on the stack (offsets in bytes there)
            M.oblige(st, 'mem', p.o <= q.o and q.o <= r.size, what + ' source range')
            n = (q.o - p.o) // 8
            for i in range(n):
                v = content(M, st, Ptr(p.r, p.o + 8 * i))
                M.oblige(st, 'life', v is not None and alive(v), what + ' reads only living elements')
                e = Ptr(d.r, add(d.o, i))
                w = content(M, st, e)
                M.oblige(st, 'life', eq(w, DEAD, W) if raw else alive(w), what + (' constructs only where no object lives' if raw else ' assigns only to living elements'))
                M.store(st, e, ('i', 64), v)
                if move:
                    M.store(st, Ptr(p.r, p.o + 8 * i), ('i', 64), MOVED)
            return Ptr(d.r, add(d.o, n))
        n = rng(M, st, p, q, what)
        overlap(M, st, d, p, n, True, what)
        bulk(M, st, d, p, n, raw, move, what)
        return Ptr(d.r, add(d.o, n))
    return f


def x_copy_n(move, raw, what):
    def f(M, st, a, ins, env):
        p, n, d = a
        overlap(M, st, d, p, n, True, what)
        bulk(M, st, d, p, n, raw, move, what)
        return Ptr(d.r, add(d.o, n))
    return f


def x_back(move, what):
    def f(M, st, a, ins, env):
        p, q, d = a
        n = rng(M, st, p, q, what)
        b = Ptr(d.r, sub(d.o, n))
        overlap(M, st, b, p, n, False, what)
        bulk(M, st, b, p, n, False, move, what)
        return b
    return f


def x_fill(raw, what, counted=False):
    def f(M, st, a, ins, env):
        p, q, vp = a
        n = q if counted else rng(M, st, p, q, what)
        if isc(n) and n == 0 or M.sol.valid(st, eq(n, 0)) is True:
            return p if counted else None
        v = content(M, st, vp)
        M.oblige(st, 'life', v is not None and alive(v), what + ' copies a living element')
        r = st.regs[p.r]
        if p.r and r.kind == 'obj' and not r.freed and not r.cells:
            M.to_blob(st, r, 8)
        M.access(st, p, n, True, what)
        if p.r == 0 or st.regs[p.r].freed:
            st.assume(eq(n, 0))
            return p if counted else None
        r = st.wr(p.r)
        if raw:
            all_(M, st, r.chain, p.o, n, lambda v: eq(v, DEAD, W), what + ' constructs only where no object lives')
        else:
            all_(M, st, r.chain, p.o, n, alive, what + ' assigns only to living elements')
        r.chain = r.chain.fill(p.o, n, v)
        return Ptr(p.r, add(p.o, n)) if counted else None
    return f


def x_find(M, st, a, ins, env):
    p, q, vp = a
    if p.r and p.r == q.r:
        n = sub(q.o, p.o)
        v = content(M, st, vp)
        M.oblige(st, 'life', v is not None and alive(v), 'std::find compares with a living element')
        s2 = st.clone()
        s2.assume(ule(p.o, q.o))
        all_(M, s2, st.regs[p.r].chain, p.o, n, alive, 'std::find reads only living elements')
    return libc.std_find(M, st, a, ins, env)


def x_destroy(M, st, a, ins, env):
    """std::_Destroy / std::destroy over a range"""
    p, q = a[:2]
    n = rng(M, st, p, q, 'std::destroy')
    if isc(n) and n == 0 or M.sol.valid(st, eq(n, 0)) is True:
        return None
    M.access(st, p, n, True, 'std::destroy')
    r = st.wr(p.r)
    all_(M, st, r.chain, p.o, n, alive, 'std::destroy ends only living elements')
    r.chain = r.chain.fill(p.o, n, DEAD)


MI = r'(std::move_iterator<El( const)?\*>|El( const)?\*)'
PAT = (
    (r'El\* std::copy<El( const)?\*, El\*>\(', x_copy(False)),
    (r'El\* std::copy<std::move_iterator<El\*>, El\*>\(', x_copy(True)),
    (r'El\* std::move<El const\*, El\*>\(', x_copy(False, what='std::move')),
    (r'El\* std::move<El\*, El\*>\(', x_copy(True, what='std::move')),
    (r'El\* std::move_backward<El const\*, El\*>\(', x_back(False, 'std::move_backward')),
    (r'El\* std::move_backward<El\*, El\*>\(', x_back(True, 'std::move_backward')),
    (r'El\* std::copy_backward<El( const)?\*, El\*>\(', x_back(False, 'std::copy_backward')),
    (r'void std::fill<El\*, El>\(', x_fill(False, 'std::fill')),
    (r'El\* std::fill_n<El\*, (unsigned )?long, El>\(', x_fill(False, 'std::fill_n', True)),
    (r'void std::uninitialized_fill<El\*, El>\(', x_fill(True, 'std::uninitialized_fill')),
    (r'El\* std::uninitialized_fill_n<El\*, (unsigned )?long, El>\(', x_fill(True, 'std::uninitialized_fill_n', True)),
    (r'El\* std::uninitialized_copy<El( const)?\*, El\*>\(', x_copy(False, True, 'std::uninitialized_copy')),
    (r'El\* std::uninitialized_copy<std::move_iterator<El\*>, El\*>\(', x_copy(True, True, 'std::uninitialized_copy')),
    (r'El\* std::uninitialized_copy_n<El( const)?\*, (unsigned )?long, El\*>\(', x_copy_n(False, True, 'std::uninitialized_copy_n')),
    (r'El\* std::uninitialized_copy_n<std::move_iterator<El\*>, (unsigned )?long, El\*>\(', x_copy_n(True, True, 'std::uninitialized_copy_n')),
    (r'El( const)?\* std::find<El( const)?\*, El>', x_find),
    (r'void std::_Destroy<El\*(, El)?>\(', x_destroy),
)


# ---- storage --------------------------------------------------------------------------------
def onnew(M, st, r, n):
    r = st.wr(r.id)
    if r.kind == 'obj':
        if isc(n) and (n == M.L['sizeof_ref'] or n % 8):
            return
        r = M.to_blob(st, r, 8)
    elif r.g != 8:
        return
    r.chain = Chain('fill', r.chain, (0, mask(64), DEAD), W)


def onfree(M, st, reg):
    if reg.kind == 'blob' and reg.g == 8 and reg.src == 'new':
        all_(M, st, reg.chain, 0, reg.size, lambda v: eq(v, DEAD, W), 'storage is released only after every element in it was destroyed')


class ClsObjs(Objs):
    def check_exit(self, st, live, extra_reach=()):
        super().check_exit(st, live, extra_reach)
        for rid, r in list(st.regs.items()):
            if r.kind == 'blob' and r.g == 8 and r.src == 'new' and not r.freed:
                all_(self.M, st, r.chain, 0, r.size, alive, f'every place of storage that stays in use holds an element ({r.name})')


class ClsRunner(Runner):
    def machine(self, tags):
        M = super().machine(tags)
        M.O = ClsObjs(M, self.L, self.vtable, self.es)
        M.ext.update({'el_born': el_born, 'el_use': el_use, 'el_die': el_die, '#onnew': onnew, '#onfree': onfree})
        M.ext_patterns = tuple((re.compile(p), f) for p, f in PAT) + tuple(M.ext_patterns)
        return M

    def setup(self, M, spec, cfg):
        st, c, call = super().setup(M, spec, cfg)
        kinds = dict(spec.args)
        for rid, r in list(st.regs.items()):
            if r.kind == 'blob' and r.g == 8 and r.chain.k == 'base':
                fn = r.chain.a
                st.facts.append(Fact(fn, lambda i, fn=fn: alive(fn(i))))
        for n, k in spec.args:
            if k == 'c':
                st.assume(alive(c.a[n]))
            if k == 'o' and n == 'r':
                g = st.wr(c.a[n].r)
                g.chain = Chain('fill', g.chain, (0, mask(64), DEAD), W)
        return st, c, call

    def cval(self, st, c, n, k):
        if k != 'c':
            return c.a[n]
        r = st.new_region(n + '_obj', 'blob', 1, 'arg')
        r.g = 8
        r.chain = base_chain(n, 64).store(0, c.a[n])
        return Ptr(r.id, 0)


def H_destroy(c, ctx):
    """a loop that destroys (or constructs) elements in order: dead on one side of its position, alive on the other"""
    out = []
    for r in sorted(ctx.blobs):
        g = ctx.st0.regs[r]
        if g.g != 8:
            continue
        size = g.size
        for n, get, w, kind in ctx.V:
            if w != 64:
                continue
            for nm, pr in (('dead', lambda i, v: eq(v, DEAD, W)), ('alive', lambda i, v: alive(v))):
                out.append(forall_blob(f'{nm} below {n}', r, lambda i, s, pv, get=get: ult(i, get(s, pv)), pr))
                out.append(forall_blob(f'{nm} from {n}', r, lambda i, s, pv, get=get: b_and(ule(get(s, pv), i), ult(i, size)), pr))
    return out


for n, s in arrspec.SPECS.items():
    s = copy.copy(s)
    s.props = {'C22'}
    s.hints = list(s.hints) + [H_destroy]
    SPECS[n] = s


def handed(f, change=None):
    def post(c):
        c.same('func', c.wseq('r'), seq_one(f(c), W), 'the element is handed out')
        if change:
            change(c)
    return post


def respec(name, args, post, **kw):
    SPECS[name] = Spec(name, args, post, props=['C22'], hints=[H_destroy], **kw)


LASTV = arrspec.LASTV
respec('e_pop', 's:S r:o', handed(LASTV, lambda c: c.becomes('s', dropback(c.S('s'), 1))), mod=['s'], pre=NE, cfg=BUF)
respec('e_popr', 's:S r:o', handed(LASTV), moved=['s'], pre=NE, cfg=BUF)
respec('e_shift', 's:S r:o', handed(lambda c: c.S('s').at(0), lambda c: c.becomes('s', dropfront(c.S('s'), 1))), mod=['s'], pre=NE, cfg=BUF)
respec('e_shiftr', 's:S r:o', handed(lambda c: c.S('s').at(0)), moved=['s'], pre=NE, cfg=BUF)


def REPLAY():
    from .replay_rca import RcaReplay
    return RcaReplay('replay_cls.cpp', 8, cls=True)


def make_runner(mod, L):
    return ClsRunner(mod, L, '_ZTVN2bd5ArrayI2ElEE', es=8)
