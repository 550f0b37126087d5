"""Assumed contracts of the C/C++ runtime functions the code calls (the trusted dependencies)."""
import re
import z3
from .ir import Unsupported
from .sym import *
from .exe import Outcome, Kill

RET = lambda s, v=None: (s, Outcome('ret', v))
THROW = lambda s, t: (s, Outcome('throw', t))


def op_new(M, st, a, ins, env):
    n = a[0]
    out = []
    if M.alloc_fail:
        sf = st.clone()
        out.append(THROW(sf, '_ZTISt9bad_alloc'))
    ok = ule(n, MAXSZ)
    if ok is False or (ok is not True and not M.sol.feasible(st, ok)):
        return out
    if ok is not True:
        st.assume(ok)
    g, size = 1, n
    if not isc(n):
        sc = M.scaled.get(n.get_id())
        if sc and sc[0] > 1:
            g, size = sc[0], sc[1]
            st.assume(ule(size, MAXSZ // g))
    r = M.new_obj(st, 'heap', size, 'new')
    if r.kind == 'blob' and g > 1:
        r.g = g
        r.chain = base_chain('heap', 8 * g)
    h = M.ext.get('#onnew')
    if h:
        h(M, st, r, n)
    out.append(RET(st, Ptr(r.id, 0)))
    return out


def op_delete(M, st, a, ins, env):
    M.free(st, a[0], 'new')


def c_malloc(M, st, a, ins, env):
    n = a[0]
    out = []
    if M.alloc_fail:
        sf = st.clone()
        out.append(RET(sf, NULL))
    st.assume(ule(n, MAXSZ))
    r = M.new_obj(st, 'malloc', n, 'malloc')
    if r.kind == 'obj':
        M.to_blob(st, r)
    out.append(RET(st, Ptr(r.id, 0)))
    return out


def c_calloc(M, st, a, ins, env):
    n = mul(a[0], a[1])
    out = []
    if M.alloc_fail:
        out.append(RET(st.clone(), NULL))
    st.assume(ule(n, MAXSZ))
    if not isc(a[0]) and not isc(a[1]):
        st.assume(z3.BVMulNoOverflow(E(a[0], 64), E(a[1], 64), False))
    r = st.new_region('calloc', 'blob', n, 'malloc')
    r.chain = r.chain.fill(0, n, 0)
    st.allocs = st.allocs + (r.id,)
    out.append(RET(st, Ptr(r.id, 0)))
    return out


def c_realloc(M, st, a, ins, env):
    p, n = a
    out = []
    if M.alloc_fail:
        s = st.clone()
        out.append(RET(s, NULL))
    st.assume(ule(n, MAXSZ))
    r = st.new_region('realloc', 'blob', n, 'malloc')
    st.allocs = st.allocs + (r.id,)
    if p.r:
        old = st.regs[p.r]
        cnt = ite(ult(n, old.size), n, old.size)
        r.chain = r.chain.copy(0, cnt, old.chain, 0)
        M.free(st, p, 'malloc')
    out.append(RET(st, Ptr(r.id, 0)))
    return out


def c_free(M, st, a, ins, env):
    M.free(st, a[0], 'malloc')


def i_memcpy(M, st, a, ins, env):
    M.memmove(st, a[0], a[1], a[2], move=False)
    return a[0]


def i_memmove(M, st, a, ins, env):
    M.memmove(st, a[0], a[1], a[2], move=True)
    return a[0]


def i_memset(M, st, a, ins, env):
    v = a[1]
    if not isc(v) and v.size() > 8:
        v = S(z3.Extract(7, 0, v))
    elif isc(v):
        v &= 255
    M.memset(st, a[0], v, a[2])
    return a[0]


def view(M, st, p):
    """byte reader at p"""
    r = st.regs[p.r]
    if r.kind == 'obj' and not r.freed and p.r and not r.cells:
        r = M.to_blob(st, r)
    if r.kind == 'obj':
        raise Unsupported('byte view of object')
    ch = r.chain
    o = p.o
    return lambda k: ch.read(add(o, k))


def c_strlen(M, st, a, ins, env):
    p = a[0]
    M.access(st, p, 1, False, 'strlen')
    r = st.regs[p.r]
    rd = view(M, st, p)
    n = bv('strlen')
    # existence of a terminator inside the region
    z = r.meta.get('nul')
    cands = []
    if isinstance(z, list):
        cands += z
    elif z is not None:
        cands.append(z)
    ch = r.chain
    k = ch
    depth = 0
    while k is not None and depth < 8:
        if k.k == 'store' and isc(k.a[1]) and k.a[1] == 0:
            cands.append(k.a[0])
        if k.k == 'copy' and k.a[2].k == 'base':
            pass
        k = k.p
        depth += 1
    ex = b_or(*[b_and(ule(p.o, c), ult(c, r.size), eq(ch.read(c), 0, 8)) for c in cands]) if cands else False
    if ex is not True and r.chain.k == 'const' and isc(p.o):
        bs = r.chain.a
        j = p.o
        while j < len(bs) and bs[j]:
            j += 1
        if j < len(bs):
            return j - p.o
    M.oblige(st, 'mem', ex, 'strlen of a terminated string')
    if getattr(M, 'V', None) is not None:
        # value level: the terminator is often provably the first NUL
        for c in cands:
            j = bv('j')
            s2 = st.clone()
            s2.assume(b_and(ule(p.o, j), ult(j, c)))
            s2.add_idx(j)
            if M.sol.valid(st, b_and(ule(p.o, c), eq(ch.read(c), 0, 8))) is True and M.sol.valid(s2, b_not(eq(ch.read(j), 0, 8)), timeout=3000) is True:
                return sub(c, p.o)
    st.assume(ult(n, sub(r.size, p.o)))
    st.assume(eq(rd(n), 0, 8))
    for c in cands:
        # n is the first NUL, so not beyond any known NUL
        st.assume(implies(b_and(ule(p.o, c), eq(ch.read(c), 0, 8)), ule(n, sub(c, p.o))))
    o = p.o
    fn = base_of(ch)

    def cl(i):
        return implies(ult(i, n), b_not(eq(rd(i), 0, 8)))
    st.facts.append(Fact(None, cl))
    if fn is not None:
        st.facts.append(Fact(fn, lambda i: cl(S(i - E(o, 64)))))
    return n


def base_of(ch):
    k = ch
    if k.k == 'base':
        return k.a
    return None


def c_memcmp(M, st, a, ins, env):
    p, q, n = a
    M.access(st, p, n, False, 'memcmp')
    M.access(st, q, n, False, 'memcmp')
    if (isc(n) and n == 0) or M.sol.valid(st, eq(n, 0)) is True:
        return 0
    x, y = view(M, st, p), view(M, st, q)
    out = []
    # equal
    s1 = st.clone()
    s1.facts.append(Fact(None, lambda i: implies(ult(i, n), eq(x(i), y(i), 8))))
    d = bv('wdiff')
    st.assume(ult(d, n))
    st.add_idx(d)
    st.assume(b_not(eq(x(d), y(d), 8)))
    r = bv('memcmp', 32)
    st.assume(z3.And(r != 0, (r < 0) == z3.ULT(E(x(d), 8), E(y(d), 8))))
    st.facts.append(Fact(None, lambda i: implies(ult(i, d), eq(x(i), y(i), 8))))
    for h in (M.ext.get('#memcmp'),):
        if h:
            h(M, s1, st, p, q, n)
    return [RET(s1, 0), RET(st, r)]


def c_memchr(M, st, a, ins, env):
    p, c, n = a
    c = c & 255 if isc(c) else S(z3.Extract(7, 0, c))
    M.access(st, p, n, False, 'memchr')
    x = view(M, st, p) if p.r else (lambda i: 0)
    s0 = st.clone()
    s0.facts.append(Fact(None, lambda i: implies(ult(i, n), b_not(eq(x(i), c, 8)))))
    w = bv('wchr')
    if p.r == 0:
        return [RET(s0, NULL)]
    st.assume(ult(w, n))
    st.add_idx(w)
    st.assume(eq(x(w), c, 8))
    st.facts.append(Fact(None, lambda i: implies(ult(i, w), b_not(eq(x(i), c, 8)))))
    if not M.sol.feasible(st, True) or not M.sol.feasible(st, ult(0, n)):
        return [RET(s0, NULL)]
    return [RET(s0, NULL), RET(st, Ptr(p.r, add(p.o, w)))]


def c_memmem(M, st, a, ins, env):
    h, hl, nd, nl = a
    M.access(st, h, hl, False, 'memmem')
    M.access(st, nd, nl, False, 'memmem')
    x = view(M, st, h) if h.r else (lambda i: 0)
    y = view(M, st, nd) if nd.r else (lambda i: 0)
    wit = z3.Function(fresh_name('wit'), BV64, BV64)

    def nomatch(q):
        q = E(q, 64)
        return b_and(ult(wit(q), nl), b_not(eq(x(add(q, wit(q))), y(wit(q)), 8)))
    out = []
    # not found
    s0 = st.clone()
    s0.facts.append(Fact(None, lambda q: implies(b_and(ule(nl, hl), ule(q, sub(hl, nl))), nomatch(q))))
    if M.sol.feasible(s0, b_or(ult(hl, nl), b_not(eq(nl, 0)))):
        s0.assume(b_or(ult(hl, nl), b_not(eq(nl, 0))))
        out.append(RET(s0, NULL))
    if h.r == 0:
        # null haystack: only the empty needle matches, at the haystack pointer (null)
        st.assume(eq(nl, 0))
        if M.sol.feasible(st, True):
            out.append(RET(st, NULL))
        return out
    w = bv('wmem')
    st.assume(b_and(ule(nl, hl), ule(w, sub(hl, nl))))
    if M.sol.feasible(st, True):
        st.add_idx(w)
        st.facts.append(Fact(None, lambda k: implies(ult(k, nl), eq(x(add(w, k)), y(k), 8))))
        st.facts.append(Fact(None, lambda q: implies(ult(q, w), nomatch(q))))
        out.append(RET(st, Ptr(h.r, add(h.o, w))))
    return out


SPACE = (9, 10, 11, 12, 13, 32)


def is_space(c):
    """C-locale isspace on an unsigned char value (8-bit term)"""
    return b_or(*[eq(c, k, 8) for k in SPACE])


def c_isspace(M, st, a, ins, env):
    c = a[0]
    # defined for EOF and unsigned char values; glibc tables also cover -128..-1, all false there in the C locale
    c8 = c & 255 if isc(c) else S(z3.Extract(7, 0, c))
    M.oblige(st, 'ctype', b_and(sle(-128 & mask(32), c, 32), sle(c, 255, 32)), 'isspace argument in table range')
    r = is_space(c8)
    inr = b_and(sle(0, c, 32), sle(c, 255, 32))
    return S(z3.If(B(b_and(inr, r)), z3.BitVecVal(8192, 32), z3.BitVecVal(0, 32)))


def upper8(c):
    lo = b_and(ule(97, c, 8), ule(c, 122, 8))
    return ite(lo, sub(c, 32, 8), c, 8)


def c_toupper(M, st, a, ins, env):
    c = a[0]
    M.oblige(st, 'ctype', b_and(sle(-128 & mask(32), c, 32), sle(c, 255, 32)), 'toupper argument in table range')
    lo = b_and(sle(97, c, 32), sle(c, 122, 32))
    return ite(lo, sub(c, 32, 32), c, 32)


def c_tolower(M, st, a, ins, env):
    c = a[0]
    lo = b_and(sle(65, c, 32), sle(c, 90, 32))
    return ite(lo, add(c, 32, 32), c, 32)


def cxa_alloc(M, st, a, ins, env):
    r = st.new_region('excobj', 'obj', 64, 'exc')
    return Ptr(r.id, 0)


def cxa_throw(M, st, a, ins, env):
    ti = ins.a[1][1]
    return [THROW(st, ti[1])]


def nop(M, st, a, ins, env):
    return None


def term(M, st, a, ins, env):
    exc = None
    if a and isinstance(a[0], Ptr) and a[0].r in st.regs:
        exc = st.regs[a[0].r].meta.get('exc')
    return [(st, Outcome('terminate', exc))]


def rng(M, st, p, q, what):
    """element count of the iterator range [p, q)"""
    if p.r != q.r:
        M.oblige(st, 'ub', False, what + ' over unrelated pointers')
        raise Kill()
    M.oblige(st, 'mem', ule(p.o, q.o), what + ' range is ordered')
    return sub(q.o, p.o)


def blk(M, st, d, s, n):
    if isc(n) and n == 0:
        return
    if M.sol.valid(st, eq(n, 0)) is True:
        return
    for q in (d, s):
        r = st.regs[q.r]
        if q.r and r.kind == 'obj' and not r.freed:
            M.to_blob(st, r)
    M.access(st, s, n, False, 'block read')
    M.access(st, d, n, True, 'block write')
    if d.r == 0 or s.r == 0 or st.regs[d.r].freed or st.regs[s.r].freed:
        st.assume(eq(n, 0))
        return
    if st.regs[d.r].g != st.regs[s.r].g:
        raise Unsupported('block op between different element sizes')
    ch = st.regs[s.r].chain
    dr = st.wr(d.r)
    dr.chain = dr.chain.copy(d.o, n, ch, s.o)
    M.shadow(st, dr, d.o, n)


def std_copy(M, st, a, ins, env):
    p, q, d = a
    n = rng(M, st, p, q, 'std::copy')
    blk(M, st, d, p, n)
    return Ptr(d.r, add(d.o, n))


def std_move_backward(M, st, a, ins, env):
    p, q, d = a
    n = rng(M, st, p, q, 'std::move_backward')
    b = Ptr(d.r, sub(d.o, n))
    blk(M, st, b, p, n)
    return b


def std_fill(M, st, a, ins, env):
    p, q, vp = a
    n = rng(M, st, p, q, 'std::fill')
    if (isc(n) and n == 0) or M.sol.valid(st, eq(n, 0)) is True:
        return None
    r = st.regs[p.r]
    if p.r and r.kind == 'obj' and not r.freed:
        M.to_blob(st, r)
    v = M.load(st, vp, ('i', 8 * st.regs[p.r].g))
    M.access(st, p, n, True, 'block write')
    if p.r == 0 or st.regs[p.r].freed:
        st.assume(eq(n, 0))
        return None
    r = st.wr(p.r)
    r.chain = r.chain.fill(p.o, n, v)
    M.shadow(st, r, p.o, n)


def std_minmax(mx):
    def f(M, st, a, ins, env):
        w = 64
        x = M.load(st, a[0], ('i', w))
        y = M.load(st, a[1], ('i', w))
        c = ult(x, y) if mx else ult(y, x)
        r = st.new_region('minmax', 'obj', 8, 'stack')
        r.cells[0] = (8, ite(c, y, x))
        return Ptr(r.id, 0)
    return f


def c_exit(M, st, a, ins, env):
    return [(st, Outcome('exit', a[0]))]


def throws(t):
    return lambda M, st, a, ins, env: [THROW(st, t)]


def typeid_for(M, st, a, ins, env):
    v = ins.a[0][1]
    return M.typeid(v[1] if v[0] == 'g' else None)


def begin_catch(M, st, a, ins, env):
    return a[0]


def rethrow(M, st, a, ins, env):
    # most recent exception region
    exc = None
    for r in sorted(st.regs):
        g = st.regs[r]
        if g.src == 'exc' and g.meta.get('exc'):
            exc = g.meta['exc']
    return [THROW(st, exc)]


def expect(M, st, a, ins, env):
    return a[0]


def isconst(M, st, a, ins, env):
    return False


def minmax(op):
    def f(M, st, a, ins, env):
        w = M.mod.rt(ins.ty)[1]
        c = {'umin': ult, 'umax': lambda x, y, w: ult(y, x, w), 'smin': slt, 'smax': lambda x, y, w: slt(y, x, w)}[op](a[0], a[1], w)
        return ite(c, a[0], a[1], w)
    return f


def std_find(M, st, a, ins, env):
    """std::find over bytes: first position in [first,last) equal to *value, else last"""
    p, q, vp = a
    if p.r != q.r:
        M.oblige(st, 'ub', False, 'std::find over unrelated pointers')
        raise Kill()
    if p.r == 0:
        return q
    M.oblige(st, 'mem', ule(p.o, q.o), 'std::find range is ordered')
    n = sub(q.o, p.o)
    v = M.load(st, vp, ('i', 8 * st.regs[p.r].g))
    M.access(st, p, n, False, 'std::find')
    x = view(M, st, p)
    w8 = 8 * st.regs[p.r].g
    w = bv('wfind')
    st.assume(ule(w, n))
    st.assume(implies(ult(w, n), eq(x(w), v, w8)))
    st.add_idx(w)
    st.facts.append(Fact(None, lambda i: implies(ult(i, w), b_not(eq(x(i), v, w8)))))
    return Ptr(p.r, add(p.o, w))


def install(M):
    X = M.ext
    X.update({
        '_Znwm': op_new, '_Znam': op_new, '_ZdlPv': op_delete, '_ZdaPv': op_delete,
        '_ZdlPvm': op_delete, '_ZdaPvm': op_delete,
        'malloc': c_malloc, 'calloc': c_calloc, 'realloc': c_realloc, 'free': c_free,
        'llvm.memcpy.p0.p0.i64': i_memcpy, 'llvm.memmove.p0.p0.i64': i_memmove, 'llvm.memset.p0.i64': i_memset,
        'memcpy': i_memcpy, 'memmove': i_memmove, 'memset': i_memset,
        'strlen': c_strlen, 'memcmp': c_memcmp, 'memchr': c_memchr, 'memmem': c_memmem,
        'isspace': c_isspace, 'toupper': c_toupper, 'tolower': c_tolower,
        '__cxa_allocate_exception': cxa_alloc, '__cxa_free_exception': nop, '__cxa_throw': cxa_throw,
        '__cxa_begin_catch': begin_catch, '__cxa_end_catch': nop, '__cxa_rethrow': rethrow,
        '_ZSt9terminatev': term, '__clang_call_terminate': term, 'abort': term, 'exit': c_exit,
        '_ZNSt12out_of_rangeC1EPKc': nop, '_ZNSt12out_of_rangeD1Ev': nop,
        '_ZSt17__throw_bad_allocv': throws('_ZTISt9bad_alloc'),
        '_ZSt28__throw_bad_array_new_lengthv': throws('_ZTISt20bad_array_new_length'),
        '_ZSt20__throw_length_errorPKc': throws('_ZTISt12length_error'),
        'llvm.eh.typeid.for': typeid_for, 'llvm.eh.typeid.for.p0': typeid_for,
        'llvm.threadlocal.address.p0': expect, 'llvm.expect.i64': expect, 'llvm.expect.i1': expect, 'llvm.is.constant.i64': isconst,
        'llvm.umin.i64': minmax('umin'), 'llvm.umax.i64': minmax('umax'),
        'llvm.smin.i64': minmax('smin'), 'llvm.smax.i64': minmax('smax'),
        'llvm.smin.i32': minmax('smin'), 'llvm.smax.i32': minmax('smax'),
    })
    el = r'(char|unsigned char|int|unsigned int|long|unsigned long|short)'
    M.ext_patterns = tuple(M.ext_patterns) + (
        (re.compile(el + r'\* std::(copy|move)<' + el + r'( const)?\*, ' + el + r'\*>\('), std_copy),
        (re.compile(el + r'\* std::move_backward<' + el + r'( const)?\*, ' + el + r'\*>\('), std_move_backward),
        (re.compile(r'void std::fill<' + el + r'\*, ' + el + r'>\('), std_fill),
        (re.compile(r'unsigned long const& std::max<unsigned long>\('), std_minmax(True)),
        (re.compile(r'unsigned long const& std::min<unsigned long>\('), std_minmax(False)),
        (re.compile(r'^' + el + r'( const)?\* std::find<' + el + r'( const)?\*, ' + el + r'>'), std_find),
    )
