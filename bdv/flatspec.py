"""Contracts of the C-string helpers (Cstrings.cpp) and base64 (base64.cpp); tu/flat.cpp."""
import z3
from .sym import *
from .obj import *
from .free import FSpec, FRunner
from .loops import Cand, forall_blob
from .ir import Unsupported

SPECS = {}
EXIT5 = 'the process may only end through exit(5) when memory runs out'


def spec(name, body, **kw):
    SPECS[name] = FSpec(name, body, **kw)
    return SPECS[name]


def normal(x, o, allow=()):
    """no exception, no exit; allow: outcome kinds handled by the caller"""
    if o.kind == 'ret':
        return True
    if o.kind == 'exit' and 'exit' in allow:
        x.ob('exc', eq(o.v, 5, 32), EXIT5)
        return False
    if o.kind == 'throw' and 'throw' in allow and o.v in ('_ZTISt9bad_alloc',):
        return False
    x.ob('exc', False, f'function returns normally ({o.kind} {o.v})')
    return False


# ---- strlcpy / strlcat -----------------------------------------------------------------
def strlcpy(x):
    st = x.st
    siz, room = x.n('siz'), x.n('room')
    st.assume(b_and(ule(siz, room), ule(room, CAP)))
    d = x.blob('dst', room, True)
    p, src = x.cstr('src')
    x.src, x.dst, x.srcp = src, d.id, p
    old = d.chain

    def post(x, s, o):
        if not normal(x, o):
            return
        x.ob('func', eq(o.v, src.n), 'returns the length of the source')
        m = umin(src.n, sub(siz, 1))
        new = s.regs[d.id].chain
        want = Seq(room, lambda k: ite(b_or(ule(siz, k), eq(siz, 0)), old.read(k), ite(ult(k, m), src.at(k), ite(eq(k, m), 0, new.read(k), 8), 8), 8))
        x.same('func', Seq(room, new.read), want, 'destination: longest prefix that fits, terminated, nothing beyond the size')
        x.leaks()
    return [Ptr(d.id, 0), p, siz], post


def H_copy(x, ctx):
    out = []
    for n, g, w, kind in ctx.V:
        if w != 64:
            continue
        out.append(Cand(n + '<=len', lambda s, pv, g=g: ule(g(s, pv), x.src.n)))
        if getattr(x, 'dl', None) is not None:
            out.append(Cand(n + '<=dl', lambda s, pv, g=g: ule(g(s, pv), x.dl)))
            out.append(Cand(n + '==dl+min', lambda s, pv, g=g: True))
        if x.dst in ctx.blobs and kind and kind[0] == 'ptr':
            off = getattr(x, 'dl', 0)
            v0 = g(ctx.st0, ctx.pv0)
            out.append(forall_blob('copied<' + n, x.dst, lambda i, s, pv, g=g, off=off, v0=v0: b_and(ule(off, i), ult(sub(i, off), sub(g(s, pv), v0))),
                                   lambda i, v, off=off: eq(v, x.src.at(sub(i, off)), 8)))
    for n, g, w, kind in ctx.V:
        for m, h, w2, kind2 in ctx.V:
            if w == 64 == w2 and kind and kind2 and kind[1] == x.dst and kind2[1] == x.srcp.r and getattr(x, 'dl', None) is not None:
                lim = sub(sub(x.siz, x.dl), 1)
                out.append(Cand('cat', lambda s, pv, g=g, h=h, lim=lim: eq(g(s, pv), add(x.dl, umin(h(s, pv), lim)))))
        if w == 64 and kind is None and getattr(x, 'dl', None) is not None:
            for m, h, w2, kind2 in ctx.V:
                if kind2 and kind2[1] == x.dst:
                    out.append(Cand('left', lambda s, pv, g=g, h=h: eq(g(s, pv), sub(x.siz, h(s, pv)))))
    return out


spec('e_strlcpy', strlcpy, props=['C12'], hints=[H_copy])


def strlcat(x):
    st = x.st
    siz, room = x.n('siz'), x.n('room')
    st.assume(b_and(ule(siz, room), ule(room, CAP)))
    d = x.blob('dst', room, True)
    old = d.chain
    dl = x.n('dlen')
    st.assume(ule(dl, siz))
    st.assume(implies(ult(dl, siz), eq(old.read(dl), 0, 8)))
    st.facts.append(Fact(old.a, lambda i: implies(ult(i, dl), b_not(eq(old.a(i), 0, 8)))))
    p, src = x.cstr('src')
    x.src, x.dst, x.srcp, x.dl, x.siz = src, d.id, p, dl, siz

    def post(x, s, o):
        if not normal(x, o):
            return
        x.ob('func', eq(o.v, add(dl, src.n)), 'returns the length it tried to create')
        m = umin(src.n, sub(sub(siz, dl), 1))
        new = s.regs[d.id].chain
        full = eq(dl, siz)
        want = Seq(room, lambda k: ite(b_or(full, ult(k, dl), ule(siz, k)), old.read(k),
                                       ite(ult(sub(k, dl), m), src.at(sub(k, dl)), ite(eq(sub(k, dl), m), 0, new.read(k), 8), 8), 8))
        x.same('func', Seq(room, new.read), want, 'destination: kept prefix, then the longest part that fits, terminated, nothing beyond the size')
        x.leaks()
    return [Ptr(d.id, 0), p, siz], post


spec('e_strlcat', strlcat, props=['C12'], hints=[H_copy])


# ---- duplicates ----------------------------------------------------------------------------
def dup_post(x, s, p, want):
    x.keep.add(p.r)
    r = s.regs[p.r]
    x.ob('mem', b_and(p.r != 0, not r.freed, eq(p.o, 0), r.src == 'malloc'), 'returns a fresh allocation')
    if p.r == 0:
        return
    x.ob('func', ult(want.n, r.size), 'copy and terminator fit the allocation')
    x.same('func', Seq(add(want.n, 1), r.chain.read), seq_cat(want, seq_one(0)), 'exact terminated copy')


def strdup_(x):
    p, src = x.cstr('src')

    def post(x, s, o):
        if normal(x, o, ('exit',)):
            dup_post(x, s, o.v, src)
            x.leaks()
    return [p], post


def strldup_(x):
    p, src = x.cstr('src')
    n = x.n('n')

    def post(x, s, o):
        if normal(x, o, ('exit',)):
            dup_post(x, s, o.v, Seq(umin(src.n, n), src.at))
            x.leaks()
    return [p, n], post


spec('e_strdup', strdup_, props=['C12'])
spec('e_strldup', strldup_, props=['C12'])


def heapstr(x, name):
    r = x.blob(name, x.n(name + '_room', hi=CAP), True, src='malloc')
    x.st.assume(ule(1, r.size))
    return r


def redup(x):
    old = NULL
    if x.cfg['old'] == 'given':
        old = Ptr(heapstr(x, 'old').id, 0)
    cell = x.cell('str', old)
    if x.cfg['new'] == 'null':
        p, src = NULL, None
    else:
        p, src = x.cstr('src')

    def post(x, s, o):
        if not normal(x, o, ('exit',)):
            return
        v = s.regs[cell.r].cells[0][1]
        if src is None:
            x.ob('func', v.r == 0 and eq(v.o, 0), 'reset to null')
        else:
            dup_post(x, s, v, src)
        if old.r:
            x.ob('leak', s.regs[old.r].freed or v.r == old.r, 'old string is released')
        x.leaks()
    return [cell, p], post


spec('e_str_redup', redup, cfgs=[{'old': a, 'new': b} for a in ('null', 'given') for b in ('null', 'str')], props=['C12'])


def calloc_(x):
    n, m = x.n('n'), x.cfg['m']

    def post(x, s, o):
        if not normal(x, o, ('exit',)):
            return
        x.ob('func', o.v.r != 0, 'never null')
        x.keep.add(o.v.r)
        x.leaks()
    return [n, m], post


def realloc_(x):
    old = NULL
    if x.cfg['old'] == 'given':
        old = Ptr(heapstr(x, 'old').id, 0)
    n = x.n('n')

    def post(x, s, o):
        if not normal(x, o, ('exit',)):
            return
        x.ob('func', b_or(o.v.r != 0, eq(n, 0)), 'null only for size zero')
        x.keep.add(o.v.r)
        x.leaks()
    return [old, n], post


spec('e_calloc', calloc_, cfgs=[{'m': 1}, {'m': 8}], props=['C12'])
spec('e_realloc', realloc_, cfgs=[{'old': 'null'}, {'old': 'given'}], props=['C12'])


# ---- base64 -----------------------------------------------------------------------------------
STD = b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'


def zx(v, w=64):
    return v if isc(v) else S(z3.ZeroExt(w - v.size(), v))


def tables(x):
    """opaque constant byte tables of the translation unit: (region, bytes)"""
    M = x.M
    out = []
    for g in M.mod.globals:
        if 'b64' in g or 'base64' in g:
            p = M.gptr(x.st, g)
            if isinstance(p, Ptr) and 'bytes' in x.st.regs[p.r].meta:
                out.append((p.r, bytes(x.st.regs[p.r].meta['bytes'])))
    return out


def std_alphabet(x):
    """reader of the standard alphabet as the code's own constant; None if the code has no such constant"""
    for r, bs in tables(x):
        if bs[:64] == STD:
            return x.st.regs[r].chain.a
    return None


def std_facts(x, cs):
    """facts about constant tables, each decided by evaluating the tables"""
    assert b'=' not in STD
    x.st.facts.append(Fact(cs, lambda v: implies(ult(v, 64), b_not(eq(cs(v), 61, 8)))))
    for r, bs in tables(x):
        if len(bs) == 256 and all(bs[STD[v]] == v for v in range(64)):
            ix = x.st.regs[r].chain.a
            x.st.facts.append(Fact(cs, lambda v, ix=ix: implies(ult(v, 64), eq(ix(zx(cs(v))), S(z3.Extract(7, 0, v)), 8))))
            x.idx = ix


def alphabet(x):
    """the alphabet argument: pointer and reader"""
    if x.cfg['cs'] == 'null':
        cs = std_alphabet(x)
        if cs is None:
            x.ob('func', False, 'the default alphabet is the standard one')
            raise Unsupported('no standard alphabet constant')
        std_facts(x, cs)
        return NULL, cs
    r = x.blob('charset', 64)
    cs = r.chain.a
    inv = z3.Function(fresh_name('inv'), z3.BitVecSort(8), z3.BitVecSort(8))
    # 64 distinct bytes other than the padding
    x.st.facts.append(Fact(cs, lambda v: implies(ult(v, 64), b_and(b_not(eq(cs(v), 61, 8)), eq(inv(cs(v)), S(z3.Extract(7, 0, v)), 8)))))
    return Ptr(r.id, 0), cs


def byte(b):
    return S(z3.ZeroExt(56, E(b, 8)))


def enc_block(cs, at, N, b):
    """the four characters of block b of the encoding of the N bytes at()"""
    i = mul(b, 3)
    h1, h2 = ult(add(i, 1), N), ult(add(i, 2), N)
    v0, v1, v2, v3 = sextets([at(i), ite(h1, at(add(i, 1)), 0, 8), ite(h2, at(add(i, 2)), 0, 8)])
    return [cs(E(v0, 64)), cs(E(v1, 64)), ite(h1, cs(E(v2, 64)), 61, 8), ite(h2, cs(E(v3, 64)), 61, 8)]


def nblk(n, k):
    """ceil(n / k) for n < 2^58"""
    return S(z3.UDiv(E(add(n, k - 1), 64), z3.BitVecVal(k, 64)))


def enc_pre(x):
    st = x.st
    N = x.n('len', hi=CAP)
    inp = x.blob('data', N)
    csp, cs = alphabet(x)
    B = x.n('block')
    st.add_idx(B)
    x.B, x.N, x.cs, x.inp = B, N, cs, inp.chain.read
    x.outlen = mul(nblk(N, 3), 4)
    return N, Ptr(inp.id, 0), csp


def enc_hint(x, ctx):
    out = []
    for r in ctx.blobs:
        def prop(s, pv, r=r):
            ch = s.regs[r].chain
            w = enc_block(x.cs, x.inp, x.N, x.B)
            return implies(b_and(ult(x.B, pv['#it']), ult(x.B, nblk(x.N, 3))), b_and(*[eq(ch.read(add(mul(x.B, 4), j)), w[j], 8) for j in range(4)]))
        out.append(Cand('blocks', prop))
    return out


def enc_post(x, at, N, lenv, ch):
    x.ob('func', eq(lenv, x.outlen), 'reported length is that of the padded encoding')
    w = enc_block(x.cs, at, N, x.B)
    inr = ult(x.B, nblk(N, 3))
    for j in range(4):
        x.ob('func', implies(inr, eq(ch(add(mul(x.B, 4), j)), w[j], 8)), f'character {j} of any block is the standard one')


def encbuf(x):
    N, p, csp = enc_pre(x)
    ln = x.cell('len', N)
    d = x.blob('dest', x.outlen, True)

    def post(x, s, o):
        if normal(x, o):
            enc_post(x, x.inp, N, s.regs[ln.r].cells[0][1], s.regs[d.id].chain.read)
            x.leaks()
    return [p, ln, Ptr(d.id, 0), csp], post


CS = [{'cs': 'null'}, {'cs': 'given'}]
spec('e_b64enc_buf', encbuf, cfgs=CS, props=['C11'], hints=[enc_hint], use_it=True)


def encdup(x):
    N, p, csp = enc_pre(x)
    ln = x.cell('len', N)

    def post(x, s, o):
        if normal(x, o, ('throw',)):
            r = s.regs[o.v.r]
            x.keep.add(o.v.r)
            n = s.regs[ln.r].cells[0][1]
            x.ob('mem', b_and(o.v.r != 0, not r.freed, eq(o.v.o, 0)), 'returns a fresh allocation')
            enc_post(x, x.inp, N, n, r.chain.read)
            x.ob('func', b_and(ult(n, r.size), eq(r.chain.read(n), 0, 8)), 'result is terminated')
        x.leaks()
    return [p, ln, csp], post


spec('e_b64enc', encdup, cfgs=CS, props=['C11'], hints=[enc_hint], use_it=True)


def dec_pre(x, mode):
    """mode any: arbitrary bytes; valid: the encoding of arbitrary bytes orig[0..n)"""
    st = x.st
    x.mode = mode
    if mode == 'any':
        N = x.n('len', hi=CAP)
        inp = x.blob('data', N)
    else:
        n = x.n('n', hi=CAP)
        N = mul(nblk(n, 3), 4)
        inp = x.blob('data', N)
        # the original bytes, given by their sextets: sx[j](b) is the j-th of block b (see sextet_lemma)
        x.sx = [z3.Function(fresh_name(f'sx{j}'), BV64, z3.BitVecSort(8)) for j in range(4)]
        for f in x.sx:
            st.facts.append(Fact(f, lambda b, f=f: ult(f(b), 64, 8)))
        sextet_lemma(x)
        x.B = x.n('block')
        st.add_idx(x.B)
        x.n_ = n
    x.N = N
    x.outmax = mul(nblk(N, 4), 3)
    x.inp = inp
    return N, Ptr(inp.id, 0)


def recombine(v):
    """the three bytes a block of four sextets stands for"""
    v = [E(t, 8) for t in v]
    return [S(v[0] * 4 + z3.LShR(v[1], 4)), S((v[1] & 15) * 16 + z3.LShR(v[2], 2)), S((v[2] & 3) * 64 + v[3])]


def sextet_lemma(x):
    """bytes <-> sextets: splitting three bytes as enc_block does and recombining gives the bytes back"""
    st = x.st
    save = list(st.pc), list(st.facts)
    st.pc, st.facts = [], []
    d = [z3.BitVec(f'd{i}', 8) for i in range(3)]
    w = sextets(d)
    x.ob('func', b_and(*[eq(a, b, 8) for a, b in zip(recombine([z3.Extract(7, 0, E(t, 64)) for t in w]), d)]), 'lemma: recombining the sextets of three bytes gives the bytes')
    x.ob('func', b_and(*[ult(t, 64) for t in w]), 'lemma: sextets are below 64')
    w1 = sextets([d[0], 0, 0])
    w2 = sextets([d[0], d[1], 0])
    x.ob('func', b_and(eq(z3.Extract(7, 0, E(w1[1], 64)) & 15, 0, 8), eq(E(w1[2], 64), 0), eq(E(w2[2], 64) & 3, 0)), 'lemma: padded blocks have zero fill')
    st.pc, st.facts = save


def sextets(d):
    d0, d1, d2 = [E(byte(t), 64) for t in d]
    return [S(z3.LShR(d0, 2)), S((d0 & 3) * 16 + z3.LShR(d1, 4)), S((d1 & 15) * 4 + z3.LShR(d2, 6)), S(d2 & 63)]


def orig(x, b):
    return recombine([f(E(b, 64)) for f in x.sx])


def dec_valid(x, cs):
    rd = getattr(x, 'rd', None) or x.inp.chain.read

    def f(b):
        i = mul(b, 3)
        h1, h2 = ult(add(i, 1), x.n_), ult(add(i, 2), x.n_)
        v = [cs(zx(g(E(b, 64)))) for g in x.sx]
        w = [v[0], v[1], ite(h1, v[2], 61, 8), ite(h2, v[3], 61, 8)]
        return implies(ult(b, nblk(x.n_, 3)), b_and(*[eq(rd(add(mul(b, 4), j)), w[j], 8) for j in range(4)]))
    x.st.facts.append(Fact(None, f))


def monus(x, ctx, k):
    """what is left of the input after #it blocks of k"""
    out = [Cand('blocks', lambda s, pv: ule(pv['#it'], nblk(x.N, k)))]
    for n, g, w, kind in ctx.V:
        if w == 64 and not kind:
            out.append(Cand(f'{n}==N-{k}it', lambda s, pv, g=g: eq(g(s, pv), ite(ult(mul(pv['#it'], k), x.N), sub(x.N, mul(pv['#it'], k)), 0))))
    return out


def dec_hint(x, ctx):
    out = monus(x, ctx, 4)
    tab = getattr(x, 'tab_cs', None)
    for r in ctx.blobs:
        reg = ctx.st0.regs[r]
        if reg.src == 'stack' and isc(reg.size) and reg.size == 256 and tab is not None:
            def prop(s, pv, r=r):
                v = bv('v')
                return implies(b_and(ult(v, pv['#it']), ult(v, 64)), eq(s.regs[r].chain.read(zx(tab(v))), S(z3.Extract(7, 0, v)), 8))

            def fact(s, pv, r=r):
                ch = s.regs[r].chain
                s.facts.append(Fact(tab, lambda v: implies(b_and(ult(v, pv['#it']), ult(v, 64)), eq(ch.read(zx(tab(v))), S(z3.Extract(7, 0, v)), 8))))
            out.append(Cand('index', prop, fact))
        elif x.mode == 'valid':
            def prop2(s, pv, r=r):
                ch = s.regs[r].chain
                i = mul(x.B, 3)
                return implies(b_and(ult(x.B, pv['#it']), ult(x.B, nblk(x.n_, 3))),
                               b_and(*[implies(ult(add(i, j), x.n_), eq(ch.read(add(i, j)), orig(x, x.B)[j], 8)) for j in range(3)]))
            out.append(Cand('bytes', prop2))
    if x.mode == 'valid':
        for n, g, w, kind in ctx.V:
            if kind and kind[0] == 'ptr':
                v0 = g(ctx.st0, ctx.pv0)
                out.append(Cand('outpos', lambda s, pv, g=g, v0=v0: eq(sub(g(s, pv), v0), ite(ult(pv['#it'], nblk(x.n_, 3)), mul(pv['#it'], 3), x.n_))))
    return out


def dec_post(x, lenv, ch):
    x.ob('mem', ule(lenv, x.outmax), 'output is at most three bytes per block')
    if x.mode == 'valid':
        x.ob('func', eq(lenv, x.n_), 'decoding the encoding returns the original length')
        i = mul(x.B, 3)
        for j in range(3):
            x.ob('func', implies(b_and(ult(x.B, nblk(x.n_, 3)), ult(add(i, j), x.n_)), eq(ch(add(i, j)), orig(x, x.B)[j], 8)),
                 'decoding the encoding returns the original bytes')


def decbuf(x):
    N, p = dec_pre(x, x.cfg['in'])
    ln = x.cell('len', N)
    d = x.blob('dest', x.outmax, True)
    if x.cfg['cs'] == 'null':
        tp = NULL
        cs = std_alphabet(x)
        if x.mode == 'valid':
            if cs is None:
                raise Unsupported('no standard alphabet constant')
            std_facts(x, cs)
            dec_valid(x, cs)
    else:
        t = x.blob('index', 256)
        tp = Ptr(t.id, 0)
        if x.mode == 'valid':
            cs = base_chain('alpha').a
            ix = t.chain.a
            x.st.facts.append(Fact(cs, lambda v: implies(ult(v, 64), b_and(b_not(eq(cs(v), 61, 8)), eq(ix(zx(cs(v))), S(z3.Extract(7, 0, v)), 8)))))
            dec_valid(x, cs)

    def post(x, s, o):
        if normal(x, o):
            dec_post(x, s.regs[ln.r].cells[0][1], s.regs[d.id].chain.read)
            x.leaks()
    return [p, ln, Ptr(d.id, 0), tp], post


DC = [{'cs': a, 'in': b} for a in ('null', 'given') for b in ('any', 'valid')]
spec('e_b64dec_buf', decbuf, cfgs=DC, props=['C11'], hints=[dec_hint], use_it=True)


def dec_alphabet(x):
    csp, cs = alphabet(x)
    if x.cfg['cs'] != 'null':
        x.tab_cs = cs
    if x.mode == 'valid':
        dec_valid(x, cs)
    return csp


def decdup(x):
    N, p = dec_pre(x, x.cfg['in'])
    ln = x.cell('len', N)
    csp = dec_alphabet(x)

    def post(x, s, o):
        if normal(x, o, ('throw',)):
            r = s.regs[o.v.r]
            x.keep.add(o.v.r)
            n = s.regs[ln.r].cells[0][1]
            x.ob('mem', b_and(o.v.r != 0, not r.freed, eq(o.v.o, 0)), 'returns a fresh allocation')
            dec_post(x, n, r.chain.read)
            x.ob('func', b_and(ult(n, r.size), eq(r.chain.read(n), 0, 8)), 'result is terminated')
        x.leaks()
    return [p, ln, csp], post


spec('e_b64dec', decdup, cfgs=DC, props=['C11'], hints=[dec_hint], use_it=True, unroll=0)


REPS = ('null', 'nobuf', 'buf')


def encstr(x):
    p, src = x.string('s', x.cfg['s'])
    csp, cs = alphabet(x)
    x.B = x.n('block')
    x.st.add_idx(x.B)
    x.N, x.cs, x.inp = src.n, cs, src.at
    x.outlen = mul(nblk(src.n, 3), 4)
    r = x.raw('result')

    def post(x, s, o):
        if normal(x, o, ('throw',)):
            x.exit_objs([p, r])
            v = x.seq_of(r)
            enc_post(x, src.at, src.n, v.n, v.at)
        else:
            x.exit_objs([p])
        x.unchanged('s')
    return [r, p, csp], post


spec('e_base64Encode', encstr, cfgs=[{'s': r, **c} for r in REPS for c in CS], props=['C11'], hints=[enc_hint], use_it=True)


def decstr(x):
    p, src = x.string('s', x.cfg['s'])
    x.mode = x.cfg['in']
    r = x.raw('result')
    x.outmax = mul(nblk(src.n, 4), 3)
    if x.mode == 'valid':
        x.n_ = x.n('n', hi=CAP)
        x.st.assume(eq(src.n, mul(nblk(x.n_, 3), 4)))
        x.sx = [z3.Function(fresh_name(f'sx{j}'), BV64, z3.BitVecSort(8)) for j in range(4)]
        for f in x.sx:
            x.st.facts.append(Fact(f, lambda b, f=f: ult(f(b), 64, 8)))
        x.B = x.n('block')
        x.st.add_idx(x.B)
    x.rd = src.at
    csp = dec_alphabet(x)

    def post(x, s, o):
        if normal(x, o, ('throw',)):
            x.exit_objs([p, r])
            v = x.seq_of(r)
            dec_post(x, v.n, v.at)
        else:
            x.exit_objs([p])
        x.unchanged('s')
    return [r, p, csp], post


spec('e_base64Decode', decstr, cfgs=[{'s': 'null', 'cs': 'null', 'in': 'any'}, {'s': 'nobuf', 'cs': 'given', 'in': 'any'}] + [{'s': 'buf', **c} for c in DC],
     props=['C11'], hints=[dec_hint], use_it=True, unroll=0)


def REPLAY():
    from .replay_native import NativeReplay
    return NativeReplay('replay_flat.cpp')


def make_runner(mod, L):
    def ext(M):
        M.opaque = 64
    return FRunner(mod, L, '_ZTVN2bd6StringE', ext=ext)
