"""Text functions (tu/text.cpp): split, newsplit, join, sub, subst, operator*, printf, case-insensitive search.
String operations are used through the contracts of suite str (bdv/val.py).  Results defined by recursion over the text
(sub, join, repetition) are specified by their defining equations (class Rec); the pieces of split by a ghost acceptor."""
import re
import z3
from .sym import *
from .exe import Outcome, Kill
from .ir import Unsupported
from .obj import Seq, seq_cat, seq_empty, seq_sub, CAP, umin, umax
from .free import FSpec, FRunner
from .loops import Cand, forall_val, is_val
from . import val, libc, strspec
from .val import SVal, fresh_sval, cstr_arg, seq_val
from .spec import OOR, NPOS
from .strspec import BV64

SPECS = {}
RET = lambda s, v=None: (s, Outcome('ret', v))


def spec(name, body, **kw):
    SPECS[name] = FSpec(name, body, **kw)


def mk_str(x, name, raw=False, nonempty=False):
    r = x.st.new_region(name, 'obj', x.R.L['sizeof_str'], 'arg')
    r.meta['struct'] = True
    p = Ptr(r.id, 0)
    if raw:
        return p, None
    v = fresh_sval(x.st, name)
    x.watch.append((name + '.len', v.n))
    x.M.V.put(x.st, p, v)
    return p, Seq(v.n, v.at)


BADALLOC = '_ZTISt9bad_alloc'


def ok(x, o):
    if o.kind == 'ret':
        return True
    if o.kind == 'throw' and o.v == BADALLOC:
        return False             # memory exhausted
    x.ob('exc', False, f'function returns normally ({o.kind} {o.v})')
    return False


def skolem(M, st, got, want):
    """valid(got == want)"""
    if M.sol.valid(st, eq(got.n, want.n)) is not True:
        return False
    k = bv('k')
    s = st.clone()
    s.assume(ult(k, want.n))
    s.add_idx(k)
    return M.sol.valid(s, eq(got.at(k), want.at(k), 8)) is True


# ---- search in a registered text ------------------------------------------------------------------------
class Find:
    """first(i): what find of needle in text from position i on returns (contract e_find / e_findp)"""

    def __init__(self, T, S, char=None):
        self.T, self.S, self.char = T, S, char
        self.f = z3.Function(fresh_name('first'), BV64, BV64)

    def first(self, st, i):
        r = self.f(E(i, 64))
        m = 1 if self.char is not None else self.S.n
        left = sub(self.T.n, i)
        st.assume(ite_b(eq(m, 0), eq(r, 0), b_or(eq(r, NPOS), b_and(ule(m, left), ule(r, sub(left, m))))))
        if self.char is not None:
            st.assume(implies(b_not(eq(r, NPOS)), eq(self.T.at(add(i, r)), self.char, 8)))
        return r


def ite_b(c, a, b):
    return b_and(implies(c, a), b_or(c, b))


def find_handler(sname):
    base = val.handler(sname)

    def h(M, st, a, ins, env):
        for F in M.finds:
            if (F.char is not None) != (sname in ('e_find_item', 'e_find_itemp')):
                continue
            hay = M.V.seq(st, a[0])
            i = sub(F.T.n, hay.n)
            if M.sol.valid(st, ule(hay.n, F.T.n)) is not True or not skolem(M, st, hay, Seq(hay.n, lambda k: F.T.at(add(i, k)))):
                continue
            if F.char is not None:
                c = M.load(st, a[1], ('i', 8)) if isinstance(a[1], Ptr) else a[1]
                if M.sol.valid(st, eq(c, F.char, 8)) is not True:
                    continue
            elif not skolem(M, st, M.V.seq(st, a[1]), F.S):
                continue
            out = []
            p = 0
            if sname in ('e_findp', 'e_find_itemp'):
                p = a[2]
                bey = ult(hay.n, p)
                if M.sol.feasible(st, bey):
                    sx = st.clone()
                    sx.assume(bey)
                    out.append((sx, Outcome('throw', OOR)))
                    st.assume(b_not(bey))
                    if not M.sol.feasible(st, True):
                        return out
            return out + [RET(st, F.first(st, add(i, p)))]
        return base(M, st, a, ins, env)
    h.is_contract = sname
    return h


def rfind_handler(M, st, a, ins, env):
    for F in M.rfinds:
        if skolem(M, st, M.V.seq(st, a[0]), F.T) and skolem(M, st, M.V.seq(st, a[1]), F.S):
            return [RET(st, F.f(E(a[2], 64)))]
    return val.handler('e_rfind')(M, st, a, ins, env)


rfind_handler.is_contract = 'e_rfind'


# ---- results defined by recursion ------------------------------------------------------------------------
class Cong:
    """objects keyed by terms: provably equal keys give the same object"""

    def __init__(self, M, make):
        self.M, self.make, self.items = M, make, []

    def get(self, st, key):
        for k, v in reversed(self.items):
            if all((isc(a) and isc(b) and a == b) or (not isc(a) and not isc(b) and a.eq(b)) for (a, _), (b, _) in zip(k, key)):
                return v
        for k, v in reversed(self.items):
            c = b_and(*[eq(a, b, w) for (a, w), (b, _) in zip(k, key)])
            if c is True or (c is not False and self.M.sol.valid(st, c) is True):
                return v
        v = self.make(st, key)
        self.items.append((tuple(key), v))
        return v


class Inst:
    pass


class Rec:
    """text(key) defined by the equation text(key) = segments(key) [++ text(next(key))], case by case"""

    def __init__(self, x, cases, ks):
        self.x, self.cases, self.ks = x, cases, ks
        self.C = Cong(x.M, self.make)

    def make(self, st, key):
        i = Inst()
        i.key = tuple(key)
        i.n = bv('rest_n')
        i.fn = base_chain('rest').a
        i.unf = None
        return i

    def get(self, st, key):
        key = tuple((k, w) for k, w in zip(key, self.ks))
        i = self.C.get(st, key)
        return i

    def unfold(self, st, i):
        """add the defining equation of this instance (lengths: whenever the result fits in memory)"""
        tag = ('unf', id(i))
        if st.ghost.get(tag):
            return
        st.ghost[tag] = i
        cs = self.cases(st, *[k for k, w in i.key])          # also states what the cases refer to
        if i.unf is None:
            i.unf = []
            for cond, segs, nxt in cs:
                j = None
                if nxt is not None:
                    j = self.C.get(st, tuple((k, w) for k, w in zip(nxt, self.ks)))
                i.unf.append((cond, segs, j))
        for cond, segs, j in i.unf:
            tot = 0
            fit = True
            for q in segs:
                tot = add(tot, q.n)
                fit = b_and(fit, ule(q.n, i.n), ule(tot, i.n))
            rest = j.n if j is not None else 0
            st.assume(implies(b_and(cond, ule(i.n, CAP)), b_and(fit, ule(rest, i.n), eq(i.n, add(tot, rest)))))

            def at2(k, segs=segs, j=j):
                def go(n, off):
                    if n == len(segs):
                        return j.fn(E(sub(k, off), 64)) if j is not None else 0
                    q = segs[n]
                    end = add(off, q.n)
                    return ite(ult(k, end), q.at(sub(k, off)), go(n + 1, end), 8)
                return go(0, 0)
            st.facts.append(Fact(i.fn, lambda k, cond=cond, at2=at2, n=i.n: implies(b_and(cond, ule(n, CAP), ult(k, n)), eq(i.fn(E(k, 64)), at2(k), 8))))


def rec_hints(keys):
    """loop invariant: accumulated text ++ text(key of the loop state) == text(first key)"""
    def hint(x, ctx):
        out = []
        rec, R0 = x.rec, x.rec0
        accs = [(r, o) for n, g, w, kind in ctx.V if kind and kind[0] == 'val' for r, o in [kind[1:]]]
        for kname, kf in keys(x, ctx):
            for r, o in accs:
                n = lambda s, r=r, o=o: s.regs[r].cells[o][1].n

                def rest(s, pv, kf=kf):
                    return rec.get(s, kf(s, pv))

                def p_len(s, pv, rest=rest, n=n):
                    i = rest(s, pv)
                    return b_and(ule(n(s), R0.n), ule(i.n, R0.n), eq(add(n(s), i.n), R0.n))

                def f_len(s, pv, rest=rest, n=n, p=p_len):
                    s.assume(p(s, pv))
                    rec.unfold(s, rest(s, pv))

                def p_rest(s, pv, rest=rest, n=n):
                    i = rest(s, pv)
                    k = bv('sk')
                    return implies(ult(k, i.n), eq(R0.fn(E(add(n(s), k), 64)), i.fn(E(k, 64)), 8))

                def f_rest(s, pv, rest=rest, n=n):
                    i = rest(s, pv)
                    nn = n(s)
                    s.facts.append(Fact(R0.fn, lambda k: implies(b_and(ule(nn, k), ult(sub(k, nn), i.n)), eq(R0.fn(E(k, 64)), i.fn(E(sub(k, nn), 64)), 8))))
                    rec.unfold(s, i)
                out.append(Cand(f'{r}.{o}+{kname} length', p_len, f_len))
                out.append(Cand(f'{r}.{o}+{kname} rest', p_rest, f_rest))
        for r, o in accs:
            out.append(forall_val(f'{r}.{o} prefix of result', r, o, lambda i, n, s, pv: ult(i, n), lambda i, v, n: eq(v, R0.fn(E(i, 64)), 8)))
            out.append(Cand(f'{r}.{o} fits', lambda s, pv, r=r, o=o: ule(s.regs[r].cells[o][1].n, R0.n)))
        return out
    return hint


def rec_post(x, s, rp):
    for i in [j for t, j in list(s.ghost.items()) if isinstance(t, tuple) and t[0] == 'unf']:
        for cond, segs, j in i.unf:        # the loop may have stopped one step further
            if j is not None and x.M.sol.feasible(s, cond):
                x.rec.unfold(s, j)
    x.same('text', x.M.V.seq(s, rp), Seq(x.rec0.n, lambda k: x.rec0.fn(E(k, 64))), 'result is the specified text')


# ---- sub --------------------------------------------------------------------------------------------------
def b_sub(x):
    st = x.st
    rp, _ = mk_str(x, 'r', raw=True)
    sp, T = mk_str(x, 's')
    ap, A = mk_str(x, 'search')
    bp, Bq = mk_str(x, 'repl')
    lim = x.n('limit', 32)
    F = Find(T, A)
    x.M.finds = [F]
    x.M.rfinds = []
    x.T = T
    x.lim = lim

    def cases(st, i, l):
        p = F.first(st, i)
        hit = b_and(b_not(eq(A.n, 0)), b_not(eq(l, 0, 32)), b_not(eq(p, NPOS)))
        return [(hit, [Seq(p, lambda k: T.at(add(i, k))), Bq], (add(i, add(p, A.n)), ite(slt(0, l, 32), sub(l, 1, 32), l, 32))),
                (b_not(hit), [Seq(sub(T.n, i), lambda k: T.at(add(i, k)))], None)]
    x.rec = Rec(x, cases, (64, 32))
    x.rec0 = x.rec.get(st, (0, lim))
    st.assume(ule(x.rec0.n, CAP))
    x.rec.unfold(st, x.rec0)

    def post(x, s, o):
        if ok(x, o):
            rec_post(x, s, rp)
            for nm, p, q in (('s', sp, T), ('search', ap, A), ('replacement', bp, Bq)):
                x.same('perm', x.M.V.seq(s, p), q, nm + ' is left unchanged')
    return [rp, sp, ap, bp, lim], post


def slt(a, b, w):
    return b_not(sle(b, a, w))


def sub_keys(x, ctx):
    out = []
    ls = [('lim', lambda s, pv: x.lim)]
    for n, g, w, kind in ctx.V:
        if w == 32:
            v0 = g(ctx.st0, ctx.pv0)
            ls.append((n, g))
            ls.append(('lim-' + n, lambda s, pv, g=g, v0=v0: sub(x.lim, sub(g(s, pv), v0, 32), 32)))
    for n, g, w, kind in ctx.V:
        if w == 64 and kind and kind[0] == 'val':
            for ln, lg in ls:
                out.append((f'(T-{n},{ln})', lambda s, pv, g=g, lg=lg: (sub(x.T.n, g(s, pv)), lg(s, pv))))
        elif w == 64:
            for ln, lg in ls:
                out.append((f'({n},{ln})', lambda s, pv, g=g, lg=lg: (g(s, pv), lg(s, pv))))
    return out


def H_count(x, ctx):
    out = []
    for n, g, w, kind in ctx.V:
        if w == 32:
            out.append(Cand(f'0<={n}<lim', lambda s, pv, g=g: implies(slt(0, x.lim, 32), b_and(sle(0, g(s, pv), 32), slt(g(s, pv), x.lim, 32)))))
            out.append(Cand(f'0<={n}<=lim', lambda s, pv, g=g: implies(slt(0, x.lim, 32), b_and(sle(0, g(s, pv), 32), sle(g(s, pv), x.lim, 32)))))
            out.append(Cand(f'{n}=0 unless counted', lambda s, pv, g=g: b_or(slt(0, x.lim, 32), eq(g(s, pv), 0, 32))))
    return out


spec('e_sub', b_sub, props=['C20'], hints=[rec_hints(sub_keys), H_count])


# ---- repetition ---------------------------------------------------------------------------------------------
def b_times(x):
    st = x.st
    rp, _ = mk_str(x, 'r', raw=True)
    sp, T = mk_str(x, 's')
    n = x.n('times', 32)
    st.assume(sle(0, n, 32))
    x.n_ = n
    x.M.finds, x.M.rfinds = [], []

    def cases(st, i):
        more = ult(i, n, 32)
        return [(more, [T], (add(i, 1, 32),)), (b_not(more), [], None)]
    x.rec = Rec(x, cases, (32,))
    x.rec0 = x.rec.get(st, (0,))
    st.assume(ule(x.rec0.n, CAP))
    x.rec.unfold(st, x.rec0)

    def post(x, s, o):
        if ok(x, o):
            rec_post(x, s, rp)
            x.same('perm', x.M.V.seq(s, sp), T, 's is left unchanged')
    return [rp, sp, n], post


def times_keys(x, ctx):
    out = []
    for n, g, w, kind in ctx.V:
        if w == 32:
            out.append((n, lambda s, pv, g=g: (g(s, pv),)))
            out.append(('n-' + n, lambda s, pv, g=g: (sub(x.n_, g(s, pv), 32),)))
        elif w == 64 and kind is None:
            lo = lambda v: v & mask(32) if isc(v) else S(z3.Extract(31, 0, v))
            out.append((n, lambda s, pv, g=g: (lo(g(s, pv)),)))
    return out


spec('e_times', b_times, props=['C20'], hints=[rec_hints(times_keys)])


# ---- newsplit -------------------------------------------------------------------------------------------------
def b_newsplit(x):
    st = x.st
    rp, _ = mk_str(x, 'r', raw=True)
    sp, T = mk_str(x, 's')
    d = x.n('delim', 8)
    F = Find(T, None, d)
    x.M.finds, x.M.rfinds = [F], []
    blank = eq(d, 32, 8)
    st.assume(blank if x.cfg['delim'] == 'blank' else b_not(blank))
    p0 = F.first(st, 0)
    p = ite(eq(p0, NPOS), T.n, p0)
    e = bv('e')              # where the rest starts
    nx = umin(add(p, 1), T.n)
    if x.cfg['delim'] == 'blank':
        st.assume(b_and(ule(nx, e), ule(e, T.n)))
        strspec.g_forall(st, None, nx, e, T.at, lambda v: eq(v, 32, 8))
        st.assume(implies(ult(e, T.n), b_not(eq(T.at(e), 32, 8))))
        st.add_idx(e)
    else:
        st.assume(eq(e, nx))
    x.e = e

    def post(x, s, o):
        if ok(x, o):
            x.same('text', x.M.V.seq(s, rp), Seq(p, T.at), 'returned token is the text before the first delimiter')
            x.same('text', x.M.V.seq(s, sp), Seq(sub(T.n, e), lambda k: T.at(add(e, k))), 'token and delimiter (and following blanks) are removed from the source')
    return [rp, sp, d], post


def H_newsplit(x, ctx):
    out = []
    for n, g, w, kind in ctx.V:
        if w == 64:
            for dlt in (0, 1):
                out.append(Cand(f'{n}+{dlt}<=e', lambda s, pv, g=g, dlt=dlt: b_and(ule(g(s, pv), CAP), ule(add(g(s, pv), dlt), x.e))))
    return out


spec('e_newsplit', b_newsplit, cfgs=[{'delim': 'blank'}, {'delim': 'other'}], props=['C19'], hints=[H_newsplit])


# ---- case-insensitive search -----------------------------------------------------------------------------------
def upper(v):
    """what toupper (C locale) makes of a character"""
    lo = b_and(ule(97, v, 8), ule(v, 122, 8))
    return ite(lo, sub(v, 32, 8), v, 8)


def b_ifind(rev):
    def body(x):
        st = x.st
        sp, T = mk_str(x, 's')
        op, O = mk_str(x, 'o')
        UT, UO = Seq(T.n, lambda k: upper(T.at(k))), Seq(O.n, lambda k: upper(O.at(k)))
        F = Find(UT, UO)
        x.M.finds, x.M.rfinds = ([], [F]) if rev else ([F], [])
        args = [sp, op]
        if rev:
            lp = x.n('lpos')
            args.append(lp)

        def post(x, s, o):
            if ok(x, o):
                if rev:
                    x.ob('text', eq(o.v, F.f(E(lp, 64))), 'result is that of rfind on the upper-cased texts')
                else:
                    x.ob('text', eq(o.v, F.first(s, 0)), 'result is that of find on the upper-cased texts')
                x.same('perm', x.M.V.seq(s, sp), T, 's is left unchanged')
                x.same('perm', x.M.V.seq(s, op), O, 'o is left unchanged')
        return args, post
    return body


def H_upper(x, ctx):
    """elements appended so far are the upper-cased source"""
    out = []
    for n, g, w, kind in ctx.V:
        if kind and kind[0] == 'val':
            r, o = kind[1:]
            for m, h, w2, k2 in ctx.V:
                if k2 and k2[0] == 'ptr' and k2[1] and ctx.st0.regs[k2[1]].kind == 'blob':
                    ch = ctx.st0.regs[k2[1]].chain
                    out.append(Cand(f'{n}=={m}', lambda s, pv, g=g, h=h: eq(g(s, pv), h(s, pv))))
                    out.append(forall_val(f'{n} upper of {m}', r, o, lambda i, k, s, pv: ult(i, k), lambda i, v, k, ch=ch: eq(v, upper(ch.read(i)), 8)))
    return out


spec('e_ifind', b_ifind(False), props=['C09'], hints=[H_upper])
spec('e_rifind', b_ifind(True), props=['C09'], hints=[H_upper])


# ---- printf -------------------------------------------------------------------------------------------------------
def b_printf(x):
    st = x.st
    rp, _ = mk_str(x, 'r', raw=True)
    fp, fq = x.cstr('format')
    a = x.n('arg', 32)
    x.M.finds, x.M.rfinds = [], []
    N = x.n('formatted', 32)          # length of the formatted text, or a negative value when formatting fails
    text = base_chain('formatted')
    st.ghost['fmt'] = (fp.r, N, text)

    def post(x, s, o):
        if ok(x, o):
            n = ite(sle(0, N, 32), zext(N, 32), 0)
            x.same('text', x.M.V.seq(s, rp), Seq(n, text.read), 'result is the complete formatted text (empty if formatting fails)')
            x.ob('mem', not s.ghost.get('va_open'), 'argument list is closed')
            x.leaks()
    return [rp, fp, a], post


def zext(v, w):
    return v if isc(v) else S(z3.ZeroExt(64 - w, v))


def va_start(M, st, a, ins, env):
    st.ghost['va'] = 'fresh'
    st.ghost['va_open'] = True
    return None


def va_end(M, st, a, ins, env):
    st.ghost['va_open'] = False
    return None


def c_vsnprintf(M, st, a, ins, env):
    buf, size, fmt = a[:3]
    M.oblige(st, 'mem', st.ghost.get('va') == 'fresh' and st.ghost.get('va_open', False), 'argument list is started and not yet consumed')
    st.ghost['va'] = 'used'
    reg, N, text = st.ghost['fmt']
    if fmt.r != reg:
        raise Unsupported('another format')
    M.oblige(st, 'text', eq(fmt.o, 0), 'the given format is used')
    # buffer: writes min(N, size-1) bytes and a terminator when size is not 0
    M.access(st, buf, size, True, 'vsnprintf destination')
    good = sle(0, N, 32)
    w = ite(good, umin(zext(N, 32), sub(size, 1)), 0)
    g = st.regs[buf.r]
    if g.kind == 'obj':
        M.to_blob(st, st.wr(buf.r), 1)
    g = st.wr(buf.r)
    old = g.chain
    n = bv('fill')
    hav = base_chain('vs')
    o = buf.o
    # on failure the contents are unspecified
    g.chain = Chain('fun', old, (o, size, lambda k: ite(good, ite(ult(k, w), text.read(k), ite(eq(k, w), 0, hav.read(k), 8), 8), hav.read(k), 8)), 8)
    return N


spec('e_printf', b_printf, props=['C20'])


# ---- arrays of strings ------------------------------------------------------------------------------------------------
class AVal:
    """value of an Array<String>: number of elements; the elements went through the ghost acceptor, or lie in an element region"""
    __slots__ = ('n', 'elems')
    is_value = True

    def __init__(self, n, elems=None):
        self.n, self.elems = n, elems

    def fresh(self, st):
        n = bv('arr_n')
        st.assume(ule(n, CAP))
        return AVal(n, self.elems)

    def seq(self, st):
        return None


def aval(M, st, p):
    if not isinstance(p, Ptr) or not isc(p.o):
        raise Unsupported('array at a symbolic address')
    c = st.regs[p.r].cells.get(p.o) if st.regs[p.r].kind == 'obj' else None
    if c is None or not isinstance(c[1], AVal):
        raise Unsupported('not an array value')
    return c[1]


def aput(M, st, p, v):
    r = st.wr(p.r)
    size = M.L['sizeof_arr']
    r.meta['struct'] = True
    for o in list(r.cells):
        if p.o <= o < p.o + size:
            del r.cells[o]
    r.cells[p.o] = (size, v)


def a_default(M, st, a, ins, env):
    aput(M, st, a[0], AVal(0))
    return None


def a_cap(M, st, a, ins, env):
    aput(M, st, a[0], AVal(0))
    return None


def a_dtor(M, st, a, ins, env):
    aval(M, st, a[0])
    st.wr(a[0].r).cells.pop(a[0].o, None)
    return None


def a_size(M, st, a, ins, env):
    return aval(M, st, a[0]).n


def a_push(M, st, a, ins, env):
    v = aval(M, st, a[0])
    if v.elems is not None:
        raise Unsupported('element appended to the operand')
    M.mon.step(M, st, v, M.V.seq(st, a[1]))
    aput(M, st, a[0], AVal(add(v.n, 1)))
    return a[0]


def a_il(M, st, a, ins, env):
    """Array(initializer_list): the elements in order"""
    p, n = a[1], a[2]
    if not isc(n) or n > 8:
        raise Unsupported('initializer list')
    v = AVal(0)
    for k in range(n):
        M.mon.step(M, st, v, M.V.seq(st, Ptr(p.r, add(p.o, k * M.L['sizeof_str']))))
        v = AVal(v.n + 1)
    aput(M, st, a[0], v)
    return None


def a_elem(M, st, a, ins, env):
    v = aval(M, st, a[0])
    if v.elems is None:
        raise Unsupported('element of a built array')
    i = a[1] if len(a) > 1 else 0
    return Ptr(v.elems, mul(i, M.L['sizeof_str']))


def a_end(M, st, a, ins, env):
    v = aval(M, st, a[0])
    if v.elems is None:
        raise Unsupported('element of a built array')
    return Ptr(v.elems, mul(v.n, M.L['sizeof_str']))


AR = r'bd::ReferenceCountedArray<bd::String, std::allocator<bd::String> >'
AA = r'(?:bd::Array<bd::String>|' + AR + ')'
ATAB = [
    (r'bd::Array<bd::String>::Array\(\)', a_default),
    (AA + r'::ReferenceCountedArray\(std::initializer_list<bd::String>\)', a_il),
    (r'bd::Array<bd::String>::Array\(std::initializer_list<bd::String>\)', a_il),
    (AA + r'::(?:ReferenceCountedArray|Array)\(unsigned long, std::allocator<bd::String> const&\)', a_cap),
    (AA + r'::~(?:ReferenceCountedArray|Array)\(\)', a_dtor),
    (AR + r'::(?:size|length)\(\) const', a_size),
    (AR + r'::(?:push_back|append)\(bd::String(?: const&|&&)\)', a_push),
    (r'bd::operator<<\(bd::Array<bd::String>&, bd::String(?: const&|&&)\)', a_push),
    (AR + r'::(?:constBuf|operator\[\]|at|read)\(unsigned long\) const', a_elem),
    (AR + r'::(?:begin|cbegin|data)\(\) const', a_elem),
    (AR + r'::(?:end|cend)\(\) const', a_end),
]
for _p, _h in ATAB:
    _h.is_contract = 'Array<String>'


class Mon:
    """acceptor of the pieces of split: i next position, c pieces so far, done"""

    def __init__(self, x, T, D, lim, blank, F):
        st = x.st
        r = st.new_region('accept', 'obj', 24, 'ghost')
        r.meta['struct'] = True
        r.cells[0], r.cells[8], r.cells[16] = (8, 0), (8, 0), (8, 0)
        self.r, self.T, self.D, self.lim, self.blank, self.F = r.id, T, D, lim, blank, F
        self.sk = z3.Function(fresh_name('skip'), BV64, BV64)

    def get(self, st, o):
        return st.regs[self.r].cells[o][1]

    def skip(self, st, i):
        if not self.blank:
            return i
        T = self.T
        e = self.sk(E(i, 64))
        st.assume(implies(ule(i, T.n), b_and(ule(i, e), ule(e, T.n), implies(ult(e, T.n), b_not(eq(T.at(e), 32, 8))))))
        tag = ('skip', e.get_id())
        if tag not in st.ghost:
            st.ghost[tag] = e
            strspec.g_forall(st, None, i, e, T.at, lambda v: eq(v, 32, 8))
            st.add_idx(e)
        return e

    def step(self, M, st, v, q):
        T, lim = self.T, self.lim
        i, c, done = (self.get(st, o) for o in (0, 8, 16))
        M.oblige(st, 'text', eq(v.n, c), 'pieces are collected in one array')
        M.oblige(st, 'text', eq(done, 0), 'no piece after the last')
        M.oblige(st, 'text', b_not(eq(T.n, 0)), 'empty text has no pieces')
        j = ite(eq(lim, 1), i, self.skip(st, i))
        nol = eq(lim, NPOS)
        M.oblige(st, 'text', b_or(b_not(nol), ult(j, T.n)), 'without a limit there is no piece after the end of the text')
        p = self.F.first(st, j)
        last = b_or(b_and(b_not(nol), b_or(eq(c, sub(lim, 1)), ule(T.n, j))), eq(self.D.n, 0), eq(p, NPOS))
        n = ite(last, sub(T.n, j), p)
        M.oblige(st, 'text', eq(q.n, n), 'piece reaches to the next delimiter, the last one to the end (length)')
        k = bv('k')
        s2 = st.clone()
        s2.assume(ult(k, n))
        s2.add_idx(k)
        M.oblige(s2, 'text', eq(q.at(k), T.at(add(j, k)), 8), 'piece is the text there (character at any position)')
        g = st.wr(self.r)
        g.cells[0] = (8, ite(last, T.n, add(j, add(p, self.D.n))))
        g.cells[8] = (8, add(c, 1))
        g.cells[16] = (8, ite(last, 1, 0))

    def accept(self, x, s, v):
        i, c, done = (self.get(s, o) for o in (0, 8, 16))
        x.ob('text', eq(v.n, c), 'the array holds exactly these pieces')
        x.ob('text', b_or(eq(done, 1), eq(self.T.n, 0), b_and(eq(self.lim, NPOS), ule(self.T.n, self.skip(s, i)))), 'the pieces cover the whole text')


def b_split(x):
    st = x.st
    r = st.new_region('r', 'obj', x.R.L['sizeof_arr'], 'arg')
    r.meta['struct'] = True
    rp = Ptr(r.id, 0)
    sp, T = mk_str(x, 's')
    dp, D = mk_str(x, 'delim')
    lim = x.n('limit')
    st.assume(b_not(eq(lim, 0)))
    blank = b_and(eq(D.n, 1), eq(D.at(0), 32, 8))
    st.assume(blank if x.cfg['delim'] == 'blank' else b_not(blank))
    st.add_idx(0)
    F = Find(T, D)
    x.M.finds, x.M.rfinds = [F], []
    x.M.mon = x.mon = Mon(x, T, D, lim, x.cfg['delim'] == 'blank', F)

    def post(x, s, o):
        if ok(x, o):
            x.mon.accept(x, s, aval(x.M, s, rp))
            x.same('perm', x.M.V.seq(s, sp), T, 's is left unchanged')
            x.same('perm', x.M.V.seq(s, dp), D, 'delim is left unchanged')
    return [rp, sp, dp, lim], post


def H_split(x, ctx):
    m = x.mon
    out = []
    for n, g, w, kind in ctx.V:
        if w == 64:
            out.append(Cand(f'{n}<=skip', lambda s, pv, g=g: ule(g(s, pv), m.skip(s, m.get(s, 0)))))
            out.append(Cand(f'i<={n}', lambda s, pv, g=g: ule(m.get(s, 0), g(s, pv))))
            out.append(Cand(f'{n}==i', lambda s, pv, g=g: eq(m.get(s, 0), g(s, pv))))
            out.append(Cand(f'{n}<=T', lambda s, pv, g=g: ule(g(s, pv), m.T.n)))
            out.append(Cand(f'{n}==T-i', lambda s, pv, g=g: eq(sub(m.T.n, m.get(s, 0)), g(s, pv))))
    out.append(Cand('i<=T', lambda s, pv: ule(m.get(s, 0), m.T.n)))
    out.append(Cand('c<lim', lambda s, pv: ult(m.get(s, 8), m.lim)))
    return out


spec('e_split', b_split, cfgs=[{'delim': 'blank'}, {'delim': 'other'}], props=['C19'], hints=[H_split])


# ---- join ---------------------------------------------------------------------------------------------------------------
def b_join(x):
    st = x.st
    L = x.R.L
    sz = L['sizeof_str']
    rp, _ = mk_str(x, 'r', raw=True)
    r = st.new_region('a', 'obj', L['sizeof_arr'], 'arg')
    r.meta['struct'] = True
    n = x.n('elements')
    st.assume(ule(n, 1 << 50))
    el = st.new_region('elements', 'obj', mul(n, sz), 'arg')
    el.meta['struct'] = True

    def mk(s, key):
        v = fresh_sval(s, 'elem')
        el_facts.append(ule(v.n, CAP))
        return v
    el_facts = []
    C = Cong(x.M, mk)

    def elem(s, o):
        v = C.get(s, ((o, 64),))
        s.assume(ule(v.n, CAP))
        return v
    el.meta['elems'] = lambda M, s, o: (M.oblige(s, 'mem', ult(o, mul(n, sz)), 'element exists'), elem(s, o))[1]
    aput(x.M, st, Ptr(r.id, 0), AVal(n, el.id))
    dp, D = mk_str(x, 'delim')
    q = x.cfg['quoted']
    x.M.finds, x.M.rfinds = [], []
    Q = Seq(1, lambda k: 34)

    def cases(s, o):
        v = elem(s, o)
        e = Seq(v.n, v.at)
        body = [Q, e, Q] if q else [e]
        more = ult(o, mul(n, sz))
        first = eq(o, 0)
        return [(b_and(more, first), body, (add(o, sz),)),
                (b_and(more, b_not(first)), [D] + body, (add(o, sz),)),
                (b_not(more), [], None)]
    x.rec = Rec(x, cases, (64,))
    x.rec0 = x.rec.get(st, (0,))
    st.assume(ule(x.rec0.n, CAP))
    x.rec.unfold(st, x.rec0)
    x.sz = sz

    def post(x, s, o):
        if ok(x, o):
            rec_post(x, s, rp)
            x.same('perm', x.M.V.seq(s, dp), D, 'delim is left unchanged')
    return [rp, Ptr(r.id, 0), dp, q], post


def join_keys(x, ctx):
    out = []
    for n, g, w, kind in ctx.V:
        if w == 64 and kind is None:
            out.append((n, lambda s, pv, g=g: (mul(g(s, pv), x.sz),)))
        elif w == 64 and kind[0] == 'ptr':
            out.append((n, lambda s, pv, g=g: (g(s, pv),)))
    return out


spec('e_join', b_join, cfgs=[{'quoted': False}, {'quoted': True}], props=['C19'], hints=[rec_hints(join_keys)])


# ---- subst ----------------------------------------------------------------------------------------------------------------
class Subs:
    """the substitutions made so far: current text, offset of the next table entry"""

    def __init__(self, x, T, n, tab, elem, sz):
        self.n, self.tab, self.elem, self.sz, self.psz = n, tab, elem, sz, 2 * sz
        r = x.st.new_region('substituted', 'obj', sz + 8, 'ghost')
        r.meta['struct'] = True
        r.cells[sz] = (8, 0)
        self.r = r.id
        x.M.V.put(x.st, Ptr(r.id, 0), T)

    def call(self, M, st, a, ins, env):
        dst, this, k, v, lim = a
        o = st.regs[self.r].cells[self.sz][1]
        V = M.V

        def same(got, want, msg):
            M.oblige(st, 'text', eq(got.n, want.n), msg + ' (length)')
            j = bv('k')
            s2 = st.clone()
            s2.assume(ult(j, want.n))
            s2.add_idx(j)
            M.oblige(s2, 'text', eq(got.at(j), want.at(j), 8), msg + ' (element at any position)')
        M.oblige(st, 'text', ult(o, mul(self.n, self.psz)), 'one substitution per table entry')
        M.oblige(st, 'text', eq(lim, (1 << 32) - 1, 32), 'all occurrences are substituted')
        same(V.seq(st, this), V.seq(st, Ptr(self.r, 0)), 'the result so far is substituted in')
        ek, ev = self.elem(st, o), self.elem(st, add(o, self.sz))
        same(V.seq(st, k), Seq(ek.n, ek.at), 'the key of the next entry is searched')
        same(V.seq(st, v), Seq(ev.n, ev.at), 'the value of the next entry replaces it')
        res = fresh_sval(st, 'substituted')
        V.put(st, dst, res)
        V.put(st, Ptr(self.r, 0), res)
        st.wr(self.r).cells[self.sz] = (8, add(o, self.psz))
        return [RET(st, None)]


def h_sub(M, st, a, ins, env):
    if M.subs is None:
        return None
    return M.subs.call(M, st, a, ins, env)


h_sub.is_contract = 'e_sub'


def b_subst(x):
    st = x.st
    L = x.R.L
    sz = L['sizeof_str']
    rp, _ = mk_str(x, 'r', raw=True)
    sp, T = mk_str(x, 's')
    n = x.n('entries')
    st.assume(ule(n, 1 << 50))
    tab = st.new_region('entries', 'obj', mul(n, 2 * sz), 'arg')
    tab.meta['struct'] = True
    C = Cong(x.M, lambda s, key: fresh_sval(s, 'entry'))

    def elem(s, o):
        v = C.get(s, ((o, 64),))
        s.assume(ule(v.n, CAP))
        return v
    tab.meta['elems'] = lambda M, s, o: (M.oblige(s, 'mem', ult(o, mul(n, 2 * sz)), 'entry exists'), elem(s, o))[1]
    h = st.new_region('h', 'obj', L['sizeof_ht'], 'arg')
    h.meta['struct'] = True
    x.M.finds, x.M.rfinds = [], []
    x.M.ht = (h.id, tab.id, n, 2 * sz)
    x.M.subs = x.subs = Subs(x, x.M.V.raw(st, sp), n, tab.id, elem, sz)

    def post(x, s, o):
        if ok(x, o):
            x.same('text', x.M.V.seq(s, rp), x.M.V.seq(s, Ptr(x.subs.r, 0)), 'result is the text after the last substitution')
            x.ob('text', eq(s.regs[x.subs.r].cells[sz][1], mul(n, 2 * sz)), 'every table entry is substituted')
            x.same('perm', x.M.V.seq(s, sp), T, 's is left unchanged')
    return [rp, sp, Ptr(h.id, 0)], post


def H_subst(x, ctx):
    out = []
    m = x.subs
    out.append(Cand('it<=n', lambda s, pv: ule(ctx.it(pv), m.n)))
    for n, g, w, kind in ctx.V:
        if kind and kind[0] == 'val' and kind[1] != m.r:
            r, o = kind[1:]

            def prop(s, pv, r=r, o=o):
                a, b = s.regs[r].cells[o][1].seq(s), s.regs[m.r].cells[0][1].seq(s)
                i = bv('sk')
                return b_and(eq(a.n, b.n), implies(ult(i, a.n), eq(a.at(i), b.at(i), 8)))

            def fact(s, pv, r=r, o=o):
                a, b = s.regs[r].cells[o][1], s.regs[m.r].cells[0][1]
                s.assume(eq(a.n, b.n))
                s.facts.append(Fact(a.fn, lambda i, a=a, b=b: implies(ult(i, a.n), eq(a.fn(i), b.fn(i), 8))))
                s.facts.append(Fact(b.fn, lambda i, a=a, b=b: implies(ult(i, a.n), eq(a.fn(i), b.fn(i), 8))))
            out.append(Cand(f'{n} is the text so far', prop, fact))
    return out


spec('e_subst', b_subst, props=['C20'], hints=[H_subst], use_it=True, ranks=[lambda x, ctx: [('n-it', lambda s, pv: sub(x.subs.n, pv['#it']), 64)]])


def ht_begin(M, st, a, ins, env):
    if a[0].r != M.ht[0]:
        raise Unsupported('another table')
    return Ptr(M.ht[1], 0)


def ht_end(M, st, a, ins, env):
    if a[0].r != M.ht[0]:
        raise Unsupported('another table')
    return Ptr(M.ht[1], mul(M.ht[2], M.ht[3]))


def it_deref(M, st, a, ins, env):
    return M.load(st, a[0], 'ptr')


def it_inc(M, st, a, ins, env):
    p = M.load(st, a[0], 'ptr')
    M.store(st, a[0], 'ptr', Ptr(p.r, add(p.o, M.ht[3])))
    return a[0]


HT = r'bd::HashTable<bd::String, bd::String>'
HTAB = [(HT + r'::c?begin\(\) const', ht_begin), (HT + r'::c?end\(\) const', ht_end),
        (r'std::__detail::_Node_const_iterator<.*>::operator(?:\*|->)\(\) const', it_deref),
        (r'std::__detail::_Node_const_iterator<.*>::operator\+\+\(\)', it_inc)]
for _p, _h in HTAB:
    _h.is_contract = 'std::unordered_map iteration'


# ---- machine -----------------------------------------------------------------------------------------------------------
# ---- text streams: operator<<, operator>>, getline ------------------------------------------------------------------------
class Io:
    """an input stream: characters T, position i, failed; an output stream: number of characters written"""

    def __init__(self, x, T):
        st = x.st
        g = st.new_region('stream', 'obj', 24, 'ghost')
        g.meta['struct'] = True
        self.r, self.T = g.id, T
        self.sk = z3.Function(fresh_name('nonspace'), BV64, BV64)
        vt = st.new_region('streamvt', 'obj', 64, 'arg')
        vt.meta['struct'] = True
        vt.cells[0] = (8, 16)
        r = st.new_region('is', 'obj', 280, 'arg')
        r.meta['struct'] = True
        r.cells[0] = (8, Ptr(vt.id, 24))
        self.p = Ptr(r.id, 0)

    def get(self, st, o):
        return st.regs[self.r].cells[o][1]

    def put(self, st, o, v):
        st.wr(self.r).cells[o] = (8, v)

    def word(self, st, i):
        """position of the first character at or after i that is no blank"""
        T = self.T
        e = self.sk(E(i, 64))
        st.assume(implies(ule(i, T.n), b_and(ule(i, e), ule(e, T.n), implies(ult(e, T.n), b_not(libc.is_space(T.at(e)))))))
        tag = ('word', e.get_id())
        if tag not in st.ghost:
            st.ghost[tag] = e
            strspec.g_forall(st, None, i, e, T.at, libc.is_space)
            st.add_idx(e)
        return e


def io_fork(M, st, c):
    out = []
    for v in (c, b_not(c)):
        s = st.clone()
        s.assume(v)
        out.append(s if M.sol.feasible(s, True) else None)
    return out


def io_of(M, p):
    if not isinstance(p, Ptr) or p.r != M.io.p.r:
        raise Unsupported('another stream')
    return M.io


def io_take(formatted, form):
    def h(M, st, a, ins, env):
        io = io_of(M, a[0])
        bad, good = io_fork(M, st, b_not(eq(io.get(st, 8), 0)))
        out = []
        rv = lambda s, v: a[0] if form == 'ref' else v
        if bad is not None:
            out.append(RET(bad, rv(bad, mask(32))))
        if good is not None:
            i = io.get(good, 0)
            j = io.word(good, i) if formatted else i
            more, end = io_fork(M, good, ult(j, io.T.n))
            if more is not None:
                ch = io.T.at(j)
                more.add_idx(j)
                if form == 'ref':
                    M.store(more, a[1], ('i', 8), ch)
                io.put(more, 0, add(j, 1))
                out.append(RET(more, rv(more, ch if isc(ch) else S(z3.ZeroExt(24, ch)))))
            if end is not None:
                io.put(end, 0, j)
                io.put(end, 8, 1)
                out.append(RET(end, rv(end, mask(32))))
        return out
    return h


def io_peek(M, st, a, ins, env):
    io = io_of(M, a[0])
    more, end = io_fork(M, st, b_and(eq(io.get(st, 8), 0), ult(io.get(st, 0), io.T.n)))
    out = []
    if more is not None:
        ch = io.T.at(io.get(more, 0))
        out.append(RET(more, ch if isc(ch) else S(z3.ZeroExt(24, ch))))
    if end is not None:
        out.append(RET(end, mask(32)))
    return out


def io_back(M, st, a, ins, env):
    io = io_of(M, a[0])
    i = io.get(st, 0)
    M.oblige(st, 'text', b_and(eq(io.get(st, 8), 0), ult(0, i)), 'a character is put back only after one was read')
    if len(a) > 1:
        M.oblige(st, 'text', eq(io.T.at(sub(i, 1)), a[1], 8), 'the character put back is the one that was read')
    io.put(st, 0, sub(i, 1))
    return a[0]


def io_state(neg):
    def h(M, st, a, ins, env):
        if not isinstance(a[0], Ptr) or a[0].r != M.io.p.r:
            raise Unsupported('another stream')
        c = eq(M.io.get(st, 8), 0)
        return b_not(c) if neg else c
    return h


def io_write(n):
    def h(M, st, a, ins, env):
        io = io_of(M, a[0])
        c = io.get(st, 0)
        if n:                                   # a character
            M.oblige(st, 'text', ult(c, io.T.n), 'no more characters than the string has')
            st.add_idx(c)
            M.oblige(st, 'text', eq(a[1], io.T.at(c), 8), 'characters are written in order')
            io.put(st, 0, add(c, 1))
        else:
            M.access(st, a[1], a[2], False, 'characters written')
            M.oblige(st, 'text', b_and(ule(c, io.T.n), ule(a[2], sub(io.T.n, c))), 'no more characters than the string has')
            ch, o = st.regs[a[1].r].chain, a[1].o
            k = bv('k')
            s2 = st.clone()
            s2.assume(ult(k, a[2]))
            s2.add_idx(k, add(c, k))
            M.oblige(s2, 'text', eq(ch.read(add(o, k)), io.T.at(add(c, k)), 8), 'characters are written in order')
            io.put(st, 0, add(c, a[2]))
        return a[0]
    return h


IS, OS = r'std::(?:basic_)?istream(?:<char, std::char_traits<char> >)?', r'std::(?:basic_)?ostream(?:<char, std::char_traits<char> >)?'
IOS = r'std::(?:basic_)?ios(?:<char, std::char_traits<char> >)?'
IOTAB = [
    (r'.*std::operator>><char, std::char_traits<char> >\(.*&, char&\)', io_take(True, 'ref')),
    (IS + r'::get\(char&\)', io_take(False, 'ref')),
    (IS + r'::get\(\)', io_take(False, 'int')),
    (IS + r'::peek\(\)', io_peek),
    (IS + r'::putback\(char\)', io_back),
    (IS + r'::unget\(\)', io_back),
    (IOS + r'::fail\(\) const', io_state(True)),
    (IOS + r'::operator!\(\) const', io_state(True)),
    (IOS + r'::operator bool\(\) const', io_state(False)),
    (r'.*std::operator<< ?<(?:char, )?std::char_traits<char> >\(.*&, char\)', io_write(1)),
    (OS + r'::put\(char\)', io_write(1)),
    (OS + r'::write\(char const\*, long\)', io_write(0)),
    (r'.*std::__ostream_insert<char, std::char_traits<char> >\(.*', io_write(0)),
]
for _p, _h in IOTAB:
    _h.is_contract = 'iostream'


def b_out(x):
    st = x.st
    sp, T = mk_str(x, 's')
    io = x.M.io = x.io = Io(x, T)
    io.put(st, 0, 0)
    x.base = None

    def post(x, s, o):
        if ok(x, o):
            x.ob('text', eq(io.get(s, 0), T.n), 'every character is written')
            x.ob('text', isinstance(o.v, Ptr) and o.v.r == io.p.r and eq(o.v.o, 0), 'the stream is returned')
            if x.M.entry_name == 'e_out':
                x.same('perm', x.M.V.seq(s, sp), T, 's is left unchanged')
    return [io.p, sp], post


def H_out(x, ctx):
    io = x.io
    out = [Cand('c<=n', lambda s, pv: ule(io.get(s, 0), io.T.n))]
    for n, g, w, kind in ctx.V:
        if w == 64:
            out.append(Cand(f'{n}==c', lambda s, pv, g=g: eq(io.get(s, 0), g(s, pv))))
    return out


def b_in(line):
    def body(x):
        st = x.st
        sp, old = mk_str(x, 's')
        n = x.n('input')
        st.assume(ule(n, CAP))
        ch = base_chain('input')
        T = Seq(n, ch.read)
        io = x.M.io = x.io = Io(x, T)
        i0, f0 = x.n('position'), x.n('failed')
        st.assume(b_and(ule(i0, n), ule(f0, 1)))
        io.put(st, 0, i0)
        io.put(st, 8, f0)
        b = i0 if line else io.word(st, i0)
        e = bv('end')
        stop = (lambda v: eq(v, 10, 8)) if line else libc.is_space
        st.assume(b_and(ule(b, e), ule(e, n), implies(ult(e, n), stop(T.at(e)))))
        st.add_idx(e)
        strspec.g_forall(st, None, b, e, T.at, lambda v: b_not(stop(v)))
        x.b, x.e, x.i0, x.f0 = b, e, i0, f0

        def post(x, s, o):
            if not ok(x, o):
                return
            x.ob('text', isinstance(o.v, Ptr) and o.v.r == io.p.r and eq(o.v.o, 0), 'the stream is returned')
            dead = b_not(eq(f0, 0))
            x.same('text', x.M.V.seq(s, sp), Seq(ite(dead, 0, sub(e, b)), lambda k: T.at(add(b, k))),
                   'the string is exactly the rest of the line' if line else 'the string is exactly the next word')
            end = ite(ult(e, n), add(e, 1), e) if line else e
            x.ob('text', eq(io.get(s, 0), ite(dead, i0, end)), 'exactly the line and its line feed are taken from the stream' if line else 'exactly the blanks before the word and the word are taken from the stream')
            x.ob('text', implies(b_or(dead, eq(b, n)), b_not(eq(io.get(s, 8), 0))), 'reading at the end of the input is reported')
            x.ob('text', implies(b_and(b_not(dead), ult(e, n)), eq(io.get(s, 8), 0)), 'reading before the end of the input is not reported as failed')
        return [io.p, sp], post
    return body


def H_in(x, ctx):
    io, b, e, T = x.io, x.b, x.e, x.io.T
    i = lambda s: io.get(s, 0)
    out = [Cand('not failed', lambda s, pv: eq(io.get(s, 8), 0)), Cand('failed from the start', lambda s, pv: eq(io.get(s, 8), x.f0)),
           Cand('failed and unread', lambda s, pv: implies(eq(x.f0, 1), eq(i(s), x.i0))), Cand('b<=i', lambda s, pv: ule(b, i(s))), Cand('b<i', lambda s, pv: ult(b, i(s))),
           Cand('i<=e', lambda s, pv: ule(i(s), e)), Cand('i<=n', lambda s, pv: ule(i(s), T.n))]
    for n, g, w, kind in ctx.V:
        if kind and kind[0] == 'val':
            r, o = kind[1:]
            for d in (0, 1):
                out.append(Cand(f'{n}+{d}==i-b', lambda s, pv, g=g, d=d: eq(add(g(s, pv), d), sub(i(s), b))))
            out.append(forall_val(f'{n} is the input', r, o, lambda k, m, s, pv: ult(k, m), lambda k, v, m: eq(v, T.at(add(b, k)), 8)))
    for rid, r in ctx.st0.regs.items():
        if r.kind == 'obj' and not r.freed and 0 in r.cells and r.cells[0][0] == 1:
            out.append(Cand(f'ch{rid}==T[i-1]', lambda s, pv, rid=rid: eq(s.regs[rid].cells[0][1], T.at(sub(i(s), 1)), 8) if 0 in s.regs[rid].cells else False))
    return out


spec('e_out', b_out, props=['C26'], hints=[H_out])
spec('e_outr', b_out, props=['C26'], hints=[H_out])
spec('e_in', b_in(False), props=['C26'], hints=[H_in], ranks=[lambda x, ctx: [('n-i', lambda s, pv: sub(x.io.T.n, x.io.get(s, 0)), 64)]])
spec('e_getline', b_in(True), props=['C26'], hints=[H_in], ranks=[lambda x, ctx: [('n-i', lambda s, pv: sub(x.io.T.n, x.io.get(s, 0)), 64)]])


# ---- ranges of input iterators ------------------------------------------------------------------------------
def b_range(ctor):
    def body(x):
        st = x.st
        x.sp, T = mk_str(x, 's', raw=ctor)
        if ctor:
            T = seq_empty()
        n = x.n('count')
        st.assume(ule(n, CAP))
        src = x.blob('src', n)
        D = Seq(n, lambda k, ch=src.chain: ch.read(k))
        i = 0 if ctor else x.n('pos')
        st.assume(ule(i, T.n))
        x.T, x.D, x.i = T, D, i

        def post(x, s, o):
            if not ok(x, o):
                return
            x.same('func', x.M.V.seq(s, x.sp), strspec.inserted(T, i, D), 'exactly the elements of the range are inserted, in order')
            if not ctor:
                v = x.M.V.raw(s, x.sp)
                x.ob('func', v.back is not None and o.v.r == v.back and eq(o.v.o, i), 'the returned iterator designates the first inserted element')
        return [x.sp] + ([] if ctor else [i]) + [Ptr(src.id, 0), Ptr(src.id, n)], post
    return body


def H_range(x, ctx):
    """after k elements: the first k elements of the range stand at the position"""
    out = []
    T, D, i = x.T, x.D, x.i
    it = lambda s, pv: pv['#it']
    out.append(Cand('it<=n', lambda s, pv: ule(it(s, pv), D.n)))
    for n, g, w, kind in ctx.V:
        if w == 64 and (kind is None or kind[0] != 'val'):
            out.append(Cand(f'{n}==it', lambda s, pv, g=g: eq(g(s, pv), it(s, pv))))
            out.append(Cand(f'{n}==it+i', lambda s, pv, g=g: eq(g(s, pv), add(it(s, pv), i))))
            out.append(Cand(f'{n}==n-it', lambda s, pv, g=g: eq(g(s, pv), sub(D.n, it(s, pv)))))
    fs = [('it', it)]
    for n, g, w, kind in ctx.V:
        if kind and kind[0] == 'val':
            r, o = kind[1:]
            for kn, k in fs:
                out.append(Cand(f'{n}==T+{kn}', lambda s, pv, g=g, k=k: eq(g(s, pv), add(T.n, k(s, pv)))))

                def want(j, kk):
                    return ite(ult(j, i), T.at(j), ite(ult(sub(j, i), kk), D.at(sub(j, i)), T.at(sub(j, kk)), 8), 8)

                def prop(s, pv, r=r, o=o, k=k):
                    j = bv('sk')
                    q = s.regs[r].cells[o][1].seq(s)
                    return implies(ult(j, q.n), eq(q.at(j), want(j, k(s, pv)), 8))

                def fact(s, pv, r=r, o=o, k=k):
                    v, kk = s.regs[r].cells[o][1], k(s, pv)
                    s.facts.append(Fact(v.fn, lambda j: implies(ult(j, v.n), eq(v.fn(j), want(j, kk), 8))))
                out.append(Cand(f'{n} elements, {kn}', prop, fact))
    return out


spec('e_insert_range', b_range(False), props=['C04'], hints=[H_range], use_it=True)
spec('e_ctor_range', b_range(True), props=['C04'], hints=[H_range], use_it=True)


def ext(L):
    def install(M):
        M.finds, M.rfinds = [], []
        M.L = L
        val.install(M, L['sizeof_str'])
        FH = {'e_find': find_handler('e_find'), 'e_findp': find_handler('e_findp'), 'e_find_item': find_handler('e_find_item'),
              'e_find_itemp': find_handler('e_find_itemp'), 'e_rfind': rfind_handler}
        pats = [(re.compile('^' + p + '$'), FH[s]) for p, s in val.TABLE if s in FH]
        pats += [(re.compile('^' + p + '$'), h) for p, h in ATAB + HTAB + IOTAB]
        M.ext_patterns = tuple(pats) + tuple((p, h) for p, h in M.ext_patterns if h is not val.printf_contract)
        if M.entry_name == 'e_subst':
            M.ext_patterns = ((re.compile(r'^bd::String::sub\(bd::String const&, bd::String const&, int\) const$'), h_sub),) + M.ext_patterns
        M.ext['llvm.va_start'] = M.ext['llvm.va_start.p0'] = va_start
        M.ext['llvm.va_end'] = M.ext['llvm.va_end.p0'] = va_end
        M.ext['vsnprintf'] = c_vsnprintf
    return install


def REPLAY():
    from .replay_native import NativeReplay
    return NativeReplay('replay_text.cpp')


def make_runner(mod, L):
    R = FRunner(mod, L, '_ZTVN2bd6StringE', ext=ext(L))
    R.no_objs = True
    return R
