"""Contracts of the public String operations (one entry wrapper per operation, tu/str.cpp)."""
import z3
from .sym import *
from .obj import *
from .spec import Spec, NPOS, CAP
from .loops import Cand, forall_blob
from .libc import is_space, upper8

SPECS = {}


GROUP = ()


def group(*g):
    global GROUP
    GROUP = g


def spec(name, args, post=None, **kw):
    kw.setdefault('props', GROUP)
    s = Spec(name, args, post, **kw)
    SPECS[name] = s
    return s


# ---- mathematical specification functions ------------------------------------------------
def beyond(p='p'):
    """position-checked argument: beyond the end"""
    return lambda c: ult(c.len('s'), c.a[p])


def inserted(s, p, x):
    return seq_cat3(seq_sub(s, 0, p), x, seq_sub(s, p, sub(s.n, p)))


def overwritten(s, p, x):
    """x written over s from p on, extending s if needed (p <= |s|)"""
    n = umax(s.n, add(p, x.n))
    return Seq(n, lambda k: ite(ult(sub(k, p), x.n), x.at(sub(k, p)), s.at(k), s.w), s.w)


def take(s, n):
    return seq_take(s, n)


def sliced(s, a, n):
    """the documented substring for signed start a and length n"""
    L = s.n
    neg = slt(a, 0)
    st = ite(neg, ite(ult(L, sub(0, a)), 0, add(L, a)), ite(ult(L, a), L, a))
    room = sub(L, st)
    ln = ite(eq(n, NPOS), room, ite(slt(n, 0), ite(ult(room, sub(0, n)), 0, add(room, n)), umin(n, room)))
    return seq_sub(s, st, ln)


def dropfront(s, n):
    k = umin(n, s.n)
    return seq_sub(s, k, sub(s.n, k))


def dropback(s, n):
    return seq_sub(s, 0, sub(s.n, umin(n, s.n)))


def setlen(s, n, fill):
    return Seq(n, lambda k: ite(ult(k, s.n), s.at(k), fill, s.w), s.w)


# ---- representation facts used by callers at value level ---------------------------------
def rep_zero(extra):
    def f(c):
        c.ob('rep', eq(c.off('s'), 0), 'a string built from bytes starts at the beginning of its storage')
        c.ob('rep', b_or(eq(c.P('s').n, 0), ule(add(c.P('s').n, extra), c.cap('s'))), 'storage holds the bytes' + (' and a terminator' if extra else ''))
    return f


def rep_kept(c):
    if c.rid['o'] != c.rid['s']:
        c.ob('rep', b_and(eq(c.cap('s'), c.prerep['o'][0]), eq(c.off('s'), c.prerep['o'][1])), 'a copied or moved string keeps the storage of its source')


def rep_reserve(c):
    cap, off = c.prerep['s'][:2]
    c.ob('rep', b_and(ule(c.off('s'), off), implies(eq(off, 0), ule(cap, c.cap('s')))), 'reserving never lowers the room of a string that starts its storage')
    c.ob('rep', ule(c.len('s'), c.cap('s')), 'the capacity covers the length')


group('C04')
# ---- construction, assignment ----------------------------------------------------------
spec('e_ctor_default', 's:O', lambda c: c.becomes('s', seq_empty()))
spec('e_ctor_copy', 's:O o:cS', lambda c: c.becomes('s', c.S('o')), rep=rep_kept)
spec('e_ctor_move', 's:O o:S', lambda c: c.becomes('s', c.S('o')), moved=['o'], rep=rep_kept)
spec('e_ctor_cstr', 's:O c:C?', lambda c: c.becomes('s', c.S('c')), rep=rep_zero(0))
spec('e_ctor_cstrn', 's:O c:D nc:nC', lambda c: c.becomes('s', c.S('c')), rep=rep_zero(1))
spec('e_ctor_char', 's:O c:c', lambda c: c.becomes('s', seq_one(c.c)))
spec('e_ctor_cap', 's:O n:n', lambda c: (c.becomes('s', seq_empty()),
                                          c.ob('func', ule(c.n, capacity(c, 's')), 'requested capacity is available')))
spec('e_ctor_fill', 's:O n:n c:c', lambda c: c.becomes('s', seq_rep(c.c, c.n)))
spec('e_ctor_il', 's:O l:IL', lambda c: c.becomes('s', c.S('l')))
spec('e_dtor', 's:S', None, dead=['s'])
spec('e_assign_copy', 's:S o:cS', lambda c: c.becomes('s', c.S('o')), mod=['s'], rep=rep_kept)
spec('e_assign_move', 's:S o:S', lambda c: c.becomes('s', c.S('o')), mod=['s'], moved=['o'], rep=rep_kept)
spec('e_assign_cstr', 's:S c:C', lambda c: c.becomes('s', c.S('c')), mod=['s'])
spec('e_assign_il', 's:S l:IL', lambda c: c.becomes('s', c.S('l')), mod=['s'])


def capacity(c, n):
    return c.cap(n)


group('C04')
# ---- capacity -----------------------------------------------------------------------------
spec('e_reserve', 's:cS n:n', lambda c: c.ob('func', ule(c.n, capacity(c, 's')), 'requested capacity is available'), rep=rep_reserve)
# what every modification starts with: unshared storage with room, value kept
spec('e_own', 's:cS n:n', lambda c: (c.exclusive('s', 'perm', 'storage about to be modified is not shared'),
                                     c.ob('func', b_or(eq(c.cap('s'), 0), ule(c.n, c.cap('s')), ult(c.n, c.len('s'))), 'requested capacity is available')),
     pre=lambda c: [ule(c.len('s'), c.n)])
spec('e_clear', 's:S', lambda c: c.becomes('s', seq_empty()), mod=['s'])
spec('e_resize', 's:S n:n', lambda c: (c.ob('func', eq(c.P('s').n, c.n), 'length is the requested one'),
                                       c.same('func', take(c.P('s'), umin(c.n, c.len('s'))), take(c.S('s'), umin(c.n, c.len('s'))), 's: kept prefix')),
     mod=['s'])
spec('e_resize_v', 's:S n:n c:c', lambda c: c.becomes('s', setlen(c.S('s'), c.n, c.c)), mod=['s'])
spec('e_capacity', 's:cS', lambda c: (c.ob('func', eq(c.ret, capacity(c, 's')), 'capacity is the storage size'),
                                      c.ob('func', ule(c.len('s'), c.ret), 'capacity covers the length')))


def ret_is(f, w=64, tag='func', msg='returns the specified value'):
    return lambda c: c.ob(tag, eq(c.ret_w(w), f(c), w), msg)


spec('e_length', 's:cS', ret_is(lambda c: c.len('s')))
spec('e_size', 's:cS', ret_is(lambda c: c.len('s')))


def ret_bool(f, tag='func', msg='returns the specified truth value'):
    return lambda c: c.ob(tag, eq(as_bool(c.ret_w(8)), f(c)), msg)


def as_bool(v):
    if isinstance(v, bool):
        return v
    if isc(v):
        return bool(v)
    if z3.is_bool(v):
        return v
    return S(v != 0)


spec('e_empty', 's:cS', ret_bool(lambda c: eq(c.len('s'), 0)))
spec('e_not', 's:cS', ret_bool(lambda c: eq(c.len('s'), 0)))
spec('e_bool', 's:cS', ret_bool(lambda c: b_not(eq(c.len('s'), 0))))
spec('e_rcount', 's:cS', None)
spec('e_shared', 's:cS', None)

group()
# ---- access ----------------------------------------------------------------------------------
spec('e_data', 's:cS', lambda c: c.ret_elem('s', 0))
spec('e_mdata', 's:cS', lambda c: c.ret_elem('s', 0, mutable=True))
spec('e_begin', 's:S', lambda c: c.ret_elem('s', 0, mutable=True))
spec('e_end', 's:S', lambda c: c.ret_elem('s', c.len('s'), mutable=True, allow_end=True))
spec('e_rbegin', 's:S', lambda c: c.ret_elem('s', c.len('s'), mutable=True, allow_end=True))
spec('e_rend', 's:S', lambda c: c.ret_elem('s', 0, mutable=True))
spec('e_cbegin', 's:cS', lambda c: c.ret_elem('s', 0))
spec('e_cend', 's:cS', lambda c: c.ret_elem('s', c.len('s'), allow_end=True))
spec('e_cdist', 's:cS', lambda c: c.ob('func', eq(c.ret, c.len('s')), 'distance from begin to end is the length'))
spec('e_crbegin', 's:cS', lambda c: c.ret_elem('s', c.len('s'), allow_end=True))
spec('e_crend', 's:cS', lambda c: c.ret_elem('s', 0))
INR = lambda c: [ult(c.p, c.len('s'))]
spec('e_at', 's:cS p:n', lambda c: c.ret_elem('s', c.p), raises=lambda c: ule(c.len('s'), c.p))
spec('e_charat', 's:cS p:n', ret_is(lambda c: c.S('s').at(c.p), 8), raises=lambda c: ule(c.len('s'), c.p))
BUF = lambda cf: cf['s'] == 'buf'
spec('e_idx', 's:cS p:n', lambda c: c.ret_elem('s', c.p), pre=INR, cfg=BUF)
spec('e_read', 's:cS p:n', lambda c: c.ret_elem('s', c.p), pre=INR, cfg=BUF)
spec('e_mread', 's:S p:n', lambda c: c.ret_elem('s', c.p, mutable=True), pre=INR, cfg=BUF)
spec('e_cref_get', 's:S p:n', lambda c: c.ret_elem('s', c.p), pre=INR, cfg=BUF)
spec('e_cref_mget', 's:S p:n', lambda c: c.ret_elem('s', c.p, mutable=True), pre=INR, cfg=BUF)


def written(v):
    return lambda c: c.becomes('s', overwritten(c.S('s'), c.p, seq_one(v(c))))


spec('e_cref_set', 's:S p:n c:item', written(lambda c: c.c_v), pre=INR, cfg=BUF, mod=['s'])
spec('e_cref_setr', 's:S p:n c:c', written(lambda c: c.c), pre=INR, cfg=BUF, mod=['s'])
spec('e_cref_setcref', 's:S p:n o:S q:n', written(lambda c: c.S('o').at(c.q)), mod=['s'],
     pre=lambda c: [ult(c.p, c.len('s')), ult(c.q, c.len('o'))], cfg=lambda cf: cf['s'] == 'buf' and cf['o'] not in ('null', 'nobuf'))
spec('e_write', 's:S p:n c:item', written(lambda c: c.c_v), pre=INR, cfg=BUF, mod=['s'])
spec('e_writer', 's:S p:n c:c', written(lambda c: c.c), pre=INR, cfg=BUF, mod=['s'])
SPARE = lambda c: [ule(c.len('s'), c.p), ult(c.p, sub(c.prerep['s'][0], c.prerep['s'][1])), eq(c.prerep['s'][2], 0, 32)]
spec('e_write_spare', 's:S p:n c:c', lambda c: c.becomes('s', c.S('s')), pre=SPARE, cfg=BUF, mod=['s']).symbolic_only = True
NE = lambda c: [b_not(eq(c.len('s'), 0))]
spec('e_front', 's:S', lambda c: c.ret_elem('s', 0, mutable=True), pre=NE, cfg=BUF)
spec('e_cfront', 's:cS', lambda c: c.ret_elem('s', 0), pre=NE, cfg=BUF)
spec('e_back', 's:S', lambda c: c.ret_elem('s', sub(c.len('s'), 1), mutable=True), pre=NE, cfg=BUF)
spec('e_cback', 's:cS', lambda c: c.ret_elem('s', sub(c.len('s'), 1)), pre=NE, cfg=BUF)


group('C10')
def cview(c):
    c.view()


spec('e_c_str', 's:cS', cview).view = True
spec('e_deref', 's:cS', cview).view = True
d = spec('e_dup', 's:cS', cview)
d.returns_owned = d.view = True


def copied(c):
    n = umin(c.n, c.len('s'))
    c.ob('cstr', eq(c.ret, n), 'returns the number of bytes copied')
    w = c.wd
    c.same('cstr', c.wseq('d'), Seq(w, lambda k: ite(ult(k, n), c.S('s').at(k), c.S('d').at(k), 8)), 'destination holds the bytes and is otherwise untouched')


spec('e_copy', 's:cS d:W n:n', copied, pre=lambda c: [ule(umin(c.n, c.len('s')), c.wd)])


def stdcopied(c):
    n = c.len('s')
    c.ob('cstr', eq(c.ret, n), 'the std::string has the length of the string')
    c.same('cstr', c.wseq('d'), Seq(c.wd, lambda k: ite(ult(k, n), c.S('s').at(k), c.S('d').at(k), 8)), 'the std::string holds exactly the bytes')


spec('e_stdstr', 's:cS d:W', stdcopied, pre=lambda c: [ule(c.len('s'), c.wd)])

group('C04')
# ---- edits ---------------------------------------------------------------------------------------
ins1 = lambda c: c.becomes('s', inserted(c.S('s'), c.p, seq_one(c.c_v)))
ins1r = lambda c: c.becomes('s', inserted(c.S('s'), c.p, seq_one(c.c)))
app1 = lambda c: c.becomes('s', seq_cat(c.S('s'), seq_one(c.c_v)))
app1r = lambda c: c.becomes('s', seq_cat(c.S('s'), seq_one(c.c)))
BEY = beyond()
spec('e_insert_item', 's:S p:n c:item', ins1, raises=BEY, mod=['s'])
spec('e_insert_itemr', 's:S p:n c:c', ins1r, raises=BEY, mod=['s'])
spec('e_insert_rca', 's:S p:n o:cS', lambda c: c.becomes('s', inserted(c.S('s'), c.p, c.S('o'))), raises=BEY, mod=['s'])
INN = lambda c: c.becomes('s', ifseq(eq(c.n, 0), c.S('s'), inserted(c.S('s'), c.p, take(c.S('o'), c.n))))


def ifseq(c, a, b):
    return Seq(ite(c, a.n, b.n), lambda k: ite(c, a.at(k), b.at(k), a.w), a.w)


def beyond_n(nm='n'):
    """operations that do nothing for a zero count check the position only otherwise"""
    return lambda c: b_and(b_not(eq(c.a[nm], 0)), ult(c.len('s'), c.p))


spec('e_insert_rcan', 's:S p:n o:cS n:n', INN, raises=beyond_n(), mod=['s'])
spec('e_insert_rcar', 's:S p:n o:S', lambda c: c.becomes('s', inserted(c.S('s'), c.p, c.S('o'))), raises=BEY, mod=['s'], moved=['o'])
spec('e_insert_rcarn', 's:S p:n o:S n:n', INN, raises=beyond_n(), mod=['s'], moved=['o'])
spec('e_insert_cstr', 's:S p:n c:C', lambda c: c.becomes('s', inserted(c.S('s'), c.p, c.S('c'))), raises=BEY, mod=['s'])
spec('e_insert_cstrn', 's:S p:n c:Cn nc:nC', lambda c: c.becomes('s', ifseq(eq(c.nc, 0), c.S('s'), inserted(c.S('s'), c.p, c.S('c')))),
     raises=beyond_n('nc'), mod=['s'])


def it_insert(x):
    def f(c):
        c.becomes('s', inserted(c.S('s'), c.i, x(c)))
        c.ret_elem('s', c.i, mutable=True, allow_end=True)
    return f


ITP = lambda c: [ule(c.i, c.len('s'))]
spec('e_insert_it', 's:S i:n c:item', it_insert(lambda c: seq_one(c.c_v)), mod=['s'], pre=ITP)
spec('e_insert_itr', 's:S i:n c:c', it_insert(lambda c: seq_one(c.c)), mod=['s'], pre=ITP)
spec('e_append_item', 's:S c:item', app1, mod=['s'])
spec('e_append_itemr', 's:S c:c', app1r, mod=['s'])
spec('e_push_back', 's:S c:item', app1, mod=['s'])
spec('e_push_backr', 's:S c:c', app1r, mod=['s'])
spec('e_pop_back', 's:S', lambda c: c.becomes('s', dropback(c.S('s'), 1)), mod=['s'], pre=NE, cfg=BUF)
spec('e_append_rca', 's:S o:cS n:n', lambda c: c.becomes('s', seq_cat(c.S('s'), take(c.S('o'), c.n))), mod=['s'])
spec('e_append_rcar', 's:S o:S n:n', lambda c: c.becomes('s', seq_cat(c.S('s'), take(c.S('o'), c.n))), mod=['s'], moved=['o'])
spec('e_append_cstr', 's:S c:C', lambda c: c.becomes('s', seq_cat(c.S('s'), c.S('c'))), mod=['s'])
spec('e_append_cstrn', 's:S c:Cn nc:nC', lambda c: c.becomes('s', seq_cat(c.S('s'), c.S('c'))), mod=['s'])
spec('e_replace_item', 's:S p:n c:item', lambda c: c.becomes('s', overwritten(c.S('s'), c.p, seq_one(c.c_v))), raises=BEY, mod=['s'])
spec('e_replace_itemr', 's:S p:n c:c', lambda c: c.becomes('s', overwritten(c.S('s'), c.p, seq_one(c.c))), raises=BEY, mod=['s'])
REPN = lambda c: c.becomes('s', ifseq(eq(c.n, 0), c.S('s'), overwritten(c.S('s'), c.p, take(c.S('o'), c.n))))
spec('e_replace_rca', 's:S p:n o:cS n:n', REPN, raises=beyond_n(), mod=['s'])
spec('e_replace_rcar', 's:S p:n o:S n:n', REPN, raises=beyond_n(), mod=['s'], moved=['o'])
spec('e_replace_cstr', 's:S p:n c:C', lambda c: c.becomes('s', overwritten(c.S('s'), c.p, c.S('c'))), raises=BEY, mod=['s'])
spec('e_replace_cstrn', 's:S p:n c:Cn nc:nC', lambda c: c.becomes('s', ifseq(eq(c.nc, 0), c.S('s'), overwritten(c.S('s'), c.p, c.S('c')))),
     raises=beyond_n('nc'), mod=['s'])
spec('e_pluseq_char', 's:S c:c', app1r, mod=['s'])
spec('e_pluseq_cstr', 's:S c:C', lambda c: c.becomes('s', seq_cat(c.S('s'), c.S('c'))), mod=['s'])
spec('e_pluseq_str', 's:S o:cS', lambda c: c.becomes('s', seq_cat(c.S('s'), c.S('o'))), mod=['s'])
spec('e_pluseq_strr', 's:S o:S', lambda c: c.becomes('s', seq_cat(c.S('s'), c.S('o'))), mod=['s'], moved=['o'])
spec('e_plus', 'r:O a:cS b:cS', lambda c: c.becomes('r', seq_cat(c.S('a'), c.S('b'))))
spec('e_swap', 'a:S b:S', lambda c: (c.becomes('a', c.S('b')), c.becomes('b', c.S('a'))), mod=['a', 'b'])

group('C05')
# ---- slices ----------------------------------------------------------------------------------------
spec('e_slice', 's:S a:i n:i', lambda c: c.becomes('s', sliced(c.S('s'), c.a['a'], c.n)), mod=['s'])
SL = lambda c: c.becomes('r', sliced(c.S('s'), c.a['a'], c.n))
for nm, k in (('e_substring', 'cS'), ('e_call_c', 'cS'), ('e_call_m', 'S'), ('e_slice_get', 'S')):
    spec(nm, f'r:O s:{k} a:i n:i', SL)
SLP = lambda c: b_and(b_not(eq(c.n, 0)), ult(c.len('s'), c.a['a']))
SLA = lambda c: c.becomes('s', ifseq(eq(c.n, 0), c.S('s'), overwritten(c.S('s'), c.a['a'], take(c.S('o'), c.n))))
spec('e_slice_assign', 's:S a:i n:i o:cS', SLA, raises=SLP, mod=['s'])
spec('e_slice_assignr', 's:S a:i n:i o:S', SLA, raises=SLP, mod=['s'], moved=['o'])
spec('e_pluseq_n', 's:S n:n', lambda c: c.becomes('s', dropfront(c.S('s'), c.n)), mod=['s'])
spec('e_minuseq_n', 's:S n:n', lambda c: c.becomes('s', dropback(c.S('s'), c.n)), mod=['s'])
spec('e_preinc', 's:S', lambda c: c.becomes('s', dropfront(c.S('s'), 1)), mod=['s'])
spec('e_predec', 's:S', lambda c: c.becomes('s', dropback(c.S('s'), 1)), mod=['s'], pre=NE, cfg=BUF)
spec('e_postinc', 'r:O s:S', lambda c: (c.becomes('s', dropfront(c.S('s'), 1)), c.becomes('r', c.S('s'))), mod=['s'])
spec('e_postdec', 'r:O s:S', lambda c: (c.becomes('s', dropback(c.S('s'), 1)), c.becomes('r', c.S('s'))), mod=['s'], pre=NE, cfg=BUF)

spec('e_postdec', 'r:O s:S', lambda c: (c.becomes('s', dropback(c.S('s'), 1)), c.becomes('r', c.S('s'))), mod=['s'], pre=NE, cfg=BUF)


# ---- ghost definitions and loop hints ----------------------------------------------------------------
def gdist(f):
    """loop invariant candidates: a loop variable has moved at most G from where it entered, for every ghost distance G"""
    def hint(c, ctx):
        out = []
        for g in f(c):
            for n, get, w, kind in ctx.V:
                if w != 64:
                    continue
                v0 = get(ctx.st0, ctx.pv0)
                out.append(Cand(f'{n} up<=ghost', lambda s, pv, get=get, v0=v0, g=g: ule(sub(get(s, pv), v0), g)))
                out.append(Cand(f'{n} down<=ghost', lambda s, pv, get=get, v0=v0, g=g: ule(sub(v0, get(s, pv)), g)))
                if kind is None:
                    out.append(Cand(f'{n}<=ghost', lambda s, pv, get=get, g=g: ule(get(s, pv), g)))
        return out
    return hint


def first_idx(st, n, at, pred, name):
    """ghost: the first index of [0,n) at which pred holds, or n"""
    a = bv(name)
    st.assume(ule(a, n))
    st.assume(implies(ult(a, n), pred(at(a))))
    st.add_idx(a)
    return a


def g_forall(st, fn, lo, hi, at, pred):
    """forall i in [lo,hi): pred(at(i)); instantiated at index terms and at reads"""
    st.facts.append(Fact(None, lambda i: implies(b_and(ule(lo, i), ult(i, hi)), pred(at(i)))))
    b = at_base(at)
    if b is not None:
        f, o = b
        st.facts.append(Fact(f, lambda i: (lambda k: implies(b_and(ule(lo, k), ult(k, hi)), pred(at(k))))(sub(i, o))))


def at_base(at):
    """(uninterpreted contents function, offset) behind an element reader, if it is a plain one"""
    x = at(bv('probe'))
    if isc(x) or not z3.is_app(x) or x.num_args() != 1 or x.decl().kind() != z3.Z3_OP_UNINTERPRETED:
        return None
    y = at(0)
    if isc(y) or y.num_args() != 1:
        return None
    return y.decl(), S(y.arg(0))


# ---- trimming ------------------------------------------------------------------------------------------
group('C23')


def trim_setup(R, M, st, c):
    s = c.S('s')
    n, at = s.n, s.at
    A = first_idx(st, n, at, lambda x: b_not(is_space(x)), 'A')
    g_forall(st, None, 0, A, at, is_space)
    Bn = bv('B')
    st.assume(b_and(ule(A, Bn), ule(Bn, n)))
    st.assume(implies(eq(A, n), eq(Bn, n)))
    st.assume(implies(ult(A, Bn), b_not(is_space(at(sub(Bn, 1))))))
    st.assume(implies(ult(A, n), ult(A, Bn)))
    g_forall(st, None, Bn, n, at, is_space)
    st.add_idx(sub(Bn, 1))
    c.a['A'], c.a['B'] = A, Bn


def trim_conc(c):
    b = c.preb['s']
    sp = (32, 9, 10, 11, 12, 13)
    A = 0
    while A < len(b) and b[A] in sp:
        A += 1
    Bn = len(b)
    while Bn > A and b[Bn - 1] in sp:
        Bn -= 1
    c.a['A'], c.a['B'] = A, Bn


def hash_or_same(c, ctx):
    """the cached hash is dropped as soon as another field moves"""
    out = []
    for n, get, w, kind in ctx.V:
        if w != 64 or not n.endswith('_%d' % c.O.L['hash']) or not n.startswith('c'):
            continue
        h0 = get(ctx.st0, ctx.pv0)
        out.append(Cand('hash 0 or entry', lambda s, pv, get=get, h0=h0: b_or(eq(get(s, pv), 0), eq(get(s, pv), h0))))
        for m, g2, w2, k2 in ctx.V:
            if m != n and w2 == 64:
                v0 = g2(ctx.st0, ctx.pv0)
                out.append(Cand(f'hash 0 or {m} unmoved', lambda s, pv, get=get, g2=g2, v0=v0: b_or(eq(get(s, pv), 0), eq(g2(s, pv), v0))))
    return out


TRH = [hash_or_same, gdist(lambda c: [c.A, sub(c.len('s'), c.B), sub(c.B, c.A)])]
TR = lambda c: seq_sub(c.S('s'), c.A, sub(c.B, c.A))
spec('e_trim', 's:S', lambda c: c.becomes('s', TR(c)), mod=['s'], setup=trim_setup, conc=trim_conc, hints=TRH)
spec('e_trim_c', 'r:O s:cS', lambda c: c.becomes('r', TR(c)), setup=trim_setup, conc=trim_conc, hints=TRH)


def chomped(c):
    s = c.S('s')
    n = s.n
    last = lambda k, ch: b_and(ule(k, n), eq(s.at(sub(n, k)), ch, 8))
    lf = last(1, 10)
    d = ite(lf, ite(last(2, 13), 2, 1), ite(last(1, 13), 1, 0))
    return seq_sub(s, 0, sub(n, d))


spec('e_chomp', 's:S', lambda c: c.becomes('s', chomped(c)), mod=['s'])
spec('e_chomp_c', 'r:O s:cS', lambda c: c.becomes('r', chomped(c)))

# ---- comparison -------------------------------------------------------------------------------------------
group('C08')


def cmp_setup(other, lim=None):
    def f(R, M, st, c):
        a, b = c.S('s'), c.S(other)
        n1, n2 = a.n, b.n
        if lim:
            n1, n2 = umin(n1, c.a[lim]), umin(n2, c.a[lim])
        m = umin(n1, n2)
        D = bv('D')
        st.assume(ule(D, m))
        st.assume(implies(ult(D, m), b_not(eq(a.at(D), b.at(D), a.w))))
        st.add_idx(D)
        st.facts.append(Fact(None, lambda i: implies(ult(i, D), eq(a.at(i), b.at(i), a.w))))
        for z in (a, b):
            bb = at_base(z.at)
            if bb:
                st.facts.append(Fact(bb[0], lambda i, o=bb[1]: implies(ult(sub(i, o), D), eq(a.at(sub(i, o)), b.at(sub(i, o)), a.w))))
        c.a['D'] = D
        diff = ult(D, m)
        c.a['less'] = ite_b(diff, ult(a.at(D), b.at(D), a.w), ult(n1, n2))
        c.a['equal'] = b_and(b_not(diff), eq(n1, n2))
    return f


def cmp_conc(other, lim=None):
    def f(c):
        a, b = c.preb['s'], c.preb[other]
        if lim:
            a, b = a[:c.a[lim]], b[:c.a[lim]]
        c.a['less'], c.a['equal'] = a < b, a == b
    return f


def ite_b(c, a, b):
    return b_or(b_and(c, a), b_and(b_not(c), b))


def cmp_post(c):
    r = c.ret_w(32)
    c.ob('func', eq(slt(r, 0, 32), c.less), 'negative exactly when lexicographically less')
    c.ob('func', eq(eq(r, 0, 32), c.equal), 'zero exactly when equal')


H_D = [gdist(lambda c: [c.D])]
spec('e_cmp', 's:cS o:cS', cmp_post, setup=cmp_setup('o'), conc=cmp_conc('o'), hints=H_D)
spec('e_cmpn', 's:cS o:cS n:n', cmp_post, setup=cmp_setup('o', 'n'), conc=cmp_conc('o', 'n'), hints=H_D)
spec('e_cmp_c', 's:cS c:C', cmp_post, setup=cmp_setup('c'), conc=cmp_conc('c'), hints=H_D)
spec('e_cmpn_c', 's:cS c:C n:n', cmp_post, setup=cmp_setup('c', 'n'), conc=cmp_conc('c', 'n'), hints=H_D)
LESS, EQU = (lambda c: c.less), (lambda c: c.equal)
GRT = lambda c: b_not(b_or(c.less, c.equal))
for nm, f in (('eq', EQU), ('ne', lambda c: b_not(c.equal)), ('lt', LESS), ('le', lambda c: b_or(c.less, c.equal)), ('gt', GRT), ('ge', lambda c: b_not(c.less))):
    spec('e_' + nm, 's:cS o:cS', ret_bool(f), setup=cmp_setup('o'), conc=cmp_conc('o'), hints=H_D)
    spec('e_' + nm + '_c', 's:cS c:C', ret_bool(f), setup=cmp_setup('c'), conc=cmp_conc('c'), hints=H_D)

# ---- hash -----------------------------------------------------------------------------------------------------
group('C07')


def sext(x, w):
    if w == 64:
        return x
    return (sgn(x, w) & mask(64)) if isc(x) else S(z3.SignExt(64 - w, x))


def hash_setup(R, M, st, c):
    s = c.S('s')
    F = z3.Function(fresh_name('F'), BV64, BV64)

    def cl(i):
        p = sub(i, 1)
        q = F(E(p, 64))
        return ite_b(eq(i, 0), eq(F(E(i, 64)), 5381), eq(F(E(i, 64)), add(add(S(q << 5), q), sext(s.at(p), s.w))))
    st.facts.append(Fact(F, cl))
    H = S(F(E(s.n, 64)) & 0x7fffffff)
    h = c.preh['s']
    st.assume(b_or(eq(h, 0), eq(h, H)))
    c.a['F'], c.a['H'] = F, H


def hash_conc(c):
    c.a['H'] = c.post['s']['hf']


def hash_hint(c, ctx):
    out = []
    for n, g, w, k in ctx.V:
        if w != 64 or k is not None:
            continue
        for m, h, w2, k2 in ctx.V:
            if w2 != 64 or m == n:
                continue
            v0 = h(ctx.st0, ctx.pv0)
            out.append(Cand(f'{n}==F({m})', lambda s, pv, g=g, h=h, v0=v0: eq(g(s, pv), c.F(E(sub(h(s, pv), v0), 64)))))
    return out


def hash_post(c):
    c.ob('hash', eq(c.ret, c.H), 'the result is the hash of the current elements')
    h = c.hash_field('s')
    c.ob('hash', b_or(eq(h, 0), eq(h, c.H)), 'the cached value is the hash of the current elements')


spec('e_hash', 's:cS', hash_post, setup=hash_setup, conc=hash_conc, hints=[hash_hint], nohash=True)
spec('e_stdhash', 's:cS', hash_post, setup=hash_setup, conc=hash_conc, hints=[hash_hint], nohash=True)

# ---- search -----------------------------------------------------------------------------------------------------
group('C09')


def find1_setup(pos):
    def f(R, M, st, c):
        s = c.S('s')
        p = c.a[pos] if pos else 0
        room = ite(ule(p, s.n), sub(s.n, p), 0)
        at = lambda i: s.at(add(p, i))
        D = first_idx(st, room, at, lambda x: eq(x, c.c_v, s.w), 'D')
        g_forall(st, None, 0, D, at, lambda x: b_not(eq(x, c.c_v, s.w)))
        c.a['D'], c.a['room'] = D, room
    return f


def find1_conc(pos):
    def f(c):
        p = c.a[pos] if pos else 0
        b = c.preb['s'][p:] if p <= len(c.preb['s']) else []
        c.a['room'] = len(b)
        c.a['D'] = b.index(c.c_v) if c.c_v in b else len(b)
    return f


def rfind1_conc(c):
    b = c.preb['s']
    c.a['R'] = max([i + 1 for i, x in enumerate(b) if x == c.c_v], default=0)


def findS_conc(pos):
    def f(c):
        p = c.a[pos] if pos else 0
        b, o = c.preb['s'], c.preb['o']
        hit = [q for q in range(p, len(b) - len(o) + 1) if b[q:q + len(o)] == o] if p <= len(b) else []
        c.a['found'], c.a['D'] = bool(hit), hit[0] - p if hit else 0
    return f


def rfindS_conc(c):
    b, o, lp = c.preb['s'], c.preb['o'], c.lp
    hit = [q for q in range(0, len(b) - len(o) + 1) if q >= lp and b[q:q + len(o)] == o]
    c.a['found'], c.a['W'] = bool(hit), hit[-1] + 1 if hit else lp


FP = ret_is(lambda c: ite(ult(c.D, c.room), c.D, NPOS), msg='distance to the first occurrence, or npos')
spec('e_find_item', 's:cS c:item', FP, setup=find1_setup(None), conc=find1_conc(None), hints=H_D)
spec('e_find_itemp', 's:cS c:item p:n', FP, setup=find1_setup('p'), conc=find1_conc('p'), raises=BEY, hints=H_D)


def rfind1_setup(R, M, st, c):
    s = c.S('s')
    Rr = bv('R')
    st.assume(ule(Rr, s.n))
    st.assume(implies(b_not(eq(Rr, 0)), eq(s.at(sub(Rr, 1)), c.c_v, s.w)))
    g_forall(st, None, Rr, s.n, s.at, lambda x: b_not(eq(x, c.c_v, s.w)))
    st.add_idx(sub(Rr, 1))
    c.a['D'] = sub(s.n, Rr)
    c.a['R'] = Rr


spec('e_rfind_item', 's:cS c:item', ret_is(lambda c: sub(c.R, 1), msg='position of the last occurrence, or npos'), setup=rfind1_setup, conc=rfind1_conc, hints=H_D)


def match_ghost(st, s, o, name):
    """no-match witness: wit(q) is a position at which o differs from s at q, when it does"""
    wit = z3.Function(fresh_name('wit_' + name), BV64, BV64)
    m = o.n

    def nomatch(q):
        w = wit(E(q, 64))
        return b_and(ult(w, m), b_not(eq(s.at(add(q, w)), o.at(w), 8)))

    def match_at(q):
        st.facts.append(Fact(None, lambda j: implies(ult(j, m), eq(s.at(add(q, j)), o.at(j), 8))))
    return nomatch, match_at


def findS_setup(pos):
    def f(R, M, st, c):
        s, o = c.S('s'), c.S('o')
        p = c.a[pos] if pos else 0
        n, m = s.n, o.n
        found = fbool('found')
        D = bv('D')           # distance from p to the first match; past the last candidate if there is none
        nomatch, _ = match_ghost(st, Seq(sub(n, p), lambda i: s.at(add(p, i))), o, 'f')
        inr = b_and(ule(p, n), ule(m, sub(n, p)))     # p + m <= n
        last = sub(sub(n, p), m)
        st.assume(implies(found, b_and(inr, ule(D, last))))
        st.assume(implies(b_not(found), eq(D, ite(inr, add(last, 1), 0))))
        st.facts.append(Fact(None, lambda j: implies(b_and(found, ult(j, m)), eq(s.at(add(p, add(D, j))), o.at(j), 8))))
        st.facts.append(Fact(None, lambda q: implies(b_and(inr, ult(q, D)), nomatch(q))))
        st.add_idx(D, 0)
        c.a['found'], c.a['D'] = found, D
    return f


FS = ret_is(lambda c: ite(eq(c.len('o'), 0), 0, ite(c.found, c.D, NPOS)), msg='distance to the first occurrence, or npos')
spec('e_find', 's:cS o:cS', FS, setup=findS_setup(None), conc=findS_conc(None), hints=H_D)
spec('e_findp', 's:cS o:cS p:n', FS, setup=findS_setup('p'), conc=findS_conc('p'), raises=BEY, hints=H_D)


def rfindS_setup(R, M, st, c):
    s, o = c.S('s'), c.S('o')
    n, m, lp = s.n, o.n, c.lp
    found = fbool('found')
    W = bv('W')           # one past the last match at or after lp; lp if there is none
    nomatch, _ = match_ghost(st, s, o, 'r')
    last = sub(n, m)
    inr = b_and(ule(m, n), ule(lp, last))
    st.assume(implies(found, b_and(inr, ult(lp, W), ule(W, add(last, 1)))))
    st.assume(implies(b_not(found), eq(W, lp)))
    st.facts.append(Fact(None, lambda j: implies(b_and(found, ult(j, m)), eq(s.at(add(sub(W, 1), j)), o.at(j), 8))))
    st.facts.append(Fact(None, lambda q: implies(b_and(inr, ule(W, q), ule(q, last)), nomatch(q))))
    st.add_idx(sub(W, 1), 0)
    c.a['found'], c.a['W'] = found, W
    c.a['D'] = ite(inr, sub(add(last, 1), W), 0)


RFS = ret_is(lambda c: ite(eq(c.len('o'), 0), sub(c.len('s'), 1), ite(c.found, sub(c.W, 1), NPOS)), msg='position of the last occurrence, or npos')
spec('e_rfind', 's:cS o:cS lp:n', RFS, setup=rfindS_setup, conc=rfindS_conc, hints=H_D)


def REPLAY():
    from .replay_rca import RcaReplay
    return RcaReplay('replay_str.cpp')


# ---- std::string (assumed contracts of libstdc++) ----------------------------------------------
def stds_set(M, st, obj, parts):
    """the object becomes the concatenation of the parts; memory may run out"""
    from . import libc
    out = []
    if M.alloc_fail:
        out.append((st.clone(), Outcome('throw', '_ZTISt9bad_alloc')))
    q = parts[0]
    for x in parts[1:]:
        q = seq_cat(q, x)
    r = st.new_region('stdstring', 'blob', add(q.n, 1), 'view')
    r.chain = Chain('fun', Chain('fill', base_chain('ss'), (q.n, 1, 0), 8), (0, q.n, q.at), 8)
    r.meta['guarded'] = True
    M.store(st, obj, 'ptr', Ptr(r.id, 0))
    M.store(st, Ptr(obj.r, add(obj.o, 8)), ('i', 64), q.n)
    out.append((st, Outcome('ret', obj)))
    return out


def stds_get(M, st, obj):
    p = M.load(st, obj, 'ptr')
    n = M.load(st, Ptr(obj.r, add(obj.o, 8)), ('i', 64))
    ch = st.regs[p.r].chain
    return p, Seq(n, lambda k: ch.read(k))


def bytes_at(M, st, p, n):
    from . import libc
    M.access(st, p, n, False, 'bytes a std::string is made of')
    if p.r == 0:
        return seq_empty()
    rd = libc.view(M, st, p)
    return Seq(n, rd)


def stds_n(kind):
    def h(M, st, a, ins, env):
        if kind == 'range':
            from . import libc
            new = bytes_at(M, st, a[1], libc.rng(M, st, a[1], a[2], 'std::string'))
        elif kind == 'cstr':
            from . import libc
            new = bytes_at(M, st, a[1], libc.c_strlen(M, st, [a[1]], None, None))
        elif kind == 'none':
            new = seq_empty()
        else:
            new = bytes_at(M, st, a[1], a[2])
        old = [stds_get(M, st, a[0])[1]] if kind == 'append' else []
        return stds_set(M, st, a[0], old + [new])
    return h


def stds_data(M, st, a, ins, env):
    return stds_get(M, st, a[0])[0]


def stds_size(M, st, a, ins, env):
    return stds_get(M, st, a[0])[1].n


def stds_dtor(M, st, a, ins, env):
    return None


SS = r'^std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >::'
AL = r'(?:, )?std::allocator<char> const&\)$'
STDS = [(SS + r'basic_string\(char const\*, unsigned long' + AL, stds_n('ctor')),
        (SS + r'basic_string<char const\*, void>\(char const\*, char const\*' + AL, stds_n('range')),
        (SS + r'basic_string(?:<.*>)?\(char const\*' + AL, stds_n('cstr')),
        (SS + r'basic_string\((?:std::allocator<char> const&)?\)$', stds_n('none')),
        (SS + r'assign\(char const\*, unsigned long\)$', stds_n('ctor')),
        (SS + r'append\(char const\*, unsigned long\)$', stds_n('append')),
        (SS + r'(?:data|c_str)\(\) const$', stds_data),
        (SS + r'(?:size|length)\(\) const$', stds_size),
        (SS + r'~basic_string\(\)$', stds_dtor)]


def make_runner(mod, L):
    import re
    from .spec import Runner

    class StrRunner(Runner):
        def machine(self, tags):
            M = super().machine(tags)
            M.ext_patterns = tuple((re.compile(p), h) for p, h in STDS) + tuple(M.ext_patterns)
            return M
    return StrRunner(mod, L, '_ZTVN2bd6StringE')
