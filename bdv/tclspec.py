"""Tcl binding (tu/tcl.cpp): conversions, command dispatch, linked variables.  The Tcl library, std::unordered_map and
std::shared_ptr are used through assumed contracts (below), String and Array<String> through theirs (bdv/val.py, bdv/textspec.py)."""
import re
import z3
from .sym import *
from .exe import Outcome, Kill
from .ir import Unsupported
from .obj import Seq, seq_empty, CAP, umin
from .free import FSpec, FRunner
from .loops import Cand
from . import val, libc
from .val import SVal, fresh_sval, cstr_arg, seq_val
from .textspec import mk_str, ok, skolem, Cong, AVal, aval, aput, ATAB, a_default, a_cap, a_dtor, a_size

SPECS = {}
RET = lambda s, v=None: (s, Outcome('ret', v))
IMAX = (1 << 31) - 1
STRING = '_ZTIN2bd6StringE'


def spec(name, body, **kw):
    SPECS[name] = FSpec(name, body, **kw)


def log(st, *ev):
    st.ghost['trace'] = st.ghost.get('trace', ()) + (ev,)


def events(st, *k):
    return [e for e in st.ghost.get('trace', ()) if e[0] in k]


# ---- Tcl values ------------------------------------------------------------------------------------------------------------
class In:
    """an arbitrary script value: what it reads as (text, integer, floating point, truth value)"""

    def __init__(self, st, name='obj'):
        self.isint, self.isdbl, self.isbool = fbool('isint'), fbool('isdbl'), fbool('isbool')
        self.neg, self.mag = fbool('neg'), bv('mag')
        self.b = bv('truth', 32)
        st.assume(implies(self.neg, b_not(eq(self.mag, 0))))
        st.assume(b_or(eq(self.b, 0, 32), eq(self.b, 1, 32)))
        self.text = fresh_sval(st, name + '_text', IMAX - 1)
        self.dbl = FloatV(None, ('sign', self.neg, eq(self.mag, 0)))

    def low(self):
        """low 64 bits"""
        return ite(self.neg, sub(0, self.mag), self.mag)

    def fits(self, w, signed):
        if signed:
            return b_and(self.isint, ule(self.mag, ite(self.neg, 1 << (w - 1), (1 << (w - 1)) - 1)))
        return b_and(self.isint, b_not(self.neg), ule(self.mag, mask(w)))


class Out:
    """a script value made by the code: ('int', signed 64) ('uint', unsigned 64) ('dbl', v) ('str', text) ('list',)"""

    def __init__(self, kind, v=None):
        self.kind, self.v = kind, v


def new_tobj(M, st, t, name='tclobj', rc=0):
    r = st.new_region(name, 'obj', 48, 'tcl')
    r.meta['struct'] = True
    r.cells[0] = (4, rc)
    r.meta['t'] = t
    return Ptr(r.id, 0)


def tobj(M, st, p):
    if not isinstance(p, Ptr) or p.r == 0:
        M.oblige(st, 'mem', False, 'script value is not null')
        raise Kill()
    r = st.regs[p.r]
    if r.freed:
        M.oblige(st, 'mem', False, 'script value is live')
        raise Kill()
    if r.meta.get('tobjs'):
        return r.meta['tobjs'](M, st, p.o)
    if 't' not in r.meta or not (isc(p.o) and p.o == 0):
        raise Unsupported('not a script value')
    return r.meta['t']


def t_new_int(w):
    def h(M, st, a, ins, env):
        v = a[0]
        if isinstance(v, bool) or z3.is_bool(v):
            v = ite(v, 1, 0)
        return new_tobj(M, st, Out('int', sext(v, w)))
    return h


def sext(v, w):
    if w == 64:
        return v
    if isc(v):
        return (v | (mask(64) ^ mask(w))) if v >> (w - 1) & 1 else v
    return S(z3.SignExt(64 - w, v))


def t_new_dbl(M, st, a, ins, env):
    return new_tobj(M, st, Out('dbl', a[0]))


def text_at(M, st, p, n):
    """the n bytes at p, as they are now; remembers the value they are a view of"""
    r = st.regs[p.r]
    vo = r.meta.get('viewof')
    if vo is not None and isc(p.o) and p.o == 0 and M.sol.valid(st, eq(n, vo[2].n)) is True:
        M.access(st, p, n, False, 'text')
        return vo[2]
    M.access(st, p, n, False, 'text')
    if p.r == 0:
        return seq_val(st, seq_empty())
    return seq_val(st, Seq(n, libc.view(M, st, p)))


def t_new_str(M, st, a, ins, env):
    p, n = a[0], a[1]
    if isc(n) and n == mask(32):
        q = cstr_arg(M, st, p)
        return new_tobj(M, st, Out('str', seq_val(st, q)))
    M.oblige(st, 'tcl', sle(0, n, 32), 'length handed to Tcl is not negative')
    n64 = n if isc(n) else S(z3.ZeroExt(32, n))
    v = text_at(M, st, p, n64)
    return new_tobj(M, st, Out('str', v))


def t_str(M, st, t):
    if isinstance(t, In):
        return t.text
    if t.kind == 'str':
        return t.v
    raise Unsupported('text of a number')


def t_get_str(M, st, a, ins, env):
    t = tobj(M, st, a[0])
    if isinstance(t, Out) and t.kind == 'list' and 'lists' in st.ghost:
        # the text of a list: one word per element
        v = fresh_sval(st, 'listtext', 1 << 28)
        st.ghost['lists'] += ((t, v, st.regs[a[0].r].cells[8][1]),)
        t = Out('str', v)
    if isinstance(t, Out) and t.kind != 'str':
        r = st.new_region('numtext', 'blob', bv('numtext'), 'view')
        r.meta['repof'] = a[0].r
        r.meta['guarded'] = True
        return Ptr(r.id, 0)
    v = t_str(M, st, t)
    q = M.V.seq_of(st, v)
    if len(a) > 1 and a[1].r:
        n = q.n
        M.store(st, a[1], ('i', 32), n & mask(32) if isc(n) else S(z3.Extract(31, 0, E(n, 64))))
    key = ('ttext', id(v))
    got = st.ghost.get(key)
    if got is None:
        r = st.new_region('text', 'blob', add(q.n, 1), 'view')
        r.chain = Chain('fun', Chain('fill', base_chain('v'), (q.n, 1, 0), 8), (0, q.n, q.at), 8)
        r.meta['nul'] = [q.n]
        r.meta['guarded'] = True
        if not isinstance(t, In):
            r.meta['repof'] = a[0].r
        st.ghost[key] = got = (r.id, v)
    return Ptr(got[0], 0)


def t_get_int(w, ptr_i=2):
    def h(M, st, a, ins, env):
        t = tobj(M, st, a[1])
        if not isinstance(t, In):
            raise Unsupported('number read from a value just made')
        s2 = st.clone()
        cond = t.isint
        if w == 32:       # Tcl_GetIntFromObj: INT_MIN .. UINT_MAX, wrapped
            lo = t.low()
            cond = b_and(cond, ite_b2(t.neg, ule(t.mag, 1 << 31), ule(t.mag, mask(32))))
        st.assume(cond)
        lo = t.low()
        M.store(st, a[2], ('i', w), lo if w == 64 else S(z3.Extract(31, 0, E(lo, 64))))
        s2.assume(b_not(cond))
        return [RET(st, 0), RET(s2, 1)]
    return h


def ite_b2(c, a, b):
    return b_and(implies(c, a), b_or(c, b))


def t_get_dbl(M, st, a, ins, env):
    t = tobj(M, st, a[1])
    if not isinstance(t, In):
        raise Unsupported('number read from a value just made')
    s2 = st.clone()
    cond = b_or(t.isint, t.isdbl)
    st.assume(cond)
    M.store(st, a[2], ('f', 'double'), t.dbl)
    s2.assume(b_not(cond))
    return [RET(st, 0), RET(s2, 1)]


def t_get_bool(M, st, a, ins, env):
    t = tobj(M, st, a[1])
    if not isinstance(t, In):
        raise Unsupported('number read from a value just made')
    s2 = st.clone()
    st.assume(t.isbool)
    M.store(st, a[2], ('i', 32), t.b)
    s2.assume(b_not(t.isbool))
    return [RET(st, 0), RET(s2, 1)]


def t_free(M, st, a, ins, env):
    tobj(M, st, a[0])
    st.wr(a[0].r).freed = True
    return None


def t_set_result(M, st, a, ins, env):
    t = tobj(M, st, a[1])
    log(st, 'result', t)
    return None


# ---- lists --------------------------------------------------------------------------------------------------------------------
def t_list_get(M, st, a, ins, env):
    L = M.tlist
    if a[1].r != L.obj.r:
        raise Unsupported('another list')
    s2 = st.clone()
    st.assume(L.islist)
    s2.assume(b_not(L.islist))
    M.store(st, a[2], ('i', 32), S(z3.Extract(31, 0, L.n)))
    M.store(st, a[3], 'ptr', Ptr(L.objv, 0))
    return [RET(st, 0), RET(s2, 1)]


def t_list_new(M, st, a, ins, env):
    if a[1].r != 0:
        raise Unsupported('list of given objects')
    p = new_tobj(M, st, Out('list'))
    st.wr(p.r).cells[8] = (8, 0)
    return p


def t_list_append(M, st, a, ins, env):
    t, e = tobj(M, st, a[1]), tobj(M, st, a[2])
    if not (isinstance(t, Out) and t.kind == 'list'):
        raise Unsupported('append to something else')
    c = st.regs[a[1].r].cells[8][1]
    if getattr(M, 'submon', None):
        M.submon(M, st, c, e)
    else:
        M.listmon(M, st, c, M.V.seq_of(st, t_str(M, st, e)))
    st.wr(a[1].r).cells[8] = (8, add(c, 1))
    return 0


# ---- conversions: postconditions ---------------------------------------------------------------------------------------------
WIDTH = {'i8': (8, True), 'u8': (8, False), 'i16': (16, True), 'u16': (16, False), 'i32': (32, True), 'u32': (32, False),
         'i64': (64, True), 'u64': (64, False)}


def conv(t, w, signed):
    """what an integer variable receives"""
    lo = t.low()
    lo = lo if w == 64 else S(z3.Extract(w - 1, 0, E(lo, 64)))
    return ite(t.fits(w, signed), lo, 0, w)


def watch_in(x, t):
    x.watch += [('isint', t.isint), ('neg', t.neg), ('mag', t.mag)]


def from_int(T):
    w, sg = WIDTH[T]

    def body(x):
        t = In(x.st)
        watch_in(x, t)
        p = new_tobj(x.M, x.st, t, rc=1)

        def post(x, s, o):
            if ok(x, o):
                x.ob('conv', eq(o.v, conv(t, w, sg), w), 'the integer if it fits, otherwise 0')
        return [p], post
    return body


def holds_int(M, st, t, v, w, signed):
    """script value t is exactly the integer v"""
    if not isinstance(t, Out):
        return False
    if t.kind == 'int':
        v64 = sext(v, w) if signed else (v if isc(v) or w == 64 else S(z3.ZeroExt(64 - w, v)))
        return b_and(eq(t.v, v64), True if signed or w < 64 else sle(0, v64, 64))
    if t.kind == 'str':
        d = st.ghost.get(('dec', str(t.v.fn)))
        if d is None:
            return False
        dv, dw, ds = d
        a = sext(dv, dw) if ds else (dv if isc(dv) or dw == 64 else S(z3.ZeroExt(64 - dw, dv)))
        b = sext(v, w) if signed else (v if isc(v) or w == 64 else S(z3.ZeroExt(64 - w, v)))
        same = eq(a, b)
        return same if ds == signed else b_and(same, sle(0, a, 64))
    return False


def to_int(T):
    w, sg = WIDTH[T]

    def body(x):
        v = x.n('value', w)
        p = x.cell('v', v, w // 8, writable=False)
        ip = x.blob('interp', 8)

        def post(x, s, o):
            if ok(x, o):
                t = tobj(x.M, s, o.v)
                x.ob('conv', holds_int(x.M, s, t, v, w, sg), 'the script value is exactly this integer')
        return [p, Ptr(ip.id, 0)], post
    return body


for _T in WIDTH:
    spec('e_from_' + _T, from_int(_T), props=['C17'])
    spec('e_to_' + _T, to_int(_T), props=['C17'])


def from_dbl(x):
    t = In(x.st)
    p = new_tobj(x.M, x.st, t, rc=1)

    def post(x, s, o):
        if ok(x, o):
            good = o.v is t.dbl
            zero = isinstance(o.v, FloatV) and o.v.v == 0
            x.ob('conv', b_or(b_and(good, b_or(t.isint, t.isdbl)), b_and(zero, b_not(b_or(t.isint, t.isdbl)))), 'the number, or 0 if it is none')
    return [p], post


def to_dbl(x):
    f = FloatV(None, ('arg',))
    p = x.cell('v', f, 8, writable=False)
    ip = x.blob('interp', 8)

    def post(x, s, o):
        if ok(x, o):
            t = tobj(x.M, s, o.v)
            x.ob('conv', isinstance(t, Out) and t.kind == 'dbl' and t.v is f, 'the script value is exactly this number')
    return [p, Ptr(ip.id, 0)], post


def from_bool(x):
    t = In(x.st)
    p = new_tobj(x.M, x.st, t, rc=1)

    def post(x, s, o):
        if ok(x, o):
            x.ob('conv', b_iff(truth(o.v), b_and(t.isbool, eq(t.b, 1, 32))), 'the truth value, or false if it is none')
    return [p], post


def b_iff(a, b):
    return b_and(implies(a, b), implies(b, a))


def truth(v):
    return v if isinstance(v, bool) or z3.is_bool(v) else b_not(eq(v, 0, 1 if isc(v) else v.size()))


def boolcell(x, name='v', writable=False):
    v = x.n(name, 8)
    x.st.assume(ule(v, 1, 8))
    return v, x.cell(name, v, 1, writable=writable)


def holds_bool(t, v):
    return b_and(isinstance(t, Out) and t.kind == 'int', False if not (isinstance(t, Out) and t.kind == 'int') else eq(t.v, v if isc(v) else S(z3.ZeroExt(56, v))))


def to_bool(x):
    v, p = boolcell(x)
    ip = x.blob('interp', 8)

    def post(x, s, o):
        if ok(x, o):
            x.ob('conv', holds_bool(tobj(x.M, s, o.v), v), 'the script value is 1 for true and 0 for false')
    return [p, Ptr(ip.id, 0)], post


spec('e_from_double', from_dbl, props=['C17'])
spec('e_to_double', to_dbl, props=['C17'])
spec('e_from_bool', from_bool, props=['C17'])
spec('e_to_bool', to_bool, props=['C17'])


def from_str(x):
    t = In(x.st)
    p = new_tobj(x.M, x.st, t, rc=1)
    rp, _ = mk_str(x, 'r', raw=True)
    x.watch.append(('text.len', t.text.n))

    def post(x, s, o):
        if ok(x, o):
            x.same('conv', x.M.V.seq(s, rp), Seq(t.text.n, t.text.at), 'exactly the text of the script value')
    return [rp, p], post


def from_cstr(x):
    t = In(x.st)
    p = new_tobj(x.M, x.st, t, rc=1)

    def post(x, s, o):
        if ok(x, o):
            x.ob('conv', isinstance(o.v, Ptr) and o.v.r != 0, 'a C string')
            if isinstance(o.v, Ptr) and o.v.r:
                k = bv('k')
                s.add_idx(k)
                x.M.access(s, o.v, add(t.text.n, 1), False, 'text of the script value')
                rd = libc.view(x.M, s, o.v)
                x.ob('conv', implies(ult(k, t.text.n), eq(rd(k), t.text.at(k), 8)), 'exactly the text of the script value')
                x.ob('conv', eq(rd(t.text.n), 0, 8), 'terminated')
    return [p], post


def is_text(x, s, t, want, msg):
    if not (isinstance(t, Out) and t.kind == 'str'):
        x.ob('conv', False, msg)
        return
    x.same('conv', x.M.V.seq_of(s, t.v), want, msg)


def to_str(x):
    sp, q = mk_str(x, 's')
    x.st.assume(ult(q.n, IMAX))
    ip = x.blob('interp', 8)

    def post(x, s, o):
        if ok(x, o):
            is_text(x, s, tobj(x.M, s, o.v), q, 'the script value has exactly this text')
            x.same('perm', x.M.V.seq(s, sp), q, 's is left unchanged')
    return [sp, Ptr(ip.id, 0)], post


def to_cstr(x):
    p, q = x.cstr('s')
    x.st.assume(ult(q.n, IMAX))
    ip = x.blob('interp', 8)

    def post(x, s, o):
        if ok(x, o):
            is_text(x, s, tobj(x.M, s, o.v), q, 'the script value has exactly this text')
    return [p, Ptr(ip.id, 0)], post


spec('e_from_str', from_str, props=['C17'])
spec('e_from_cstr', from_cstr, props=['C17'])
spec('e_to_str', to_str, props=['C17'])
spec('e_to_cstr', to_cstr, props=['C17'])


class TList:
    pass


def mk_si(x):
    L, st = x.R.L, x.st
    r = st.new_region('si', 'obj', L['sizeof_si'], 'arg')
    r.meta['struct'] = True
    ip = x.blob('interp', 8)
    r.cells[L['interp']] = (8, Ptr(ip.id, 0))
    return Ptr(r.id, 0), Ptr(ip.id, 0)


def from_list(x):
    st, M = x.st, x.M
    r = st.new_region('r', 'obj', x.R.L['sizeof_arr'], 'arg')
    r.meta['struct'] = True
    rp = Ptr(r.id, 0)
    t = In(st)
    op = new_tobj(M, st, t, rc=1)
    si, ip = mk_si(x)
    T = M.tlist = TList()
    T.obj, T.islist, T.n = op, fbool('islist'), x.n('elements', hi=IMAX)
    objv = x.blob('objv', T.n, es=8)
    els = st.new_region('elements', 'obj', mul(T.n, 48), 'arg')
    els.meta['struct'] = True
    T.objv = objv.id
    T.els = els.id
    objv.meta['ptrelem'] = lambda M, s, reg, p, v: Ptr(els.id, mul(p.o, 48))

    def mk(s, key):
        e = In(s, 'elem')
        return e
    C = Cong(M, mk)

    def elem(M, s, o):
        e = C.get(s, ((o, 64),))
        s.assume(ule(e.text.n, IMAX - 1))
        return e
    els.meta['tobjs'] = elem

    class Mon:
        def step(self, M, s, v, q):
            M.oblige(s, 'conv', ult(v.n, T.n), 'no more elements than the list has')
            e = elem(M, s, mul(v.n, 48)).text
            M.oblige(s, 'conv', eq(q.n, e.n), 'element is the text of the list element in that place (length)')
            k = bv('k')
            s2 = s.clone()
            s2.assume(ult(k, e.n))
            s2.add_idx(k)
            M.oblige(s2, 'conv', eq(q.at(k), e.at(k), 8), 'element is the text of the list element in that place (character at any position)')
    M.mon = Mon()
    x.tl = T

    def post(x, s, o):
        if ok(x, o):
            v = aval(x.M, s, rp)
            x.ob('conv', eq(v.n, ite(T.islist, T.n, 0)), 'as many elements as the list has (none if it is no list)')
    return [rp, op, si], post


def H_list(x, ctx):
    out = []
    for n, g, w, kind in ctx.V:
        if w == 64:
            out.append(Cand(f'{n}<=count', lambda s, pv, g=g: ule(g(s, pv), x.tl.n)))
        if w == 32:
            out.append(Cand(f'{n}<=count', lambda s, pv, g=g: ule(S(z3.ZeroExt(32, E(g(s, pv), 32))), x.tl.n)))
            for n2, g2, w2, k2 in ctx.V:
                if w2 == 64:
                    out.append(Cand(f'{n2}==zext {n}', lambda s, pv, g=g, g2=g2: eq(S(z3.ZeroExt(32, E(g(s, pv), 32))), g2(s, pv))))
    return out


def H_arrlen(x, ctx):
    """length of the array being built"""
    out = []
    for rid, r in ctx.st0.regs.items():
        for o, (sz, v) in r.cells.items() if r.cells else ():
            if isinstance(v, AVal) and v.elems is None:
                ln = lambda s, rid=rid, o=o: s.regs[rid].cells[o][1].n
                out.append(Cand(f'len{rid}<=count', lambda s, pv, ln=ln: ule(ln(s), x.tl.n)))
                for n, g, w, kind in ctx.V:
                    if w == 64:
                        out.append(Cand(f'len{rid}=={n}', lambda s, pv, g=g, ln=ln: eq(ln(s), g(s, pv))))
                    if w == 32:
                        out.append(Cand(f'len{rid}==zext {n}', lambda s, pv, g=g, ln=ln: eq(ln(s), S(z3.ZeroExt(32, E(g(s, pv), 32))))))
    return out


spec('e_from_list', from_list, props=['C17'], hints=[H_list, H_arrlen])


def to_list(x):
    st, M, L = x.st, x.M, x.R.L
    sz = L['sizeof_str']
    r = st.new_region('a', 'obj', L['sizeof_arr'], 'arg')
    r.meta['struct'] = True
    n = x.n('elements', hi=IMAX)
    el = st.new_region('elements', 'obj', mul(n, sz), 'arg')
    el.meta['struct'] = True
    C = Cong(M, lambda s, key: fresh_sval(s, 'elem', IMAX - 1))

    def elem(s, o):
        v = C.get(s, ((o, 64),))
        s.assume(ult(v.n, IMAX))
        return v
    el.meta['elems'] = lambda M, s, o: (M.oblige(s, 'mem', ult(o, mul(n, sz)), 'element exists'), elem(s, o))[1]
    aput(M, st, Ptr(r.id, 0), AVal(n, el.id))
    ip = x.blob('interp', 8)

    def mon(M, s, c, q):
        M.oblige(s, 'conv', ult(c, n), 'no more elements than the array has')
        e = elem(s, mul(c, sz))
        M.oblige(s, 'conv', eq(q.n, e.n), 'list element has the text of the array element in that place (length)')
        k = bv('k')
        s2 = s.clone()
        s2.assume(ult(k, e.n))
        s2.add_idx(k)
        M.oblige(s2, 'conv', eq(q.at(k), e.at(k), 8), 'list element has the text of the array element in that place (character at any position)')
    M.listmon = mon
    x.tl = TList()
    x.tl.n, x.tl.sz = n, sz

    def post(x, s, o):
        if ok(x, o):
            t = tobj(x.M, s, o.v)
            x.ob('conv', isinstance(t, Out) and t.kind == 'list', 'a list')
            if isinstance(t, Out) and t.kind == 'list':
                x.ob('conv', eq(s.regs[o.v.r].cells[8][1], n), 'as many elements as the array has')
    return [Ptr(r.id, 0), Ptr(ip.id, 0)], post


def H_tolist(x, ctx):
    out = []
    for rid, r in ctx.st0.regs.items():
        if isinstance(r.meta.get('t'), Out) and r.meta['t'].kind == 'list':
            c = lambda s, rid=rid: s.regs[rid].cells[8][1]
            out.append(Cand('c<=n', lambda s, pv, c=c: ule(c(s), x.tl.n)))
            for n, g, w, kind in ctx.V:
                if w == 64:
                    out.append(Cand(f'{n}==c*size', lambda s, pv, g=g, c=c: eq(g(s, pv), mul(c(s), x.tl.sz))))
                    out.append(Cand(f'{n}==c', lambda s, pv, g=g, c=c: eq(g(s, pv), c(s))))
    return out


spec('e_to_list', to_list, props=['C17'], hints=[H_tolist])


# ---- lists of lists: the conversion of an inner list is used through its contract (e_from_list, e_to_list prove it) -----------
class LVal(AVal):
    """the array converted from the script value src"""
    __slots__ = ('src',)

    def __init__(self, n, src):
        AVal.__init__(self, n, None)
        self.src = src

    def fresh(self, st):
        raise Unsupported('inner list across iterations')


def l_from(M, st, a, ins, env):
    tobj(M, st, a[1])
    M.oblige(st, 'mem', isinstance(a[2], Ptr) and a[2].r == M.tlist.si.r, 'inner list converted for the interpreter')
    n = bv('inner')
    st.assume(ule(n, IMAX))
    aput(M, st, a[0], LVal(n, a[1]))
    return None


def l_push(M, st, a, ins, env):
    v, e = aval(M, st, a[0]), aval(M, st, a[1])
    if v.elems is not None:
        raise Unsupported('element appended to the operand')
    T = M.tlist
    M.oblige(st, 'conv', ult(v.n, T.n), 'no more elements than the list has')
    M.oblige(st, 'conv', isinstance(e, LVal) and e.src.r == T.els and eq(e.src.o, mul(v.n, 48)), 'element is the inner list in that place')
    aput(M, st, a[0], AVal(add(v.n, 1)))
    return a[0]


def l_to(M, st, a, ins, env):
    return new_tobj(M, st, Out('inner', a[0]))


def l_elem(M, st, a, ins, env):
    v = aval(M, st, a[0])
    if v.elems is None:
        raise Unsupported('element of a built array')
    return Ptr(v.elems, mul(a[1] if len(a) > 1 else 0, M.L['sizeof_arr']))


def l_end(M, st, a, ins, env):
    v = aval(M, st, a[0])
    if v.elems is None:
        raise Unsupported('element of a built array')
    return Ptr(v.elems, mul(v.n, M.L['sizeof_arr']))


_SA = r'bd::Array<bd::String>'
_R2 = r'bd::ReferenceCountedArray<bd::Array<bd::String>, std::allocator<bd::Array<bd::String> > >'
_A2 = r'(?:bd::Array<bd::Array<bd::String> >|' + _R2 + ')'
L2TAB = [
    (r'bd::tcl_to_c_cast<bd::Array<bd::String> >::from\(Tcl_Obj\*, bd::ScriptInterp\*\)', l_from),
    (r'bd::c_to_tcl_cast<bd::Array<bd::String> const&>::from\(bd::Array<bd::String> const&, Tcl_Interp\*\)', l_to),
    (_A2 + r'::(?:ReferenceCountedArray|Array)\(\)', a_default),
    (_A2 + r'::(?:ReferenceCountedArray|Array)\(unsigned long, std::allocator<bd::Array<bd::String> > const&\)', a_cap),
    (_A2 + r'::~(?:ReferenceCountedArray|Array)\(\)', a_dtor),
    (_R2 + r'::(?:size|length)\(\) const', a_size),
    (_R2 + r'::(?:push_back|append)\(' + _SA + r'(?: const&|&&)\)', l_push),
    (r'bd::operator<<\(bd::Array<' + _SA + r' >&, ' + _SA + r'(?: const&|&&)\)', l_push),
    (_R2 + r'::(?:constBuf|operator\[\]|at|read)\(unsigned long\) const', l_elem),
    (_R2 + r'::(?:begin|cbegin|data)\(\) const', l_elem),
    (_R2 + r'::(?:end|cend)\(\) const', l_end),
]
for _p, _h in L2TAB[:2]:
    _h.is_contract = 'conversion of the inner list'


def nested(M):
    M.ext_patterns = tuple((re.compile('^' + p + '$'), h) for p, h in L2TAB) + tuple(M.ext_patterns)


def from_list2(x):
    args, post = from_list(x)
    nested(x.M)
    T = x.M.tlist
    T.si = args[2]
    x.M.mon = None
    return args, post


def to_list2(x):
    st, M, L = x.st, x.M, x.R.L
    nested(M)
    r = st.new_region('a', 'obj', L['sizeof_arr'], 'arg')
    r.meta['struct'] = True
    n = x.n('elements', hi=IMAX)
    sz = L['sizeof_arr']
    el = st.new_region('elements', 'obj', mul(n, sz), 'arg')
    el.meta['struct'] = True
    aput(M, st, Ptr(r.id, 0), AVal(n, el.id))
    ip = x.blob('interp', 8)

    def mon(M, s, c, e):
        M.oblige(s, 'conv', ult(c, n), 'no more elements than the array has')
        M.oblige(s, 'conv', isinstance(e, Out) and e.kind == 'inner' and e.v.r == el.id and eq(e.v.o, mul(c, sz)), 'list element is the conversion of the array element in that place')
    M.submon = mon
    x.tl = TList()
    x.tl.n, x.tl.sz = n, sz

    def post(x, s, o):
        if ok(x, o):
            t = tobj(x.M, s, o.v)
            x.ob('conv', isinstance(t, Out) and t.kind == 'list', 'a list')
            if isinstance(t, Out) and t.kind == 'list':
                x.ob('conv', eq(s.regs[o.v.r].cells[8][1], n), 'as many elements as the array has')
    return [Ptr(r.id, 0), Ptr(ip.id, 0)], post


spec('e_from_list2', from_list2, props=['C17'], hints=[H_list, H_arrlen])
spec('e_to_list2', to_list2, props=['C17'], hints=[H_tolist])


# ---- commands ---------------------------------------------------------------------------------------------------------------
def mk_argv(x, n):
    """argv of n values (n may be symbolic); value i is an arbitrary script value"""
    st = x.st
    objv = x.blob('objv', n, es=8)
    x.args = {}

    def elem(M, s, reg, p, v):
        if not isc(p.o):
            raise Unsupported('argument at a symbolic place')
        return x.args[p.o]
    for i in range(5):
        x.args[i] = new_tobj(x.M, st, In(st, f'arg{i}'), f'arg{i}', rc=1)
    objv.meta['ptrelem'] = elem
    return Ptr(objv.id, 0)


MAP_CMD = r'std::unordered_map<bd::String, std::shared_ptr<bd::ScriptInterp::ScriptCmd>, .*>'


def cmd_key(M, st, p):
    if not skolem(M, st, M.V.seq(st, p), M.cmdname):
        M.oblige(st, 'cmd', False, 'the command is looked up by the name it was called with')
        raise Kill()


def m_find(M, st, a, ins, env):
    cmd_key(M, st, a[1])
    s2 = st.clone()
    st.assume(M.known)
    s2.assume(b_not(M.known))
    return [RET(st, Ptr(M.node, 0)), RET(s2, Ptr(0, 0))]


def m_index(M, st, a, ins, env):
    cmd_key(M, st, a[1])
    s2 = st.clone()
    st.assume(M.known)
    s2.assume(b_not(M.known))
    r = s2.new_region('newslot', 'obj', 16, 'map')
    r.meta['struct'] = True
    r.cells[0], r.cells[8] = (8, Ptr(0, 0)), (8, Ptr(0, 0))
    return [RET(st, Ptr(M.node, M.L['sizeof_str'])), RET(s2, Ptr(r.id, 0))]


def m_count(M, st, a, ins, env):
    cmd_key(M, st, a[1])
    return ite(M.known, 1, 0)


def m_end(M, st, a, ins, env):
    return Ptr(0, 0)


def it_val(M, st, a, ins, env):
    return M.load(st, a[0], 'ptr')


def it_eq(M, st, a, ins, env):
    p, q = M.load(st, a[0], 'ptr'), M.load(st, a[1], 'ptr')
    return p.r == q.r


def it_ne(M, st, a, ins, env):
    return not it_eq(M, st, a, ins, env)


def sp_copy(M, st, a, ins, env):
    for o in (0, 8):
        M.store(st, Ptr(a[0].r, add(a[0].o, o)), 'ptr', M.load(st, Ptr(a[1].r, add(a[1].o, o)), 'ptr'))
    st.ghost['held'] = st.ghost.get('held', 0) + 1
    return None


def sp_dtor(M, st, a, ins, env):
    M.load(st, a[0], 'ptr')
    st.ghost['held'] = st.ghost.get('held', 0) - 1
    return None


CTAB = [(MAP_CMD + r'::find\(bd::String const&\)(?: const)?', m_find), (MAP_CMD + r'::operator\[\]\(bd::String(?: const&|&&)\)', m_index),
        (MAP_CMD + r'::count\(bd::String const&\) const', m_count),
        (MAP_CMD + r'::c?end\(\)(?: const)?', m_end),
        (r'std::__detail::_Node_(?:const_)?iterator<.*>::operator(?:\*|->)\(\) const', it_val),
        (r'std::__detail::operator==\(std::__detail::_Node_iterator_base<.*', it_eq),
        (r'std::__detail::operator!=\(std::__detail::_Node_iterator_base<.*', it_ne),
        (r'std::shared_ptr<bd::ScriptInterp::ScriptCmd>::shared_ptr\(std::shared_ptr<bd::ScriptInterp::ScriptCmd> const&\)', sp_copy),
        (r'std::(?:__)?shared_ptr<bd::ScriptInterp::ScriptCmd.*>::~(?:__)?shared_ptr\(\)', sp_dtor)]


def trampoline(x):
    st, M, L = x.st, x.M, x.R.L
    objc = x.n('objc', 32)
    st.assume(b_and(sle(1, objc, 32), ule(objc, IMAX - 1, 32)))
    objv = mk_argv(x, S(z3.ZeroExt(32, objc)))
    name = st.regs[x.args[0].r].meta['t'].text
    M.cmdname = Seq(name.n, name.at)
    M.known = fbool('registered')
    x.watch.append(('registered', M.known))
    si, ip = mk_si(x)
    # the registered command
    c = st.new_region('command', 'obj', L['sizeof_cmd'], 'arg')
    c.meta['struct'] = True
    mn, mx = x.n('min'), x.n('max')
    px = st.new_region('handler', 'obj', 64, 'arg')
    px.meta['struct'] = True
    vt = st.new_region('vtable', 'obj', 64, 'arg')
    vt.meta['struct'] = True
    for o in range(0, 64, 8):
        vt.cells[o] = (8, FnPtr('#handler' if o == 16 else '#other'))
    px.cells[0] = (8, Ptr(vt.id, 0))
    c.cells[L['c_si']] = (8, si)
    M.V.put(st, Ptr(c.id, L['c_name']), fresh_sval(st, 'cmdname'))
    c = st.wr(c.id)
    c.cells[L['c_proxy']] = (8, Ptr(px.id, 0))
    up, uq = x.cstr('usage')
    c.cells[L['c_usage']] = (8, up if x.cfg['usage'] else Ptr(0, 0))
    c.cells[L['c_min']], c.cells[L['c_max']] = (8, mn), (8, mx)
    node = st.new_region('node', 'obj', L['sizeof_str'] + 16, 'arg')
    node.meta['struct'] = True
    M.V.put(st, Ptr(node.id, 0), SVal(name.n, name.at, fn=name.fn))
    node = st.wr(node.id)
    node.cells[L['sizeof_str']] = (8, Ptr(c.id, 0))
    node.cells[L['sizeof_str'] + 8] = (8, Ptr(c.id, 0))
    M.node = node.id

    def handler(M, s, a, ins, env):
        log(s, 'call', a[0], a[1], a[2], a[3], a[4])
        outs = []
        for kind in ('ret', 'string', 'other'):
            q = s.clone() if kind != 'other' else s
            # the command may remove itself from the interpreter while it runs
            if not q.ghost.get('held', 0):
                for rid in (c.id, px.id):
                    q.wr(rid).freed = True
            q.wr(node.id).freed = True
            q.ghost['how'] = kind
            if kind == 'ret':
                outs.append(RET(q))
            elif kind == 'string':
                q.ghost['thrown'] = fresh_sval(q, 'thrown', IMAX - 1)
                outs.append((q, Outcome('throw', STRING)))
            else:
                outs.append((q, Outcome('throw', '_ZTISt9exception')))
        return outs

    M.ext['#handler'] = handler

    def post(x, s, o):
        if o.kind != 'ret':
            x.ob('exc', False, f'no exception reaches the interpreter ({o.kind} {o.v})')
            return
        calls, res = events(s, 'call'), events(s, 'result')
        n = sub(S(z3.ZeroExt(32, objc)), 1)
        acceptable = b_and(M.known, ule(mn, n), ule(n, mx))
        x.ob('cmd', b_iff(acceptable, bool(calls)), 'the command runs exactly if it is registered and the number of arguments is within its bounds')
        x.ob('cmd', len(calls) <= 1, 'the command runs once')
        if not calls:
            x.ob('cmd', eq(o.v, 1, 32), 'an error is returned')
            x.ob('cmd', bool(res), 'an error message is left in the interpreter')
            return
        e = calls[0]
        x.ob('cmd', isinstance(e[1], Ptr) and e[1].r == px.id, 'the handler of that command')
        x.ob('cmd', eq(e[2], S(z3.ZeroExt(32, objc))), 'with that number of arguments')
        x.ob('cmd', isinstance(e[3], Ptr) and e[3].r == objv.r and (isc(e[3].o) and e[3].o == 0), 'with exactly these arguments')
        x.ob('cmd', isinstance(e[4], Ptr) and e[4].r == si.r, 'and the interpreter it is registered with')
        x.ob('cmd', isinstance(e[5], Ptr) and e[5].r == ip.r, 'and the calling interpreter')
        how = s.ghost['how']
        if how == 'ret':
            x.ob('cmd', eq(o.v, 0, 32), 'success is returned')
            x.ob('cmd', not res, 'the result the command set is kept')
        else:
            x.ob('cmd', eq(o.v, 1, 32), 'an exception becomes a script error')
            x.ob('cmd', len(res) >= 1, 'with a message')
            if how == 'string' and res:
                t = res[-1][1]
                if isinstance(t, Out) and t.kind == 'str':
                    v = s.ghost['thrown']
                    x.same('cmd', x.M.V.seq_of(s, t.v), Seq(v.n, v.at), 'the message is the text thrown')
                else:
                    x.ob('cmd', False, 'the message is the text thrown')
    return [ip, objc, objv], post


spec('e_trampoline', trampoline, cfgs=[{'usage': False}, {'usage': True}], props=['C18'])

TYPES = {'i': 'i32', 'h': 'i16', 'b': 'u8', 'u': 'u64'}


def command(ret, params):
    """ScriptCommandHandlerTCL<ret, params...>::call"""
    def body(x):
        st, M, L = x.st, x.M, x.R.L
        argc = x.n('argc')
        st.assume(b_and(ule(1, argc), ule(argc, len(params) + 1)))
        argv = mk_argv(x, argc)
        si, ip = mk_si(x)

        def cb(M, s, a, ins, env):
            a = list(a)
            rp = a.pop(0) if ret == 's' else None
            got = []
            for k, v in zip(params, a):
                got.append(M.V.seq(s, v) if k == 's' else v)
            rv = None
            q = s.clone()
            if ret == 's':
                rv = fresh_sval(s, 'result', IMAX - 1)
                M.V.put(s, rp, rv)
            elif ret != 'v':
                rv = bv('result', WIDTH[TYPES[ret]][0])
            log(s, 'call', got, rv)
            log(q, 'call', got, None)
            return [RET(s, None if ret == 's' else rv), (q, Outcome('throw', STRING))]
        M.ext['#cb'] = cb

        def post(x, s, o):
            calls = events(s, 'call')
            x.ob('cmd', len(calls) == 1, 'the command is called once')
            if len(calls) != 1:
                return
            got, rv = calls[0][1], calls[0][2]
            for j, k in enumerate(params):
                given = ule(j + 2, argc)
                t = s.regs[x.args[j + 1].r].meta['t']
                if k == 's':
                    want = Seq(ite(given, t.text.n, 0), t.text.at)
                    x.same('cmd', got[j], want, f'parameter {j + 1} is that argument, or empty if it was not given')
                else:
                    w, sg = WIDTH[TYPES[k]]
                    x.ob('cmd', eq(got[j], ite(given, conv(t, w, sg), 0, w), w), f'parameter {j + 1} is that argument, or 0 if it was not given')
            res = events(s, 'result')
            if o.kind == 'throw' and o.v == STRING:
                x.ob('cmd', not res, 'no result when it throws')
                return
            if not ok(x, o):
                return
            if ret == 'v':
                x.ob('cmd', not res, 'no result')
                return
            x.ob('cmd', len(res) == 1, 'its result becomes the script result')
            if len(res) != 1:
                return
            t = res[0][1]
            if ret == 's':
                if isinstance(t, Out) and t.kind == 'str':
                    x.same('cmd', x.M.V.seq_of(s, t.v), Seq(rv.n, rv.at), 'its result becomes the script result')
                else:
                    x.ob('cmd', False, 'its result becomes the script result')
            else:
                w, sg = WIDTH[TYPES[ret]]
                x.ob('cmd', holds_int(x.M, s, t, rv, w, sg), 'its result becomes the script result')
        return [FnPtr('#cb'), argc, argv, si, ip], post
    return body


for _n, _r, _p in (('v', 'v', ''), ('i_i', 'i', 'i'), ('s_s', 's', 's'), ('v_si', 'v', 'si'), ('u_isu', 'u', 'hsb')):
    spec('e_cmd_' + _n, command(_r, _p), props=['C18'])


# ---- linked variables -----------------------------------------------------------------------------------------------------
def name_is(M, st, p):
    """C string p is the linked name"""
    if not skolem(M, st, cstr_arg(M, st, p), M.lname):
        M.oblige(st, 'link', False, 'the variable of that name is meant')
        raise Kill()


def key_is(M, st, p):
    if not skolem(M, st, M.V.seq(st, p), M.lname):
        M.oblige(st, 'link', False, 'the entry of that name is meant')
        raise Kill()


def t_setvar(M, st, a, ins, env):
    name_is(M, st, a[1])
    M.oblige(st, 'link', not st.ghost.get('oldlink'), 'an earlier link of that name is removed before the variable is set')
    r = st.regs[a[3].r]
    if r.meta.get('repof') is not None and isc(a[3].o) and a[3].o == 0:
        t = st.regs[r.meta['repof']].meta['t']
        if t.kind == 'str':
            t = Out('str', seq_val(st, cstr_arg(M, st, a[3])))
    else:
        t = Out('str', seq_val(st, cstr_arg(M, st, a[3])))
    log(st, 'set', t)
    return a[3]


def t_setvarx(M, st, a, ins, env):
    name_is(M, st, a[1])
    M.oblige(st, 'link', not st.ghost.get('oldlink'), 'an earlier link of that name is removed before the variable is set')
    t = tobj(M, st, a[3])
    log(st, 'set', t)
    # the variable keeps a reference
    r = st.wr(a[3].r)
    rc = r.cells[0][1]
    r.cells[0] = (4, add32(rc, 1))
    return a[3]


def add32(a, b):
    return (a + b) & mask(32) if isc(a) else S(a + b)


def t_unset(M, st, a, ins, env):
    name_is(M, st, a[1])
    st.ghost['oldlink'] = False
    st.ghost['traces'] = ()
    log(st, 'unset')
    return 0


def t_trace(M, st, a, ins, env):
    name_is(M, st, a[1])
    flags, proc, cd = a[3], a[4], a[5]
    if not isc(flags):
        raise Unsupported('trace flags')
    st.ghost['traces'] = st.ghost.get('traces', ()) + ((flags, proc, cd),)
    return 0


def t_getvar(M, st, a, ins, env):
    t = tobj(M, st, a[1])
    if not skolem(M, st, M.V.seq_of(st, t_str(M, st, t)), M.lname):
        M.oblige(st, 'link', False, 'the variable of that name is read')
        raise Kill()
    s2 = st.clone()
    s2.ghost['novalue'] = True
    return [RET(st, M.varobj), RET(s2, Ptr(0, 0))]


def t_getvarx(M, st, a, ins, env):
    name_is(M, st, a[1])
    s2 = st.clone()
    s2.ghost['novalue'] = True
    return [RET(st, M.varobj), RET(s2, Ptr(0, 0))]


def fire(M, st, a, ins, env):
    outs = [RET(st, Ptr(0, 0))]
    tr = [t for t in st.ghost.get('traces', ()) if t[0] & a[2]]
    M.oblige(st, 'link', len(tr) == 1, 'exactly one trace is in place')
    M.oblige(st, 'link', not st.ghost.get('oldlink'), 'no earlier link of that name is left')
    if len(tr) != 1:
        raise Kill()
    log(st, 'fire')
    flags, proc, cd = tr[0]
    if not isinstance(proc, FnPtr):
        raise Unsupported('trace procedure')
    M.oblige(st, 'link', bool(flags & 1), 'the global variable is traced')
    return M.call_fn(st, proc.name, [cd, a[0], a[1], Ptr(0, 0), flags])


MAP_HOOK = r'std::unordered_map<bd::String, void \(\*\)\(void const\*, void const\*\), .*>'
MAP_PTR = r'std::unordered_map<bd::String, std::unique_ptr<bd::ScriptInterpTCL::trace_ptr_data, .*>'


def slot(M, st, which):
    """entry of the linked name, or None"""
    return st.ghost.get('slot_' + which)


def mkslot(M, st, which, v):
    r = st.new_region('entry', 'obj', M.L['sizeof_str'] + (16 if which == 'cmd' else 8), 'map')
    r.meta['struct'] = True
    M.V.put(st, Ptr(r.id, 0), SVal(M.lname.n, M.lname.at))
    st.wr(r.id).cells[M.L['sizeof_str']] = (8, v)
    st.ghost['slot_' + which] = r.id
    return r.id


def h_index(which):
    def h(M, st, a, ins, env):
        key_is(M, st, a[1])
        r = slot(M, st, which)
        if r is None:
            r = mkslot(M, st, which, Ptr(0, 0))
        return Ptr(r, M.L['sizeof_str'])
    return h


def h_find(which):
    def h(M, st, a, ins, env):
        key_is(M, st, a[1])
        return Ptr(slot(M, st, which) or 0, 0)
    return h


def h_erase(which):
    def h(M, st, a, ins, env):
        key_is(M, st, a[1])
        r = slot(M, st, which)
        if r is None:
            return 0
        v = st.regs[r].cells[M.L['sizeof_str']][1]
        if which == 'ptr' and isinstance(v, Ptr) and v.r:
            st.wr(v.r).freed = True
        st.wr(r).freed = True
        st.ghost['slot_' + which] = None
        return 1
    return h


def mp_end(M, st, a, ins, env):
    return Ptr(0, 0)


LTAB = []
for _m, _w in ((MAP_HOOK, 'hook'), (MAP_PTR, 'ptr')):
    LTAB += [(_m + r'::operator\[\]\(bd::String(?: const&|&&)\)', h_index(_w)), (_m + r'::find\(bd::String const&\)(?: const)?', h_find(_w)),
             (_m + r'::erase\(bd::String const&\)', h_erase(_w)), (_m + r'::c?end\(\)(?: const)?', mp_end)]
for _p, _h in CTAB + LTAB:
    _h.is_contract = None
    del _h.is_contract


def mk_link(x):
    """interpreter and name; the name may be linked already"""
    st, M, L = x.st, x.M, x.R.L
    si, ip = mk_si(x)
    np, q = mk_str(x, 'name')
    nv = M.V.raw(st, np)
    st.facts.append(Fact(nv.fn, lambda i: implies(ult(i, nv.n), b_not(eq(nv.fn(i), 0, 8)))))
    st.assume(ult(q.n, IMAX))
    M.lname = q
    M.varobj = new_tobj(M, st, In(st, 'var'), 'variable', rc=1)
    x.val = st.regs[M.varobj.r].meta['t']
    watch_in(x, x.val)
    old = x.cfg.get('old')
    st.ghost['oldlink'] = bool(old)
    st.ghost['slot_hook'] = st.ghost['slot_ptr'] = None
    if old:
        mkslot(M, st, 'hook', FnPtr('#oldhook'))
        r = st.new_region('olddata', 'obj', 16, 'new')
        r.meta['struct'] = True
        mkslot(M, st, 'ptr', Ptr(r.id, 0))
    vt = M.gptr(st, '_ZTVN2bd15ScriptInterpTCLE')
    st.wr(si.r).cells[0] = (8, Ptr(vt.r, 16))

    def hook(M, s, a, ins, env):
        log(s, 'hook', a[0], a[1], snapshot(M, s, a[0], x), snapshot(M, s, a[1], x))
        return None
    M.ext['#hook'] = hook

    def oldhook(M, s, a, ins, env):
        M.oblige(s, 'link', False, 'the hook of an earlier link is not called')
        return None
    M.ext['#oldhook'] = oldhook
    return si, ip, np


def snapshot(M, st, p, x):
    if not isinstance(p, Ptr) or p.r == 0:
        return None
    r = st.regs[p.r]
    if r.freed:
        return None
    if r.kind == 'obj' and isc(p.o):
        c = r.cells.get(p.o)
        return c[1] if c else None
    return (r.chain, p.o, r.size)


def since_fire(st):
    tr = st.ghost.get('trace', ())
    for i in range(len(tr) - 1, -1, -1):
        if tr[i][0] == 'fire':
            return tr[i + 1:]
    return ()


def mk_var(x, T, const):
    st, M = x.st, x.M
    if T in WIDTH:
        w, sg = WIDTH[T]
        v = x.n('value', w)
        return v, x.cell('var', v, w // 8, writable=not const)
    if T == 'bool':
        return boolcell(x, 'var', not const)
    if T == 'double':
        v = FloatV(None, ('arg',))
        return v, x.cell('var', v, 8, writable=not const)
    p, q = mk_str(x, 'var')
    st.assume(ult(q.n, IMAX))
    return M.V.raw(st, p), p


def same_var(x, T, got, want):
    """obligations: the variable holds want"""
    if T in WIDTH or T == 'bool':
        w = 8 if T == 'bool' else WIDTH[T][0]
        if z3.is_bool(got) or isinstance(got, bool):
            got = ite(got, 1, 0, 8)
        return eq(got, want, w)
    if T == 'double':
        return got is want
    return None


def shows(x, s, T, t, v, tag='link'):
    msg = 'reading the script variable gives the value of the linked variable'
    if T in WIDTH:
        x.ob(tag, holds_int(x.M, s, t, v, *WIDTH[T]), msg)
    elif T == 'bool':
        x.ob(tag, holds_bool(t, v), msg)
    elif T == 'double':
        x.ob(tag, isinstance(t, Out) and t.kind == 'dbl' and t.v is v, msg)
    else:
        if isinstance(t, Out) and t.kind == 'str':
            x.same(tag, x.M.V.seq_of(s, t.v), Seq(v.n, v.at), msg)
        else:
            x.ob(tag, False, msg)


def link_get(T, const):
    def body(x):
        si, ip, np = mk_link(x)
        v, p = mk_var(x, T, const)

        def post(x, s, o):
            if not ok(x, o):
                return
            ev = [e for e in since_fire(s) if e[0] == 'set']
            x.ob('link', isinstance(o.v, Ptr) and o.v.r == 0, 'reading is no error')
            x.ob('link', len(ev) >= 1, 'the script variable is refreshed')
            if ev:
                shows(x, s, T, ev[-1][1], v)
            unchanged(x, s, T, p, v)
        return [si, np, p], post
    return body


def unchanged(x, s, T, p, v, msg='the linked variable is left unchanged'):
    if T == 'String':
        x.same('link', x.M.V.seq(s, p), Seq(v.n, v.at), msg)
    else:
        x.ob('link', same_var(x, T, s.regs[p.r].cells[p.o][1], v), msg)


def link_set(T, const):
    def body(x):
        si, ip, np = mk_link(x)
        v, p = mk_var(x, T, const)
        hook = x.cfg.get('hook')

        def post(x, s, o):
            if not ok(x, o):
                return
            err = isinstance(o.v, Ptr) and o.v.r == 0
            hooks = [e for e in since_fire(s) if e[0] == 'hook']
            if const or s.ghost.get('novalue'):
                x.ob('link', not err, 'writing is refused' if const else 'an error is reported when there is no value')
                unchanged(x, s, T, p, v)
                x.ob('link', not hooks, 'no hook is called')
                return
            x.ob('link', err, 'writing succeeds')
            t = x.val
            msg = 'the linked variable receives the value written'
            if T == 'String':
                x.same('link', x.M.V.seq(s, p), Seq(t.text.n, t.text.at), msg)
            else:
                got = s.regs[p.r].cells[p.o][1]
                if T in WIDTH:
                    x.ob('link', eq(got, conv(t, *WIDTH[T]), WIDTH[T][0]), msg)
                elif T == 'bool':
                    x.ob('link', eq(got if not (z3.is_bool(got) or isinstance(got, bool)) else ite(got, 1, 0, 8), ite(b_and(t.isbool, eq(t.b, 1, 32)), 1, 0, 8), 8), msg)
                else:
                    num = b_or(t.isint, t.isdbl)
                    x.ob('link', b_or(b_and(got is t.dbl, num), b_and(isinstance(got, FloatV) and got.v == 0, b_not(num))), msg)
            x.ob('link', len(hooks) == (1 if hook else 0), 'the hook is called once if there is one')
            if hook and len(hooks) == 1:
                _, a, b, ov, nv = hooks[0]
                x.ob('link', isinstance(b, Ptr) and b.r == p.r, 'the hook gets the linked variable')
                if T == 'String':
                    x.ob('link', isinstance(ov, SVal), 'the hook gets the old value')
                    if isinstance(ov, SVal):
                        x.same('link', x.M.V.seq_of(s, ov), Seq(v.n, v.at), 'the hook gets the old value')
                else:
                    c = same_var(x, T, ov, v) if ov is not None else False
                    x.ob('link', c, 'the hook gets the old value')
        return [si, np, p] + ([] if const else [FnPtr('#hook') if hook else Ptr(0, 0)]), post
    return body


OLD = [{'old': False}, {'old': True}]
for _T in list(WIDTH) + ['double', 'bool', 'String']:
    _o = OLD if _T in ('i32', 'String') else [{'old': True}]
    spec('e_link_get_' + _T, link_get(_T, False), cfgs=_o, props=['C24'])
    spec('e_link_set_' + _T, link_set(_T, False), cfgs=[{**c, 'hook': h} for c in _o for h in (False, True)], props=['C24'])
    spec('e_link_getc_' + _T, link_get(_T, True), cfgs=_o, props=['C24'])
    spec('e_link_setc_' + _T, link_set(_T, True), cfgs=_o, props=['C24'])


def buf_get(x):
    si, ip, np = mk_link(x)
    p, q = x.cstr('buf')
    x.st.assume(ult(q.n, IMAX))
    z = x.st.regs[p.r].size

    def post(x, s, o):
        if not ok(x, o):
            return
        ev = [e for e in since_fire(s) if e[0] == 'set']
        x.ob('link', len(ev) >= 1, 'the script variable is refreshed')
        if ev:
            shows(x, s, 'String', ev[-1][1], q)
    return [si, np, p] + ([z] if x.cfg.get('size') else []), post


spec('e_link_get_buf', buf_get, cfgs=[{**c, 'size': True} for c in OLD], props=['C24'])
spec('e_link_get_cstr', buf_get, cfgs=OLD, props=['C24'])


def buf_set(x):
    si, ip, np = mk_link(x)
    st = x.st
    b = x.blob('buf', x.n('size', hi=CAP), writable=True)
    z = b.size
    st.assume(ule(1, z))
    old = b.chain
    t = x.val.text
    st.facts.append(Fact(t.fn, lambda i: implies(ult(i, t.n), b_not(eq(t.fn(i), 0, 8)))))
    x.watch.append(('text.len', t.n))
    hook = x.cfg['hook']

    def post(x, s, o):
        if not ok(x, o):
            return
        hooks = [e for e in since_fire(s) if e[0] == 'hook']
        if s.ghost.get('novalue'):
            x.ob('link', isinstance(o.v, Ptr) and o.v.r != 0, 'an error is reported when there is no value')
            x.ob('link', not hooks, 'no hook is called')
            k = bv('k')
            s.add_idx(k)
            x.ob('link', implies(ult(k, z), eq(s.regs[b.id].chain.read(k), old.read(k), 8)), 'the buffer is left unchanged')
            return
        x.ob('link', isinstance(o.v, Ptr) and o.v.r == 0, 'writing succeeds')
        m = umin(t.n, sub(z, 1))
        ch = s.regs[b.id].chain
        k = bv('k')
        s.add_idx(k, m)
        x.ob('link', implies(ult(k, m), eq(ch.read(k), t.at(k), 8)), 'the buffer receives as much of the text as fits')
        x.ob('link', eq(ch.read(m), 0, 8), 'and is terminated there')
        x.ob('link', len(hooks) == (1 if hook else 0), 'the hook is called once if there is one')
        if hook and len(hooks) == 1:
            _, a, p, ov, nv = hooks[0]
            x.ob('link', isinstance(p, Ptr) and p.r == b.id, 'the hook gets the buffer')
            good = isinstance(ov, tuple)
            x.ob('link', good, 'the hook gets the old text')
            if good:
                c0, off, n = ov
                x.ob('link', implies(b_and(ult(k, z)), eq(c0.read(add(off, k)), old.read(k), 8)), 'the hook gets the old text')
    return [si, np, Ptr(b.id, 0), z, FnPtr('#hook') if hook else Ptr(0, 0)], post


spec('e_link_set_buf', buf_set, cfgs=[{**c, 'hook': h} for c in OLD for h in (False, True)], props=['C24'])


def cstr_set(x):
    si, ip, np = mk_link(x)
    p, q = x.cstr('buf')

    def post(x, s, o):
        if ok(x, o):
            x.ob('link', isinstance(o.v, Ptr) and o.v.r != 0, 'writing is refused')
            x.ob('link', not [e for e in since_fire(s) if e[0] == 'hook'], 'no hook is called')
    return [si, np, p], post


spec('e_link_set_cstr', cstr_set, cfgs=OLD, props=['C24'])


def unlink(x):
    si, ip, np = mk_link(x)

    def post(x, s, o):
        if ok(x, o):
            x.ob('link', not s.ghost.get('oldlink'), 'the variable is removed with its traces')
            x.ob('link', slot(x.M, s, 'hook') is None and slot(x.M, s, 'ptr') is None, 'nothing is kept about it')
    return [si, np], post


spec('e_unlink', unlink, cfgs=OLD, props=['C24'])


# ---- registration ------------------------------------------------------------------------------------------------------------
def r_index(M, st, a, ins, env):
    key_is(M, st, a[1])
    r = slot(M, st, 'cmd')
    if r is None:
        r = mkslot(M, st, 'cmd', Ptr(0, 0))
        st.wr(r).cells[M.L['sizeof_str'] + 8] = (8, Ptr(0, 0))
    return Ptr(r, M.L['sizeof_str'])


def r_count(M, st, a, ins, env):
    key_is(M, st, a[1])
    return 1 if slot(M, st, 'cmd') is not None else 0


def r_erase(M, st, a, ins, env):
    key_is(M, st, a[1])
    return r_drop(M, st, 1)


def r_clear(M, st, a, ins, env):
    return r_drop(M, st, None)


def r_drop(M, st, v):
    r = slot(M, st, 'cmd')
    if r is None:
        return [RET(st, 0 if v else None)]
    st.ghost['slot_cmd'] = None
    outs = M.call_fn(st, 'bdv_destroy_cmd', [Ptr(r, M.L['sizeof_str'])])
    for s, o in outs:
        s.wr(r).freed = True
    return [RET(s, v) if o.kind == 'ret' else (s, o) for s, o in outs]


def drop_all(which):
    def h(M, st, a, ins, env):
        r = slot(M, st, which)
        if r is not None:
            st.wr(r).freed = True
            st.ghost['slot_' + which] = None
        return None
    return h


RTAB = [(MAP_CMD + r'::operator\[\]\(bd::String(?: const&|&&)\)', r_index), (MAP_CMD + r'::find\(bd::String const&\)(?: const)?', h_find('cmd')),
        (MAP_CMD + r'::count\(bd::String const&\) const', r_count), (MAP_CMD + r'::erase\(bd::String const&\)', r_erase),
        (MAP_CMD + r'::clear\(\)', r_clear), (MAP_HOOK + r'::clear\(\)', drop_all('hook')), (MAP_PTR + r'::clear\(\)', drop_all('ptr')),
        (MAP_PTR + r'::~unordered_map\(\)', drop_all('ptr'))]


def live_interp(M, st, p):
    M.oblige(st, 'cmd', not st.ghost.get('dead'), 'the interpreter still exists')
    M.oblige(st, 'cmd', isinstance(p, Ptr) and p.r == M.ip.r, 'that interpreter')


def t_create_cmd(M, st, a, ins, env):
    live_interp(M, st, a[0])
    name_is(M, st, a[1])
    if not isinstance(a[2], FnPtr):
        raise Unsupported('command procedure')
    if isinstance(a[4], FnPtr) or (isinstance(a[4], Ptr) and a[4].r):
        raise Unsupported('delete procedure')
    st.ghost['tclcmd'] = (a[2].name, a[3])
    return Ptr(M.ip.r, 0)


def t_delete_cmd(M, st, a, ins, env):
    live_interp(M, st, a[0])
    name_is(M, st, a[1])
    had = st.ghost.get('tclcmd') is not None
    st.ghost['tclcmd'] = None
    return 0 if had else mask(32)


def t_delete_interp(M, st, a, ins, env):
    live_interp(M, st, a[0])
    st.ghost['dead'] = True
    st.ghost['tclcmd'] = None
    return None


def t_invoke(M, st, a, ins, env):
    live_interp(M, st, a[0])
    name_is(M, st, a[1])
    c = st.ghost.get('tclcmd')
    log(st, 'invoke')
    if c is None:
        log(st, 'unknown')
        return [RET(st, 1)]
    return M.call_fn(st, c[0], [c[1], a[0], a[2], a[3]])


def mk_reg(x, argv=True):
    st, M = x.st, x.M
    M.ext_patterns = tuple((re.compile('^' + p + '$'), h) for p, h in RTAB) + tuple(
        e for e in M.ext_patterns if e[1] not in (sp_copy, sp_dtor, m_find, m_index, m_count))
    si, ip, np = mk_link(x)
    M.ip = ip
    st.ghost['slot_cmd'] = None
    st.ghost['tclcmd'] = None
    st.ghost['escapes'] = True
    M.ext.update({'#cb': reg_cb('#cb'), '#cb0': reg_cb('#cb0')})
    if not argv:
        return si, ip, np
    objc = x.n('objc', 32)
    st.assume(b_and(sle(1, objc, 32), ule(objc, 4, 32)))
    objv = mk_argv(x, S(z3.ZeroExt(32, objc)))
    nv = M.V.raw(st, np)
    st.regs[x.args[0].r].meta['t'].text = SVal(nv.n, nv.at, fn=nv.fn)
    return si, ip, np, objc, objv


def reg_cb(which):
    def cb(M, s, a, ins, env):
        rv = bv('result', 32)
        log(s, 'call', which, M.V.seq(s, a[0]), a[1], rv)
        return [RET(s, rv)]
    return cb


def reg_post(objc, mn):
    def post(x, s, o):
        if not ok(x, o):
            return
        calls, res = events(s, 'call'), events(s, 'result')
        n = sub(S(z3.ZeroExt(32, objc)), 1)
        x.ob('cmd', len(events(s, 'invoke')) == 1 and not events(s, 'unknown'), 'the command is registered with the interpreter under its name')
        acceptable = b_and(ule(mn, n), ule(n, 2))
        x.ob('cmd', b_iff(acceptable, len(calls) == 1), 'the command runs once exactly if the number of arguments is within the declared bounds')
        if not calls:
            x.ob('cmd', eq(o.v, 1, 32), 'otherwise it is an error')
            x.ob('cmd', bool(res), 'with a message')
            return
        _, which, q, v, rv = calls[0]
        x.ob('cmd', which == '#cb', 'the function registered last runs')
        t1, t2 = (s.regs[x.args[j].r].meta['t'] for j in (1, 2))
        x.same('cmd', q, Seq(ite(ule(1, n), t1.text.n, 0), t1.text.at), 'parameter 1 is that argument, or empty if it was not given')
        x.ob('cmd', eq(v, ite(ule(2, n), conv(t2, 32, True), 0, 32), 32), 'parameter 2 is that argument, or 0 if it was not given')
        x.ob('cmd', eq(o.v, 0, 32), 'success')
        x.ob('cmd', len(res) == 1 and holds_int(x.M, s, res[0][1], rv, 32, True), 'its result becomes the script result')
    return post


def create(x):
    si, ip, np, objc, objv = mk_reg(x)
    mn = x.n('min')
    up, uq = x.cstr('usage')
    return [si, np, FnPtr('#cb'), up if x.cfg['usage'] else Ptr(0, 0), mn, objc, objv], reg_post(objc, ite(eq(mn, mask(64)), 2, mn))


def create_default(x):
    si, ip, np, objc, objv = mk_reg(x)
    return [si, np, FnPtr('#cb'), objc, objv], reg_post(objc, 2)


def recreate(x):
    si, ip, np, objc, objv = mk_reg(x)
    mn = x.n('min')
    return [si, np, FnPtr('#cb0'), FnPtr('#cb'), Ptr(0, 0), mn, objc, objv], reg_post(objc, ite(eq(mn, mask(64)), 2, mn))


def gone_post(x, s, o):
    if ok(x, o):
        x.ob('cmd', not events(s, 'call'), 'the command is not called')
        x.ob('cmd', len(events(s, 'invoke')) == 1 and bool(events(s, 'unknown')), 'the interpreter does not know the command any more')
        x.ob('cmd', slot(x.M, s, 'cmd') is None, 'nothing is kept about it')
        released(x, s)


def delete(x):
    si, ip, np, objc, objv = mk_reg(x)
    return [si, np, FnPtr('#cb'), objc, objv], gone_post


def delete_absent(x):
    si, ip, np, objc, objv = mk_reg(x)
    return [si, np, objc, objv], gone_post


def gone(x):
    si, ip, np = mk_reg(x, False)

    def post(x, s, o):
        if ok(x, o):
            x.ob('cmd', bool(s.ghost.get('dead')), 'the interpreter is destroyed')
            x.ob('cmd', slot(x.M, s, 'cmd') is None, 'nothing is kept about its commands')
            x.ob('link', slot(x.M, s, 'hook') is None, 'nothing is kept about its hooks')
            released(x, s)
    return [si, np, FnPtr('#cb')], post


spec('e_create', create, cfgs=[{'usage': False}, {'usage': True}], props=['C18'])
spec('e_create_default', create_default, props=['C18'])
spec('e_recreate', recreate, props=['C18'])
spec('e_delete', delete, props=['C18'])
spec('e_delete_absent', delete_absent, props=['C18'])
spec('e_gone', gone, cfgs=OLD, props=['C18'])
RCALLS = {'Tcl_CreateObjCommand': t_create_cmd, 'Tcl_DeleteCommand': t_delete_cmd, 'Tcl_DeleteInterp': t_delete_interp,
          'Tcl_InterpDeleted': lambda M, st, a, i, e: 1 if st.ghost.get('dead') else 0, 'bdv_invoke': t_invoke}


# ---- running scripts ----------------------------------------------------------------------------------------------------------
def released(x, s):
    left = [r.name for r in s.regs.values() if r.name == 'heap' and not r.freed]
    x.ob('leak', not left, 'everything allocated for the command is released')


def t_eval(M, st, a, ins, env):
    """Tcl_EvalEx: runs the numBytes bytes at script; the first may fail, reading errorInfo after that does not"""
    live_interp(M, st, a[0])
    n = a[2]
    if isc(n) and n == mask(32):
        q = cstr_arg(M, st, a[1])
    else:
        M.oblige(st, 'tcl', sle(0, n, 32), 'length handed to Tcl is not negative')
        n64 = n if isc(n) else S(z3.ZeroExt(32, n))
        q = M.V.seq_of(st, text_at(M, st, a[1], n64))
    first = st.ghost.get('failed') is None
    log(st, 'eval' if first else 'info', q, a[3] if len(a) > 3 else 0)
    if not first:
        st.ghost['resobj'] = M.errinfo
        return [RET(st, 0)]
    s2 = st.clone()
    st.ghost['resobj'], st.ghost['failed'] = M.resobj, False
    s2.ghost['resobj'], s2.ghost['failed'] = M.errobj, True
    return [RET(st, 0), RET(s2, 1)]


def t_evalfile(M, st, a, ins, env):
    live_interp(M, st, a[0])
    q = cstr_arg(M, st, a[1])
    log(st, 'file', q)
    s2 = st.clone()
    st.ghost['resobj'], st.ghost['failed'] = M.resobj, False
    s2.ghost['resobj'], s2.ghost['failed'] = M.errobj, True
    return [RET(st, 0), RET(s2, 1)]


def t_result(M, st, a, ins, env):
    live_interp(M, st, a[0])
    if st.ghost.get('resobj') is None:
        raise Unsupported('result before anything ran')
    return st.ghost['resobj']


def mk_run(x):
    st, M = x.st, x.M
    si, ip = mk_si(x)
    M.ip = ip
    vt = M.gptr(st, '_ZTVN2bd15ScriptInterpTCLE')
    st.wr(si.r).cells[0] = (8, Ptr(vt.r, 16))
    M.resobj = new_tobj(M, st, In(st, 'result'), 'result', rc=1)
    M.errobj = new_tobj(M, st, In(st, 'error'), 'error', rc=1)
    M.errinfo = new_tobj(M, st, In(st, 'errorInfo'), 'errorInfo', rc=1)
    for o in (M.resobj, M.errobj, M.errinfo):
        t = st.regs[o.r].meta['t']
        x.watch.append((st.regs[o.r].name + '.len', t.text.n))
    return si, ip


def lit_seq(text):
    b = text.encode()
    return Seq(len(b), lambda k: const_at(b, k))


def const_at(b, k):
    if isc(k):
        return b[k] if k < len(b) else 0
    v = 0
    for i, c in enumerate(b):
        v = ite(eq(k, i), c, v, 8)
    return v


def ran(x, s, want, rp):
    """exactly the text want ran once, at global level; the string at rp is its result or the error information"""
    ev, info = events(s, 'eval'), events(s, 'info')
    x.ob('run', len(ev) == 1, 'the script runs once')
    if len(ev) != 1:
        return
    x.same('run', ev[0][1], want, 'exactly that text runs')
    x.ob('run', eq(ev[0][2], 0x20000, 32), 'at global level')
    failed = s.ghost['failed']
    x.ob('run', len(info) == (1 if failed else 0), 'the error information is asked for exactly after a failure')
    if failed and len(info) == 1:
        x.same('run', info[0][1], lit_seq('set errorInfo'), 'the error information is asked for')
    t = s.regs[(x.M.errinfo if failed else x.M.resobj).r].meta['t']
    x.same('run', x.M.V.seq(s, rp), Seq(t.text.n, t.text.at), 'the result of the script, or the error information if it failed, is returned')


def run_eval(x):
    st = x.st
    si, ip = mk_run(x)
    r = st.new_region('r', 'obj', x.R.L['sizeof_str'], 'arg')
    r.meta['struct'] = True
    sp, q = mk_str(x, 'script')
    st.assume(ult(q.n, IMAX))

    def post(x, s, o):
        if ok(x, o):
            ran(x, s, q, Ptr(r.id, 0))
    return [Ptr(r.id, 0), si, sp], post


spec('e_eval', run_eval, props=['C25'])


def run_load(x):
    st, M = x.st, x.M
    si, ip = mk_run(x)
    fp, q = mk_str(x, 'file')
    nv = M.V.raw(st, fp)
    st.facts.append(Fact(nv.fn, lambda i: implies(ult(i, nv.n), b_not(eq(nv.fn(i), 0, 8)))))
    st.assume(ult(q.n, IMAX))
    rp, old = mk_str(x, 'message')
    tail = lit_seq('.tcl')
    st.add_idx(0, 1, 2, 3, sub(q.n, 4))

    def post(x, s, o):
        if not ok(x, o):
            return
        ev = events(s, 'file', 'eval', 'info')
        mine = b_and(ule(4, q.n), *[eq(q.at(add(sub(q.n, 4), i)), tail.at(i), 8) for i in range(4)])
        x.ob('run', b_iff(mine, len(ev) == 1 and ev[0][0] == 'file'), 'the file is evaluated once exactly if its name ends in .tcl')
        if not ev:
            x.ob('run', eq(o.v, 2, 32), 'a file of another kind is reported')
        elif ev[0][0] == 'file':
            x.same('run', ev[0][1], q, 'the file of that name')
            x.ob('run', eq(o.v, 1 if s.ghost['failed'] else 0, 32), 'an error is reported exactly if it failed')
        if ev and ev[0][0] == 'file' and s.ghost['failed']:
            t = s.regs[M.errobj.r].meta['t']
            x.same('run', x.M.V.seq(s, rp), Seq(t.text.n, t.text.at), 'with its message')
        else:
            x.same('run', x.M.V.seq(s, rp), old, 'the message is left alone otherwise')
    return [si, fp, rp], post


spec('e_load', run_load, props=['C25'])


def run_callback(x):
    st, M = x.st, x.M
    si, ip = mk_run(x)
    r = st.new_region('r', 'obj', x.R.L['sizeof_str'], 'arg')
    r.meta['struct'] = True
    cp, cmd = mk_str(x, 'cmd')
    st.assume(ult(cmd.n, 1 << 28))
    args, _ = to_list(x)
    n = x.tl.n
    st.ghost['lists'] = ()

    def post(x, s, o):
        if not ok(x, o):
            return
        ls = s.ghost['lists']
        x.ob('run', len(ls) == 1, 'the arguments are handed over as a list')
        if len(ls) != 1:
            return
        lst, v, c = ls[0]
        x.ob('run', eq(c, n), 'of all the arguments')
        one = add(cmd.n, 1)
        want = Seq(add(one, v.n), lambda k: ite(ult(k, cmd.n), cmd.at(k), ite(eq(k, cmd.n), 32, v.at(sub(k, one)), 8), 8))
        ran(x, s, want, Ptr(r.id, 0))
    return [Ptr(r.id, 0), si, cp, args[0]], post


spec('e_callback', run_callback, props=['C25'], hints=[H_tolist])


def from_callback(x):
    st, M, L = x.st, x.M, x.R.L
    si, ip = mk_si(x)
    r = st.new_region('r', 'obj', 16, 'arg')
    r.meta['struct'] = True
    t = In(st)
    op = new_tobj(M, st, t, rc=1)
    q = M.V.seq_of(st, t.text)

    def post(x, s, o):
        if not ok(x, o):
            return
        rp = Ptr(r.id, 0)
        for what, fn in (('si', 'bdv_cb_si'), ('cmd', 'bdv_cb_cmd')):
            for s2, o2 in x.M.call_fn(s.clone(), fn, [rp]):
                if what == 'si':
                    x.ob('run', isinstance(o2.v, Ptr) and o2.v.r == si.r, 'the callback belongs to that interpreter')
                else:
                    x.same('run', x.M.V.seq(s2, o2.v), q, 'the callback runs exactly that text')
    return [Ptr(r.id, 0), op, si], post


spec('e_from_callback', from_callback, props=['C25'])
RCALLS.update({'Tcl_EvalEx': t_eval, 'Tcl_EvalFile': t_evalfile, 'Tcl_GetObjResult': t_result})


# ---- machine -----------------------------------------------------------------------------------------------------------------
def printf_any(M, st, a, ins, env):
    """formatted text; a single integer conversion is recognised"""
    dst, fmt = a[0], a[1]
    r = st.regs[fmt.r]
    if r.chain is not None and r.chain.k == 'const' and isc(fmt.o):
        bs = bytes(r.chain.a)[fmt.o:]
        bs = bs[:bs.index(0)]
        m = re.fullmatch(rb'%(l|ll|z|j|)([ud])', bs)
        v = fresh_sval(st, 'fmt', 1 << 20)
        if m:
            st.ghost[('dec', str(v.fn))] = (a[2], 32 if m.group(1) == b'' else 64, m.group(2) == b'd')
        for x in a[2:]:
            if isinstance(x, Ptr):
                cstr_arg(M, st, x)
        M.V.put(st, dst, v)
        return [RET(st, None)]
    raise Unsupported('format is not a literal')


printf_any.is_contract = 'String::printf'


def exc_init(M, st, r, exc):
    if exc == STRING and st.ghost.get('thrown') is not None:
        r.meta['struct'] = True
        r.cells[0] = (M.L['sizeof_str'], st.ghost['thrown'])


TCL = {'Tcl_NewIntObj': t_new_int(32), 'Tcl_NewBooleanObj': lambda M, st, a, i, e: new_tobj(M, st, Out('int', ite(b_not(eq(a[0], 0, 32)), 1, 0))),
       'Tcl_NewLongObj': t_new_int(64), 'Tcl_NewWideIntObj': t_new_int(64), 'Tcl_NewDoubleObj': t_new_dbl, 'Tcl_NewStringObj': t_new_str,
       'Tcl_GetStringFromObj': t_get_str, 'Tcl_GetString': t_get_str, 'Tcl_GetLongFromObj': t_get_int(64), 'Tcl_GetWideIntFromObj': t_get_int(64),
       'Tcl_GetIntFromObj': t_get_int(32), 'Tcl_GetDoubleFromObj': t_get_dbl, 'Tcl_GetBooleanFromObj': t_get_bool, 'TclFreeObj': t_free,
       'Tcl_SetObjResult': t_set_result, 'Tcl_ListObjGetElements': t_list_get, 'Tcl_NewListObj': t_list_new, 'Tcl_ListObjAppendElement': t_list_append,
       'Tcl_SetVar2': t_setvar, 'Tcl_SetVar2Ex': t_setvarx, 'Tcl_UnsetVar2': t_unset, 'Tcl_TraceVar2': t_trace, 'Tcl_ObjGetVar2': t_getvar,
       'Tcl_GetVar2Ex': t_getvarx, 'bdv_fire': fire}


def ext(L):
    def install(M):
        M.L = L
        M.finds, M.rfinds = [], []
        val.install(M, L['sizeof_str'])
        M.ext_patterns = tuple((re.compile('^' + p + '$'), h) for p, h in ATAB + CTAB + LTAB) + \
            ((re.compile(r'^bd::String::printf\(char const\*, \.\.\.\)$'), printf_any),) + tuple(M.ext_patterns)
        M.ext.update(TCL)
        M.ext.update(RCALLS)
        M.exc_init = exc_init
    return install


def REPLAY():
    from .replay_native import NativeReplay
    return NativeReplay('replay_tcl.cpp', libs=('-ldl', '-ltcl8.6'))


def make_runner(mod, L):
    R = FRunner(mod, L, '_ZTVN2bd6StringE', ext=ext(L))
    R.no_objs = True
    return R
