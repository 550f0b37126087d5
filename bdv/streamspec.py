"""Stream (tu/stream.cpp): cursor semantics, loading and saving.  String operations are used through the contracts of suite
str (bdv/val.py); system calls may fail and act on a ghost file."""
import z3
from .sym import *
from .exe import Outcome, Kill
from .ir import Unsupported
from .obj import Seq, seq_cat, seq_empty, seq_sub, CAP, umin, umax
from .free import FSpec, FRunner
from .loops import Cand, forall_val, is_val
from . import val, libc, strspec
from .val import SVal, fresh_sval, cstr_arg
from .spec import OOR
from .filespec import truth, eqb, snap, nonul

SPECS = {}
RET = lambda s, v=None: (s, Outcome('ret', v))
M1 = (1 << 32) - 1
NEG1 = (1 << 64) - 1


def spec(name, body, **kw):
    SPECS[name] = FSpec(name, body, **kw)


class ST:
    pass


def mk_stream(x, name='st', raw=False):
    L, st = x.R.L, x.st
    r = st.new_region(name, 'obj', L['sizeof_st'], 'arg')
    r.meta['struct'] = True
    f = ST()
    f.p, f.sp = Ptr(r.id, 0), Ptr(r.id, L['st_str'])
    if raw:
        return f
    st.wr(r.id).cells[0] = (8, Ptr(x.M.gptr(st, '_ZTVN2bd6StreamE').r, 16))
    cap = bv(name + '_cap')
    st.assume(ule(cap, CAP))
    v = fresh_sval(st, name)
    st.assume(ule(v.n, cap))
    f.v = v.but(cap=cap)
    f.cap, f.s = cap, Seq(v.n, v.at)
    x.M.V.put(st, f.sp, f.v)
    f.pos = x.n(name + '.pos')
    st.assume(ule(f.pos, CAP))
    st.wr(r.id).cells[L['st_pos']] = (8, f.pos)
    st.wr(r.id).cells[L['st_loading']] = (1, 0)
    x.watch += [(name + '.len', v.n), (name + '.cap', cap)]
    return f


def mk_str(x, name, raw=False):
    r = x.st.new_region(name, 'obj', x.R.L['sizeof_str'], 'arg')
    r.meta['struct'] = True
    p = Ptr(r.id, 0)
    if raw:
        return p, None
    v = fresh_sval(x.st, name)
    x.watch.append((name + '.len', v.n))
    x.M.V.put(x.st, p, v)
    return p, Seq(v.n, v.at)


def pos(x, f):
    return x.st.regs[f.p.r].cells[x.R.L['st_pos']][1]


def ok(x, o, allow=()):
    if o.kind == 'ret':
        return True
    if o.kind == 'throw' and o.v in allow:
        return True
    x.ob('exc', False, f'function returns normally ({o.kind} {o.v})')
    return False


def is_(x, f, want, p, msg, tag='stream'):
    x.same(tag, x.M.V.seq(x.st, f.sp), want, msg)
    x.ob(tag, eq(pos(x, f), p), 'cursor ' + msg)


def intact(x, f, msg='stream is left unchanged'):
    is_(x, f, f.s, f.pos, msg)


# ---- construction ---------------------------------------------------------------------------------
def c_default(x):
    f = mk_stream(x, raw=True)

    def post(x, s, o):
        if ok(x, o):
            is_(x, f, seq_empty(), 0, 'new stream is empty')
    return [f.p], post


def c_str(move):
    def body(x):
        f = mk_stream(x, raw=True)
        p, q = mk_str(x, 'o')

        def post(x, s, o):
            if ok(x, o):
                is_(x, f, q, 0, 'stream holds the string, cursor at the start')
                if not move:
                    x.same('stream', x.M.V.seq(s, p), q, 'source is unchanged')
        return [f.p, p], post
    return body


def c_stream(kind):
    def body(x):
        f = mk_stream(x, 'st', raw=(kind in ('copy', 'move')))
        g = mk_stream(x, 'ot')

        def post(x, s, o):
            if ok(x, o):
                is_(x, f, g.s, g.pos, 'takes contents and cursor of the other stream')
                if kind in ('copy', 'assign'):
                    intact(x, g, 'source is unchanged')
                if kind == 'swap':
                    is_(x, g, f.s, f.pos, 'the other stream takes contents and cursor')
        return [f.p, g.p], post
    return body


def c_int(x):
    f = mk_stream(x, raw=True)
    n = x.n('n', 32)

    def post(x, s, o):
        if ok(x, o):
            is_(x, f, seq_empty(), 0, 'new stream is empty')
    return [f.p, n], post


P14 = ['C14']
spec('e_st_ctor', c_default, props=P14)
spec('e_st_ctor_str', c_str(False), props=P14)
spec('e_st_ctor_strr', c_str(True), props=P14)
spec('e_st_ctor_copy', c_stream('copy'), props=P14)
spec('e_st_ctor_move', c_stream('move'), props=P14)
spec('e_st_assign', c_stream('assign'), props=P14)
spec('e_st_swap', c_stream('swap'), props=P14)
spec('e_st_ctor_int', c_int, props=P14)


# ---- writing ----------------------------------------------------------------------------------------
def puts(move):
    def body(x):
        f = mk_stream(x)
        p, q = mk_str(x, 'o')
        x.st.assume(ule(add(f.pos, q.n), CAP))
        bey = b_and(ult(f.s.n, f.pos), True)

        def post(x, s, o):
            if not ok(x, o, (OOR,)):
                return
            if o.kind == 'throw':
                x.ob('stream', bey, 'only writing beyond the data is rejected')
                intact(x, f, 'unchanged when rejected')
                return
            x.ob('stream', b_or(b_not(bey), eq(q.n, 0)), 'writing beyond the data is rejected')
            n = umax(f.s.n, add(f.pos, q.n))
            want = Seq(n, lambda k: ite(ult(sub(k, f.pos), q.n), q.at(sub(k, f.pos)), f.s.at(k), 8))
            if x.M.sol.valid(s, eq(q.n, 0)) is True:
                want = f.s
            is_(x, f, want, add(f.pos, q.n), 'written bytes replace or extend exactly at the cursor')
            if not move:
                x.same('stream', x.M.V.seq(s, p), q, 'source is unchanged')
        return [f.p, p], post
    return body


spec('e_st_puts', puts(False), props=P14)
spec('e_st_putsr', puts(True), props=P14)
spec('e_st_shl', puts(False), props=P14)
spec('e_st_shlr', puts(True), props=P14)


# ---- reading ------------------------------------------------------------------------------------------
def reading(kind):
    def body(x):
        f = mk_stream(x)
        rp, _ = mk_str(x, 'r', raw=True)
        args = [rp, f.p]
        st = x.st
        n = NEG1
        d = 10 if kind.startswith('getline') else 0
        if kind in ('read', 'read0', 'getline'):
            n = x.n('max')
            args.append(n)
        if kind == 'read':
            d = x.n('delim', 8)
            if x.cfg['delim'] == 'none':
                st.assume(eq(d, 0, 8))
            else:
                st.assume(b_not(eq(d, 0, 8)))
            args.append(d)
        left = ite(ult(f.pos, f.s.n), sub(f.s.n, f.pos), 0)
        if kind == 'getline':
            # 99999999 is the documented default: to the end of the data
            n = ite(eq(n, 99999999), NEG1, n)
        m = umin(n, left)
        cut = m
        delim = kind.startswith('getline') or (kind == 'read' and x.cfg['delim'] == 'some')
        if delim:
            at = lambda i: f.s.at(add(f.pos, i))
            D = strspec.first_idx(st, left, at, lambda c: eq(c, d, 8), 'D')
            strspec.g_forall(st, None, 0, D, at, lambda c: b_not(eq(c, d, 8)))
            fn = f.v.fn
            st.facts.append(Fact(fn, lambda i: implies(b_and(ule(f.pos, i), ult(sub(i, f.pos), D)), b_not(eq(fn(i), d, 8)))))
            cut = ite(ult(D, m), add(D, 1), m)
            x.watch.append(('firstdelim', D))
            x.D = D
        x.f, x.d, x.delim = f, d, delim

        def post(x, s, o):
            if not ok(x, o):
                return
            x.same('stream', x.M.V.seq(s, rp), Seq(cut, lambda i: f.s.at(add(f.pos, i))), 'the next bytes up to the count or through the delimiter are returned')
            is_(x, f, f.s, add(f.pos, cut), 'advances by exactly what was returned')
        return args, post
    return body


def H_read(x, ctx):
    out = []
    for (r, o) in sorted(ctx.cells):
        c = ctx.st0.regs[r].cells.get(o)
        if c is None or not is_val(c[1]) or (r == x.f.p.r):
            continue
        out.append(forall_val('read so far', r, o, lambda i, n, s, pv: ult(i, n), lambda i, v, n: eq(v, x.f.s.at(add(x.f.pos, i)), 8)))
        if x.delim:
            out.append(Cand('no delimiter so far', lambda s, pv, r=r, o=o: ule(s.regs[r].cells[o][1].n, x.D)))
    L = x.R.L
    for n, g, w, kind in ctx.V:
        if w != 64:
            continue
        for (r, o) in sorted(ctx.cells):
            c = ctx.st0.regs[r].cells.get(o)
            if c is not None and is_val(c[1]):
                out.append(Cand(f'{n}-len', lambda s, pv, g=g, r=r, o=o: eq(g(s, pv), add(x.f.pos, s.regs[r].cells[o][1].n))))
        if x.delim:
            out.append(Cand(f'{n}<=D', lambda s, pv, g=g: ule(sub(g(s, pv), x.f.pos), x.D)))
    return out


spec('e_st_read', reading('read'), cfgs=[{'delim': 'none'}, {'delim': 'some'}], props=P14, hints=[H_read])
spec('e_st_read0', reading('read0'), props=P14, hints=[H_read])
spec('e_st_getline', reading('getline'), props=P14, hints=[H_read])
spec('e_st_getline0', reading('getline0'), props=P14, hints=[H_read])


def peek(x):
    f = mk_stream(x)
    rp, _ = mk_str(x, 'r', raw=True)

    def post(x, s, o):
        if ok(x, o):
            m = ite(ult(f.pos, f.s.n), sub(f.s.n, f.pos), 0)
            x.same('stream', x.M.V.seq(s, rp), Seq(m, lambda i: f.s.at(add(f.pos, i))), 'the bytes from the cursor on are returned')
            intact(x, f)
    return [rp, f.p], post


def tostr(x):
    f = mk_stream(x)
    rp, _ = mk_str(x, 'r', raw=True)

    def post(x, s, o):
        if ok(x, o):
            x.same('stream', x.M.V.seq(s, rp), f.s, 'all bytes are returned')
            intact(x, f)
    return [rp, f.p], post


spec('e_st_peek', peek, props=P14)
spec('e_st_str', tostr, props=P14)


# ---- cursor -----------------------------------------------------------------------------------------------
def seek(x):
    f = mk_stream(x)
    off, wh = x.n('offset', 32), x.n('whence', 32)
    if x.cfg['whence'] in (0, 1, 2):
        wh = x.cfg['whence']
    else:
        x.st.assume(ult(2, wh, 32))
    o64 = S(z3.SignExt(32, off))
    base = {0: 0, 1: f.pos, 2: f.cap}.get(x.cfg['whence'], f.pos)
    t = {0: o64, 1: add(f.pos, o64), 2: sub(f.cap, o64)}.get(x.cfg['whence'], f.pos)
    want = ite(slt(t, 0), 0, ite(slt(f.cap, t), f.cap, t))

    def post(x, s, o):
        if not ok(x, o):
            return
        is_(x, f, f.s, want, 'moves exactly where requested, clamped to the valid range')
        x.ob('stream', implies(ule(want, (1 << 31) - 1), eq(o.v, S(z3.Extract(31, 0, E(want, 64))), 32)), 'the new position is returned')
    return [f.p, off, wh], post


spec('e_st_seek', seek, cfgs=[{'whence': 0}, {'whence': 1}, {'whence': 2}, {'whence': 'other'}], props=P14)


def simple(f_want):
    def body(x):
        f = mk_stream(x)
        args, want = f_want(x, f)

        def post(x, s, o):
            if ok(x, o):
                want(x, s, o)
        return [f.p] + args, post
    return body


def w_truncate(x, f):
    def want(x, s, o):
        is_(x, f, Seq(umin(f.pos, f.s.n), f.s.at), f.pos, 'cut exactly at the cursor')
    return [], want


def w_clear(x, f):
    return [], lambda x, s, o: is_(x, f, seq_empty(), 0, 'empty afterwards')


def w_reserve(x, f):
    n = x.n('n')
    x.st.assume(ule(n, CAP // 2))
    return [n], lambda x, s, o: intact(x, f)


def w_ret(val_):
    def w(x, f):
        def want(x, s, o):
            v = val_(x, f)
            x.ob('stream', eqb(truth(o.v), v) if isinstance(v, bool) or z3.is_bool(v) else eq(o.v, v), 'the specified value is returned')
            intact(x, f)
        return [], want
    return w


spec('e_st_truncate', simple(w_truncate), props=P14)
spec('e_st_clear', simple(w_clear), props=P14)
spec('e_st_reserve', simple(w_reserve), props=P14)
spec('e_st_tell', simple(w_ret(lambda x, f: f.pos)), props=P14)
spec('e_st_length', simple(w_ret(lambda x, f: f.s.n)), props=P14)
spec('e_st_capacity', simple(w_ret(lambda x, f: f.cap)), props=P14)
spec('e_st_not', simple(w_ret(lambda x, f: eq(f.s.n, 0))), props=P14)


def dtor(x):
    f = mk_stream(x)

    def post(x, s, o):
        ok(x, o)
    return [f.p], post


spec('e_st_dtor', dtor, props=P14)


# ---- files ---------------------------------------------------------------------------------------------------
class File:
    """the ghost file behind a descriptor"""

    def __init__(self, fd, n, at):
        self.fd, self.n, self.at = fd, n, at


def g(st, k, d=None):
    return st.ghost.get(k, d)


def sys_open(M, st, a, ins, env):
    name, flags = snap(M, st, a[0]), a[1]
    if not isc(flags):
        raise Unsupported('open flags')
    s2 = st.clone()
    s2.ghost['failed'] = g(s2, 'failed', ()) + ('open',)
    fd = bv('newfd', 32)
    st.assume(sle(0, fd, 32))
    if flags & 0o1000:       # O_TRUNC
        n, at = 0, (lambda i: 0)
    else:
        F = g(st, 'disk')
        if F is None:
            raise Unsupported('open')
        n, at = F.n, F.at
    st.ghost['file'] = File(fd, n, at)
    st.ghost['opened'] = g(st, 'opened', ()) + ((name, flags, a[2] if len(a) > 2 else None, fd),)
    return [RET(st, fd), RET(s2, M1)]


def own_fd(M, st, fd, what):
    F = g(st, 'file')
    if F is None:
        M.oblige(st, 'file', False, what + ' without an open file')
        raise Kill()
    M.oblige(st, 'file', eq(fd, F.fd, 32), what + ' on the descriptor of the file')
    return F


def sys_close(M, st, a, ins, env):
    F = own_fd(M, st, a[0], 'close')
    M.oblige(st, 'file', bool(g(st, 'opened')) and not g(st, 'closed'), 'only a descriptor opened here is closed, once')
    st.ghost['closed'] = True
    s2 = st.clone()
    s2.ghost['failed'] = g(s2, 'failed', ()) + ('close',)
    return [RET(st, 0), RET(s2, M1)]


def sys_lseek(M, st, a, ins, env):
    F = own_fd(M, st, a[0], 'lseek')
    if not (isc(a[1]) and isc(a[2]) and a[1] == 0 and a[2] in (0, 2)):
        raise Unsupported('lseek')
    s2 = st.clone()
    s2.ghost['failed'] = g(s2, 'failed', ()) + ('lseek',)
    return [RET(st, F.n if a[2] == 2 else 0), RET(s2, NEG1)]


def sys_ftruncate(M, st, a, ins, env):
    F = own_fd(M, st, a[0], 'ftruncate')
    n = a[1]
    s2 = st.clone()
    s2.ghost['failed'] = g(s2, 'failed', ()) + ('ftruncate',)
    st.ghost['file'] = File(F.fd, n, lambda i: ite(ult(i, F.n), F.at(i), 0, 8))
    return [RET(st, 0), RET(s2, M1)]


MAP_FAILED = Ptr(0, NEG1)


def sys_mmap(M, st, a, ins, env):
    addr, n, prot, flags, fd, off = a
    F = own_fd(M, st, fd, 'mmap')
    if not (isc(prot) and isc(flags) and isc(off) and off == 0):
        raise Unsupported('mmap')
    s2 = st.clone()
    s2.ghost['failed'] = g(s2, 'failed', ()) + ('mmap',)
    out = [RET(s2, MAP_FAILED)]
    if isc(n) and n == 0:
        return out
    z = eq(n, 0)
    if M.sol.feasible(st, z):
        s3 = st.clone()
        s3.assume(z)
        s3.ghost['failed'] = g(s3, 'failed', ()) + ('mmap of no bytes',)
        out.append(RET(s3, MAP_FAILED))
        st.assume(b_not(z))
        if not M.sol.feasible(st, True):
            return out
    M.oblige(st, 'mem', ule(n, F.n), 'mapped range lies inside the file')
    r = st.new_region('mapping', 'blob', n, 'mmap')
    b = base_chain('map')
    r.chain = Chain('fun', b, (0, n, F.at), 8)
    if not prot & 2:
        r.meta['guarded'] = True
    r.meta['shared'] = bool(flags & 1)
    st.ghost['maps'] = g(st, 'maps', ()) + (r.id,)
    out.append(RET(st, Ptr(r.id, 0)))
    return out


def sys_munmap(M, st, a, ins, env):
    p, n = a
    live = g(st, 'maps', ())
    M.oblige(st, 'file', isinstance(p, Ptr) and p.r in live and eq(p.o, 0), 'a live mapping is released')
    if not (isinstance(p, Ptr) and p.r in live):
        raise Kill()
    r = st.regs[p.r]
    M.oblige(st, 'file', eq(n, r.size), 'the whole mapping is released')
    F = g(st, 'file')
    ch, sz = r.chain, r.size
    if r.meta.get('shared'):
        st.ghost['file'] = File(F.fd, F.n, lambda i: ite(ult(i, sz), ch.read(i), F.at(i), 8))
    s2 = st.clone()
    s2.ghost['failed'] = g(s2, 'failed', ()) + ('munmap',)
    for s in (st, s2):
        s.ghost['maps'] = tuple(i for i in live if i != p.r)
        s.wr(p.r).freed = True
    return [RET(st, 0), RET(s2, M1)]


SYS = {'open': sys_open, 'open64': sys_open, 'close': sys_close, 'lseek': sys_lseek, 'lseek64': sys_lseek, 'ftruncate': sys_ftruncate,
       'ftruncate64': sys_ftruncate, 'mmap': sys_mmap, 'mmap64': sys_mmap, 'munmap': sys_munmap}


def ext(L):
    def f(M):
        val.install(M, L['sizeof_str'])
        M.ext.update(SYS)
    return f


def mk_disk(x):
    st = x.st
    n = x.n('file.size')
    st.assume(ule(n, CAP // 4))
    ch = base_chain('disk', 8)
    return File(None, n, ch.read)


def released(x, s):
    x.ob('file', not g(s, 'maps'), 'no mapping is left behind')
    if g(s, 'opened'):
        x.ob('file', len(g(s, 'opened')) == 1 and g(s, 'closed'), 'the descriptor opened here is closed')


def load(byname):
    def body(x):
        f = mk_stream(x)
        F = mk_disk(x)
        st = x.st
        if byname:
            p, q = mk_str(x, 'name')
            st.facts.append(Fact(None, lambda i: implies(ult(i, q.n), b_not(eq(q.at(i), 0, 8)))))
            st.ghost['disk'] = F
            args = [f.p, p]
        else:
            fd = x.n('fd', 32)
            st.assume(sle(0, fd, 32))
            F.fd = fd
            st.ghost['file'] = F
            args = [f.p, fd]

        def post(x, s, o):
            if not ok(x, o):
                return
            released(x, s)
            fl = [e for e in g(s, 'failed', ()) if e != 'mmap of no bytes']
            bad = [e for e in fl if e not in ('munmap', 'close')]
            good = eq(o.v, 0, 32)
            if bad:
                x.ob('file', b_not(good), f'failure of {bad[0]} is reported')
            elif not fl:
                x.ob('file', good, 'loading succeeds when no system call fails')
            if x.M.sol.feasible(s, good):
                s.assume(good)
                is_(x, f, Seq(F.n, F.at), 0, 'holds exactly the bytes of the file, cursor at the start', 'file')
                if byname:
                    for nm, fl, md, fd_ in g(s, 'opened', ()):
                        x.same('file', nm, q, 'the named file is opened')
        return args, post
    return body


def write(byname):
    def body(x):
        f = mk_stream(x)
        F = mk_disk(x)
        st = x.st
        st.assume(ule(f.s.n, CAP // 4))
        if byname:
            p, q = mk_str(x, 'name')
            st.facts.append(Fact(None, lambda i: implies(ult(i, q.n), b_not(eq(q.at(i), 0, 8)))))
            mode = x.n('mode', 32)
            args = [f.p, p, mode]
        else:
            fd = x.n('fd', 32)
            st.assume(sle(0, fd, 32))
            F.fd = fd
            st.ghost['file'] = F
            args = [f.p, fd]

        def post(x, s, o):
            if not ok(x, o):
                return
            released(x, s)
            intact(x, f)
            good = eq(o.v, 0, 32)
            fl = [e for e in g(s, 'failed', ()) if e != 'mmap of no bytes']
            if fl:
                x.ob('file', b_not(good), f'failure of {fl[0]} is reported')
            else:
                x.ob('file', good, 'saving succeeds when no system call fails')
            if x.M.sol.feasible(s, good):
                s.assume(good)
                W = g(s, 'file')
                if W is None:
                    x.ob('file', False, 'a file was written')
                    return
                x.same('file', Seq(W.n, W.at), f.s, 'the file holds exactly the bytes of the stream')
                if byname:
                    for nm, fl, md, fd_ in g(s, 'opened', ()):
                        x.same('file', nm, q, 'the named file is opened')
                        x.ob('file', md is not None and eq(md, mode, 32), 'the requested mode is used for a new file')
        return args, post
    return body


P15 = ['C15']
spec('e_st_load', load(False), props=P15)
spec('e_st_loadf', load(True), props=P15)
spec('e_st_write', write(False), props=P15)
spec('e_st_writef', write(True), props=P15)


WRAP = ('open', 'close', 'lseek', 'ftruncate', 'mmap', 'munmap', 'write', 'read')


def REPLAY():
    from .replay_native import NativeReplay
    return NativeReplay('replay_stream.cpp', libs=('-ldl',) + tuple('-Wl,--wrap=' + n for n in WRAP))


def make_runner(mod, L):
    R = FRunner(mod, L, '_ZTVN2bd6StringE', ext=ext(L))
    R.no_objs = True
    return R
