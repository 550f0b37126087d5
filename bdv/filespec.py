"""AtomicFile (tu/file.cpp): every system call may fail; the trace of calls is a ghost log.  String operations are used
through the contracts of suite str (bdv/val.py)."""
import z3
from .sym import *
from .exe import Outcome, Kill
from .ir import Unsupported
from .obj import Seq, seq_cat, CAP
from .free import FSpec, FRunner
from . import val, libc
from .val import SVal, fresh_sval, cstr_arg

SPECS = {}
RET = lambda s, v=None: (s, Outcome('ret', v))
FAIL32 = (1 << 32) - 1


def spec(name, body, **kw):
    SPECS[name] = FSpec(name, body, **kw)


# ---- system calls: each may succeed or fail, and is logged ------------------------------------
def log(st, *ev):
    st.ghost['trace'] = st.ghost.get('trace', ()) + (ev,)


def snap(M, st, p):
    """the C string at p, as it is now"""
    if isinstance(p, Ptr) and p.r == 0:
        M.oblige(st, 'mem', False, 'path argument is not null')
        raise Kill()
    return cstr_arg(M, st, p)


def both(M, st, name, *args):
    s2 = st.clone()
    log(st, name, True, *args)
    log(s2, name, False, *args)
    return [RET(st, 0), RET(s2, FAIL32)]


def sys_mkstemp(M, st, a, ins, env):
    p = a[0]
    q = snap(M, st, p)
    k = bv('k')
    M.oblige(st, 'func', ule(6, q.n), 'mkstemp template has at least six characters')
    for i in range(1, 7):
        M.oblige(st, 'func', eq(q.at(sub(q.n, i)), ord('X'), 8), 'mkstemp template ends in XXXXXX')
    M.access(st, p, q.n, True, 'mkstemp template')
    rnd = base_chain('rnd', 8)
    st.facts.append(Fact(rnd.a, lambda i: b_and(b_not(eq(rnd.a(i), 0, 8)), b_not(eq(rnd.a(i), ord('/'), 8)))))
    old = Seq(q.n, q.at)
    r = st.wr(p.r)
    r.chain = r.chain.copy(add(p.o, sub(q.n, 6)), 6, rnd, 0)
    name = Seq(q.n, lambda j, ch=r.chain, o=p.o: ch.read(add(o, j)))
    s2 = st.clone()
    fd = bv('fd', 32)
    st.assume(sle(0, fd, 32))
    log(st, 'mkstemp', True, old, name, fd)
    log(s2, 'mkstemp', False, old, name, FAIL32)
    return [RET(st, fd), RET(s2, FAIL32)]


def sys_unlink(M, st, a, ins, env):
    return both(M, st, 'unlink', snap(M, st, a[0]))


def sys_rename(M, st, a, ins, env):
    return both(M, st, 'rename', snap(M, st, a[0]), snap(M, st, a[1]))


def sys_close(M, st, a, ins, env):
    return both(M, st, 'close', a[0])


def sys_fsync(M, st, a, ins, env):
    return both(M, st, 'fsync', a[0])


def sys_fchmod(M, st, a, ins, env):
    return both(M, st, 'fchmod', a[0], a[1])


def sys_fcntl_ok(M, st, a, ins, env):
    raise Unsupported('system call')


SYS = {'mkstemp': sys_mkstemp, 'unlink': sys_unlink, 'remove': sys_unlink, 'rename': sys_rename, 'close': sys_close, 'fsync': sys_fsync,
       'fdatasync': sys_fsync, 'fchmod': sys_fchmod}


def ext(L):
    def f(M):
        val.install(M, L['sizeof_str'])
        M.ext.update(SYS)
    return f


# ---- states -------------------------------------------------------------------------------------
def nonul(st, v):
    st.facts.append(Fact(v.fn, lambda i: implies(ult(i, v.n), b_not(eq(v.fn(i), 0, 8)))))


class AF:
    pass


def mk_file(x, state):
    L, st = x.R.L, x.st
    r = st.new_region('file', 'obj', L['sizeof_af'], 'arg')
    r.meta['struct'] = True
    f = AF()
    f.p = Ptr(r.id, 0)
    V = x.M.V
    f.fname, f.tmp = fresh_sval(st, 'fname'), fresh_sval(st, 'tmpname')
    nonul(st, f.fname)
    nonul(st, f.tmp)
    V.put(st, Ptr(r.id, L['fname']), f.fname)
    V.put(st, Ptr(r.id, L['tmpname']), f.tmp)
    f.mode = x.n('mode', 32)
    f.fd = x.n('fd', 32)
    st.assume(sle(0, f.fd, 32))
    st.wr(r.id).cells[L['fd']] = (4, f.fd if state == 'open' else FAIL32)
    st.wr(r.id).cells[L['mode']] = (4, f.mode)
    x.watch += [('fname.len', f.fname.n), ('tmp.len', f.tmp.n)]
    f.tmps, f.fnames = V.seq_of(st, f.tmp), V.seq_of(st, f.fname)
    return f


def sure(x, c):
    return c is True or (c is not False and x.M.sol.valid(x.st, c) is True)


def same_text(x, a, b):
    """decided pointwise (proved on this path)"""
    if not sure(x, eq(a.n, b.n)):
        return False
    k = bv('k')
    s = x.st
    save = list(s.pc)
    s.assume(ult(k, b.n))
    s.add_idx(k)
    ok = sure(x, eq(a.at(k), b.at(k), 8))
    s.pc = save
    return ok


class Temp:
    """the temporary file of one open file; monitors the trace"""

    def __init__(self, x, name, fd, target, mode):
        self.x, self.name, self.fd, self.target, self.mode = x, name, fd, target, mode
        self.exists = self.open = True
        self.modeset = self.synced = self.closed_ok = self.renamed = False

    def event(self, ev):
        x, k, ok, args = self.x, ev[0], ev[1], ev[2:]
        if k == 'fchmod':
            if self.open and sure(x, eq(args[0], self.fd, 32)):
                x.ob('atomic', eq(args[1], self.mode, 32), 'only the requested mode is applied')
                self.synced = False
                self.modeset = ok
        elif k == 'fsync':
            if self.open and sure(x, eq(args[0], self.fd, 32)):
                self.synced = ok
        elif k == 'close':
            x.ob('atomic', self.open, 'the descriptor is closed once')
            x.ob('atomic', eq(args[0], self.fd, 32), 'only the own descriptor is closed')
            self.open = False
            self.closed_ok = ok
        elif k == 'unlink':
            x.ob('atomic', self.exists, 'nothing is unlinked once the temporary file is gone')
            x.same('atomic', args[0], self.name, 'only the temporary file is unlinked')
            self.exists = False
        elif k == 'rename':
            x.ob('atomic', self.exists, 'the temporary file still exists when it is renamed')
            x.same('atomic', args[0], self.name, 'the temporary file is what gets renamed')
            x.same('atomic', args[1], self.target, 'the target name is what gets replaced')
            x.ob('atomic', b_or(eq(self.mode, FAIL32, 32), self.modeset), 'the requested mode was applied before the target is replaced')
            x.ob('atomic', self.synced, 'the data was flushed successfully before the target is replaced')
            x.ob('atomic', b_and(not self.open, self.closed_ok), 'the file was closed successfully before the target is replaced')
            if ok:
                self.exists, self.renamed = False, True

    def gone(self, what):
        x = self.x
        x.ob('atomic', not self.open, f'descriptor closed {what}')
        x.ob('atomic', not self.exists, f'temporary file removed or renamed {what}')


def field(x, f, n):
    return x.st.regs[f.p.r].cells[x.R.L[n]][1]


def returned(x, o):
    if o.kind != 'ret':
        x.ob('exc', False, f'function returns normally ({o.kind} {o.v})')
        return False
    return True


def truth(v):
    return v if isinstance(v, bool) or z3.is_bool(v) else b_not(eq(v, 0, 1 if isc(v) else v.size()))


def finish(want):
    """abort / commit / destructor on an open or closed file"""
    def body(x):
        f = mk_file(x, x.cfg['state'])

        def post(x, s, o):
            if not returned(x, o):
                return
            tr = s.ghost.get('trace', ())
            if x.cfg['state'] == 'closed':
                x.ob('atomic', not [e for e in tr if e[0] in ('unlink', 'rename', 'close')], 'nothing is unlinked, renamed or closed when no file is open')
                if want != 'dtor':
                    x.ob('atomic', b_not(truth(o.v)), 'reports failure when no file is open')
                    x.ob('atomic', eq(field(x, f, 'fd'), FAIL32, 32), 'no file is open afterwards')
                return
            t = Temp(x, f.tmps, f.fd, f.fnames, f.mode)
            for e in tr:
                t.event(e)
            t.gone('at the end')
            if want == 'commit':
                x.ob('atomic', eqb(truth(o.v), t.renamed), 'reports success exactly when the target was replaced')
                if not t.renamed:
                    bad = [e for e in tr if e[1] is False]
                    x.ob('atomic', bool(bad), 'fails only when a system call failed')
            else:
                x.ob('atomic', not t.renamed, 'the target is not touched')
                if want == 'abort':
                    x.ob('atomic', truth(o.v), 'reports that a file was aborted')
            if want != 'dtor':
                x.ob('atomic', eq(field(x, f, 'fd'), FAIL32, 32), 'no file is open afterwards')
        return [f.p], post
    return body


def eqb(a, b):
    return b_and(implies(a, b), implies(b, a))


ST2 = [{'state': 'open'}, {'state': 'closed'}]
spec('e_af_abort', finish('abort'), cfgs=ST2, props=['C13'])
spec('e_af_commit', finish('commit'), cfgs=ST2, props=['C13'])
spec('e_af_dtor', finish('dtor'), cfgs=ST2, props=['C13'])


def open_(x):
    f = mk_file(x, x.cfg['state'])
    st, L, V = x.st, x.R.L, x.M.V
    nm = fresh_sval(st, 'name')
    nonul(st, nm)
    st.assume(ule(nm.n, 1 << 40))
    if x.cfg.get('alias'):
        np, ns = Ptr(f.p.r, L['fname']), f.fnames
    else:
        r = st.new_region('name', 'obj', L['sizeof_str'], 'arg')
        V.put(st, Ptr(r.id, 0), nm)
        np, ns = Ptr(r.id, 0), V.seq_of(st, nm)
    mode = x.n('newmode', 32)
    # the last '/' of the name, if any
    D = bv('slash')            # length of the directory part including its '/'; 0 if none
    st.assume(ule(D, ns.n))
    st.assume(implies(b_not(eq(D, 0)), eq(ns.at(sub(D, 1)), ord('/'), 8)))
    fn = f.fname.fn if x.cfg.get('alias') else nm.fn
    st.facts.append(Fact(fn, lambda i: implies(b_and(ule(D, i), ult(i, ns.n)), b_not(eq(fn(i), ord('/'), 8)))))
    st.add_idx(D, sub(D, 1))
    x.watch += [('name.len', ns.n), ('dirlen', D)]

    def post(x, s, o):
        if not returned(x, o):
            return
        tr = s.ghost.get('trace', ())
        pre = [e for e in tr if e[0] != 'mkstemp']
        mk = [e for e in tr if e[0] == 'mkstemp']
        x.ob('atomic', len(mk) == 1, 'exactly one temporary file is requested')
        if x.cfg['state'] == 'open':
            t = Temp(x, f.tmps, f.fd, f.fnames, f.mode)
            for e in pre:
                t.event(e)
            x.ob('atomic', not t.renamed, 'opening another file does not replace the previous target')
            t.gone('when another file is opened')
        else:
            x.ob('atomic', not [e for e in pre if e[0] in ('unlink', 'rename', 'close')], 'opening touches no other file')
        if len(mk) != 1:
            return
        e = mk[0]
        old, name, fd = e[2], e[3], e[4]
        x.ob('atomic', eqb(truth(o.v), e[1]), 'reports success exactly when the temporary file was created')
        x.ob('atomic', eq(field(x, f, 'fd'), fd, 32), 'the descriptor of the temporary file is kept')
        if not e[1]:
            return
        x.ob('atomic', eq(field(x, f, 'mode'), mode, 32), 'the requested mode is kept')
        x.same('atomic', V.seq(s, Ptr(f.p.r, L['fname'])), ns, 'the target name is kept')
        x.same('atomic', V.seq(s, Ptr(f.p.r, L['tmpname'])), name, 'the name of the temporary file is kept')
        # same directory: starts with the directory part, then an optional "./", then no further '/'
        nodir = eq(D, 0)
        x.ob('atomic', ult(D, old.n), 'the temporary name is longer than the directory part')
        i = bv('i')
        s.add_idx(i)
        x.ob('atomic', implies(ult(i, D), eq(old.at(i), ns.at(i), 8)), 'the temporary file is placed in the directory of the target')
        dot = b_and(ule(add(D, 2), old.n), eq(old.at(D), ord('.'), 8), eq(old.at(add(D, 1)), ord('/'), 8))
        beg = ite(dot, add(D, 2), D)
        x.ob('atomic', implies(b_and(ule(beg, i), ult(i, old.n)), b_not(eq(old.at(i), ord('/'), 8))), 'the temporary file is placed directly in the directory of the target')
        x.ob('atomic', ult(beg, old.n), 'the temporary file has a name')
    return [f.p, np, mode], post


spec('e_af_open', open_, cfgs=[{'state': 'open'}, {'state': 'closed'}, {'state': 'open', 'alias': True}, {'state': 'closed', 'alias': True}], props=['C13'])


def ctor(x):
    r = x.st.new_region('file', 'obj', x.R.L['sizeof_af'], 'arg')
    r.meta['struct'] = True
    f = AF()
    f.p = Ptr(r.id, 0)

    def post(x, s, o):
        if returned(x, o):
            x.ob('atomic', eq(field(x, f, 'fd'), FAIL32, 32), 'a new object has no file open')
            x.ob('atomic', not s.ghost.get('trace'), 'no system call')
    return [f.p], post


spec('e_af_ctor', ctor, props=['C13'])


def query(fd):
    def body(x):
        f = mk_file(x, x.cfg['state'])
        cur = f.fd if x.cfg['state'] == 'open' else FAIL32

        def post(x, s, o):
            if not returned(x, o):
                return
            if fd:
                x.ob('atomic', eq(o.v, cur, 32), 'descriptor of the open file, or -1')
            else:
                x.ob('atomic', eqb(truth(o.v), x.cfg['state'] == 'open'), 'open exactly while a descriptor is held')
            x.ob('atomic', not s.ghost.get('trace'), 'no system call')
        return [f.p], post
    return body


spec('e_af_is_open', query(False), cfgs=ST2, props=['C13'])
spec('e_af_fd', query(True), cfgs=ST2, props=['C13'])


WRAP = ('mkstemp', 'unlink', 'remove', 'unlinkat', 'rename', 'link', 'close', 'fsync', 'fdatasync', 'fchmod', 'chmod')


def REPLAY():
    from .replay_native import NativeReplay
    return NativeReplay('replay_file.cpp', libs=('-ldl',) + tuple('-Wl,--wrap=' + n for n in WRAP))


def make_runner(mod, L):
    R = FRunner(mod, L, '_ZTVN2bd6StringE', ext=ext(L))
    R.no_objs = True
    return R
