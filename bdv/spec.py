"""Contracts of container operations: argument configurations (precondition generator), postconditions
and the driver that discharges one operation's obligations in one configuration."""
import itertools
import time
import z3
from .ir import Unsupported
from .sym import *
from .exe import Machine, Outcome, Kill
from .obj import *
from . import libc

OOR = '_ZTISt12out_of_range'
ALLOC = ('_ZTISt9bad_alloc', '_ZTISt20bad_array_new_length', '_ZTISt12length_error')
NPOS = (1 << 64) - 1


class Spec:
    def __init__(self, name, args, post=None, raises=None, pre=None, mod=(), moved=(), dead=(), new=(), tags=(), cfg=None,
                 hints=(), ranks=(), props=(), setup=None, noalloc=False, nohash=False, limit=None, conc=None, rep=None):
        self.name = name
        self.args = [a.split(':') for a in args.split()]
        self.post, self.raises, self.pre = post, raises, pre
        self.mod, self.moved, self.dead, self.new = set(mod), set(moved), set(dead), set(new)
        self.cfg = cfg
        self.hints, self.ranks = hints, ranks
        self.props = set(props)
        self.setup = setup
        self.nohash = nohash
        self.limit = limit
        self.conc = conc          # concrete ghost definitions, for replay
        self.view = False
        self.rep = rep            # facts about the representation that value-level callers rely on (bdv/val.py)


class Ctx:
    """everything a postcondition can talk about"""

    def __init__(self, M, O, spec):
        self.M, self.O, self.spec = M, O, spec
        self.a = {}        # argument values
        self.rid = {}      # object regions
        self.pre = {}      # abstract values before
        self.preh = {}
        self.prerep = {}   # (capacity, offset) before
        self.st = None
        self.out = None

    def __getattr__(self, k):
        a = self.__dict__.get('a', {})
        if k in a:
            return a[k]
        raise AttributeError(k)

    def S(self, n):
        return self.pre[n]

    def P(self, n):
        return self.O.seq(self.st, self.rid[n])

    def len(self, n):
        return self.pre[n].n

    @property
    def ret(self):
        return self.out.v

    def ret_w(self, w):
        return self.out.v

    def ob(self, tag, cond, msg):
        self.M.oblige(self.st, tag, cond, msg)

    def same(self, tag, got, want, msg):
        """sequence equality, pointwise at an arbitrary position"""
        self.ob(tag, eq(got.n, want.n), msg + ' (length)')
        k = bv('k')
        s = self.st
        save = list(s.pc)
        s.assume(ult(k, want.n))
        s.add_idx(k)
        self.M.oblige(s, tag, eq(got.at(k), want.at(k), got.w), msg + ' (element at any position)')
        s.pc = save

    def becomes(self, n, want, msg='result is the specified sequence', tag='func'):
        self.same(tag, self.P(n), want, f'{n}: {msg}')

    def cap(self, n):
        r = self.O.get(self.st, self.rid[n], 'Ref')
        if r.r == 0:
            return 0
        return self.st.regs[r.r].cells[self.O.L['size']][1]

    def off(self, n):
        return self.O.get(self.st, self.rid[n], 'offset')

    def hash_field(self, n):
        return self.O.get(self.st, self.rid[n], 'hash')

    def wseq(self, n):
        d = self.st.regs[self.a[n].r].chain
        return Seq(self.a['w' + n], lambda k: d.read(k), 8 * self.st.regs[self.a[n].r].g)

    def view(self):
        """returned pointer: the bytes of s followed by NUL, inside live storage"""
        c, p, n = self, self.ret, self.len('s')
        reg = c.st.regs[p.r]
        c.ob('cstr', p.r != 0 and not reg.freed, 'view points to live storage')
        c.ob('cstr', b_and(ule(p.o, reg.size), ult(n, sub(reg.size, p.o))), 'view and its terminator lie inside the storage')
        ch = reg.chain
        if ch is None:          # a small object of fixed size: only reachable for the empty string
            c.ob('cstr', eq(n, 0), 'view is a byte buffer')
            c.ob('cstr', eq(c.M.load(c.st, p, ('i', 8)), 0, 8), 'view is NUL terminated right after the last byte')
            return
        c.ob('cstr', eq(ch.read(add(p.o, n)), 0, 8), 'view is NUL terminated right after the last byte')
        c.same('cstr', Seq(n, lambda k: ch.read(add(p.o, k))), c.S('s'), 'view holds the exact bytes')

    def buf_ptr(self, n):
        """(region, offset) of element 0 after the call"""
        r = self.O.get(self.st, self.rid[n], 'Ref')
        if r.r == 0:
            return None, 0
        b = self.st.regs[r.r].cells[self.O.L['buf']][1]
        return b.r, add(b.o, self.O.get(self.st, self.rid[n], 'offset'))

    def exclusive(self, n, tag, msg):
        r = self.O.get(self.st, self.rid[n], 'Ref')
        if r.r == 0:
            return
        own, others = self.st.regs[r.r].meta['rc']
        self.ob(tag, b_or(eq(self.P(n).n, 0), b_and(own == 1, eq(others, 0, 32))), msg)

    def ret_elem(self, n, idx, mutable=False, allow_end=False):
        """the returned pointer designates element idx of n"""
        s = self.P(n)
        br, bo = self.buf_ptr(n)
        p = self.ret
        inr = ule(idx, s.n) if allow_end else ult(idx, s.n)
        nonempty = b_not(eq(s.n, 0))
        ok = (br is not None and isinstance(p, Ptr) and p.r == br)
        self.ob('func', implies(b_and(nonempty, inr), b_and(ok, eq(p.o, add(bo, idx)) if ok else False)), f'returned pointer designates position of {n}')
        if mutable:
            self.exclusive(n, 'perm', f'mutable access to {n} is given only on unshared storage')
            h = self.O.get(self.st, self.rid[n], 'hash')
            self.ob('hash', b_or(eq(self.P(n).n, 0), eq(h, 0)), f'cached hash of {n} dropped when mutable access is given')


class Runner:
    def __init__(self, mod, layout, vtable, es=1, timeout=20000):
        self.mod, self.L, self.vtable, self.es = mod, layout, vtable, es
        self.timeout = timeout
        self.contracts = {}

    def machine(self, tags):
        M = Machine(self.mod, self.L, self.timeout)
        libc.install(M)
        M.tags = set(tags) if tags is not None else None
        M.contracts.update(self.contracts)
        M.O = Objs(M, self.L, self.vtable, self.es)
        return M

    # ---- configurations ----------------------------------------------------------
    def configs(self, spec):
        strs = [n for n, k in spec.args if k in ('S', 'cS')]
        reps = ('null', 'nobuf', 'buf')
        first = [{strs[0]: r} for r in reps] if strs else [{}]
        out = first
        for i, n in enumerate(strs[1:], 1):
            nxt = []
            for c in out:
                for m in strs[:i]:
                    if c[m] in reps or c[m].startswith('='):
                        pass
                for r in reps:
                    nxt.append({**c, n: r})
                for m in strs[:i]:
                    if c[m] in reps:
                        nxt.append({**c, n: '=' + m})
                        if c[m] != 'null':
                            nxt.append({**c, n: '~' + m})
            out = nxt
        items = [n for n, k in spec.args if k == 'item']
        for n in items:
            nxt = []
            for c in out:
                nxt.append({**c, n: 'cell'})
                if strs and c[strs[0]] == 'buf':
                    nxt.append({**c, n: 'in'})
            out = nxt
        for n, k in spec.args:
            if k == 'C?':
                out = [{**c, n: x} for c in out for x in ('null', 'str')]
            if k == 'Cn':
                out = [{**c, n: x} for c in out for x in ('npos', 'n')]
        if spec.cfg:
            out = [c for c in out if spec.cfg(c)]
        return out

    def setup(self, M, spec, cfg):
        O = M.O
        st = M.init_state.clone()
        c = Ctx(M, O, spec)
        M.gptr(st, self.vtable)
        nown = {}
        for n, k in spec.args:
            v = cfg.get(n)
            if k in ('S', 'cS') and v and v.startswith('~'):
                nown[v[1:]] = nown.get(v[1:], 1) + 1
        watch = []
        call = []
        refs = {}
        for n, k in spec.args:
            v = cfg.get(n)
            if k in ('S', 'cS'):
                if v.startswith('='):
                    rid = c.rid[v[1:]]
                else:
                    if v == 'null':
                        ref = None
                    elif v.startswith('~'):
                        ref = refs[v[1:]]
                    else:
                        ref = O.mk_ref(st, nown.get(n, 1), empty=(v == 'nobuf'), name=n + 'ref')
                    refs[n] = ref
                    rid = O.mk_string(st, n, ref)
                    watch += [(n + '.len', O.get(st, rid, 'sublen')), (n + '.off', O.get(st, rid, 'offset'))]
                    if ref is not None:
                        watch += [(n + '.cap', st.regs[ref].cells[self.L['size']][1]), (n + '.others', st.regs[ref].meta['rc'][1])]
                c.rid[n] = rid
                c.a[n] = Ptr(rid, 0)
            elif k == 'O':
                rid = O.raw(st, n)
                c.rid[n] = rid
                c.a[n] = Ptr(rid, 0)
            elif k in ('n', 'i'):
                c.a[n] = bv(n)
                watch.append((n, c.a[n]))
            elif k == 'k':
                c.a[n] = bv(n, 32)
                watch.append((n, c.a[n]))
            elif k == 'c':
                c.a[n] = bv(n, 8 * self.es)
                watch.append((n, c.a[n]))
            elif k == 'b':
                c.a[n] = fbool(n)
            elif k == 'item':
                if v == 'cell':
                    r = st.new_region(n, 'blob', 1, 'arg')
                    r.g = self.es
                    r.chain = base_chain(n, 8 * self.es)
                    r.meta['guarded'] = True
                    c.a[n] = Ptr(r.id, 0)
                else:
                    s0 = [m for m, kk in spec.args if kk in ('S', 'cS')][0]
                    rid = c.rid[s0]
                    ref = O.get(st, rid, 'Ref').r
                    b = st.regs[ref].cells[self.L['buf']][1].r
                    i = bv(n + '_idx')
                    st.assume(ult(i, O.get(st, rid, 'sublen')))
                    c.a[n] = Ptr(b, add(O.get(st, rid, 'offset'), i))
                    watch.append((n + '.idx', i))
                c.a[n + '_v'] = M.load(st, c.a[n], ('i', 8 * self.es))
            elif k in ('C', 'C?'):
                if v == 'null':
                    c.a[n] = NULL
                    c.pre[n] = seq_empty()
                else:
                    r = st.new_region(n, 'blob', bv(n + '_room'), 'arg')
                    r.meta['guarded'] = True
                    ln = bv(n + '_len')
                    st.assume(ult(ln, CAP))
                    st.assume(b_and(ult(ln, r.size), ule(r.size, CAP)))
                    f = r.chain.a
                    st.assume(eq(f(ln), 0, 8))
                    st.facts.append(Fact(f, lambda i, f=f, ln=ln: implies(ult(i, ln), b_not(eq(f(i), 0, 8)))))
                    r.meta['nul'] = ln
                    c.a[n] = Ptr(r.id, 0)
                    c.pre[n] = Seq(ln, lambda i, ch=r.chain: ch.read(i))
                    watch.append((n + '.len', ln))
            elif k == 'Cn':
                # pointer to bytes; the count argument is named n<name>: npos -> terminated string, else exactly count bytes
                r = st.new_region(n, 'blob', bv(n + '_room'), 'arg')
                r.meta['guarded'] = True
                ln = bv(n + '_len')
                st.assume(ule(r.size, CAP))
                f = r.chain.a
                if v == 'npos':
                    st.assume(ult(ln, r.size))
                    st.assume(eq(f(ln), 0, 8))
                    st.facts.append(Fact(f, lambda i, f=f, ln=ln: implies(ult(i, ln), b_not(eq(f(i), 0, 8)))))
                    r.meta['nul'] = ln
                    c.a['n' + n] = NPOS
                else:
                    st.assume(ule(ln, r.size))
                    c.a['n' + n] = ln
                c.a[n] = Ptr(r.id, 0)
                c.pre[n] = Seq(ln, lambda i, ch=r.chain: ch.read(i))
                watch.append((n + '.len', ln))
            elif k == 'nC':
                pass    # filled by the Cn argument
            elif k == 'D':
                # exactly count bytes, count argument n<name>
                ln = bv(n + '_len')
                st.assume(ule(ln, CAP))
                r = st.new_region(n, 'blob', ln, 'arg')
                r.g = self.es
                r.chain = base_chain(n, 8 * self.es)
                r.meta['guarded'] = True
                c.a[n] = Ptr(r.id, 0)
                c.a['n' + n] = ln
                c.a['e' + n] = Ptr(r.id, ln)
                c.pre[n] = Seq(ln, lambda i, ch=r.chain: ch.read(i), 8 * self.es)
                watch.append((n + '.len', ln))
            elif k == 'eD':
                pass
            elif k == 'W':
                # writable buffer of w<name> bytes
                ln = bv(n + '_room')
                st.assume(ule(ln, CAP))
                r = st.new_region(n, 'blob', ln, 'arg')
                c.a[n] = Ptr(r.id, 0)
                c.a['w' + n] = ln
                ch = r.chain
                c.pre[n] = Seq(ln, lambda i, ch=ch: ch.read(i))
                watch.append((n + '.room', ln))
            elif k == 'o':
                # one writable element
                r = st.new_region(n, 'blob', 1, 'arg')
                r.g = self.es
                r.chain = base_chain(n, 8 * self.es)
                c.a[n] = Ptr(r.id, 0)
                c.a['w' + n] = 1
            elif k == 'IL':
                ln = bv(n + '_len')
                st.assume(ule(ln, CAP))
                r = st.new_region(n + '_arr', 'blob', ln, 'arg')
                r.g = self.es
                r.chain = base_chain(n, 8 * self.es)
                r.meta['guarded'] = True
                q = st.new_region(n, 'obj', 16, 'arg')
                q.cells[0] = (8, Ptr(r.id, 0))
                q.cells[8] = (8, ln)
                q.meta['guarded'] = True
                c.a[n] = Ptr(q.id, 0)
                c.pre[n] = Seq(ln, lambda i, ch=r.chain: ch.read(i), 8 * self.es)
                watch.append((n + '.len', ln))
            else:
                raise Unsupported('arg kind ' + k)
        for n, rid in c.rid.items():
            if dict(spec.args)[n] != 'O':
                c.pre[n] = O.seq(st, rid)
                c.preh[n] = O.get(st, rid, 'hash')
                rf = O.get(st, rid, 'Ref').r
                c.prerep[n] = (st.regs[rf].cells[self.L['size']][1] if rf else 0, O.get(st, rid, 'offset'), st.regs[rf].meta['rc'][1] if rf else 0)
        st.ghost['watch'] = tuple(watch)
        if spec.pre:
            for x in spec.pre(c):
                st.assume(x)
        if spec.setup:
            spec.setup(self, M, st, c)
        call = [self.cval(st, c, n, k) for n, k in spec.args]
        return st, c, call

    def cval(self, st, c, n, k):
        return c.a[n]

    # ---- one operation in one configuration ---------------------------------------
    def run(self, spec, cfg, tags=None, deadline=60):
        M = self.machine(tags)
        M.entry = spec.name
        M.deadline = time.time() + deadline
        res = {'entry': spec.name, 'cfg': cfg, 'error': None}
        t0 = time.time()
        paths = 0
        try:
            st, c, call = self.setup(M, spec, cfg)
            if not M.sol.feasible(st, True) or M.sol.check(st, [])[0] == 'unsat':
                raise Unsupported('vacuous precondition')
            M.loop_hint_list = [lambda ctx, h=h: h(c, ctx) for h in spec.hints]
            M.rank_hints = [lambda ctx, h=h: h(c, ctx) for h in spec.ranks]
            M.no_contract = frozenset(getattr(spec, 'no_contract', ()))
            outs = M.call_fn(st, spec.name, call)
            for s, o in outs:
                if M.sol.check(s, [])[0] == 'unsat':
                    continue
                paths += 1
                try:
                    self.exit(M, spec, c, s, o, cfg)
                except Kill:
                    pass
            if not paths:
                M.note(st, 'vacuity', False, 'no path reaches the exit')
        except Unsupported as e:
            res['error'] = 'unsupported: ' + str(e)
        res['obs'] = M.obs
        res['paths'] = paths
        res['time'] = time.time() - t0
        res['solver'] = M.sol.time
        res['queries'] = M.sol.queries
        res['inlined'] = M.inlined
        res['contracts'] = M.used_contracts
        res['ext'] = M.used_ext
        res['loops'] = M.loop_log
        return res

    def exit(self, M, spec, c, s, o, cfg):
        c = self.at(c, s, o)
        O = M.O
        M.cur = None
        argd = dict(spec.args)
        if o.kind == 'terminate':
            exc = o.v
            M.oblige(s, 'exc', exc is None or exc in ALLOC, f'no exception other than allocation failure may end the process ({exc})')
            return
        if o.kind == 'exit':
            M.oblige(s, 'exc', False, 'process exit')
            return
        thrown = o.v if o.kind == 'throw' else None
        dead = set(spec.dead) if thrown is None else set()
        live, seen = [], set()
        for n, rid in c.rid.items():
            if n in dead or (argd[n] == 'O' and thrown is not None):
                continue
            if rid in seen:
                continue
            seen.add(rid)
            live.append(rid)
        extra = []
        if isinstance(o.v, Ptr) and getattr(spec, 'returns_owned', False):
            extra.append(o.v.r)
        O.check_exit(s, live, extra)
        moved = {c.rid[n] for n in spec.moved}
        # exceptions
        rc = spec.raises(c) if spec.raises else False
        if thrown is not None:
            if thrown == OOR:
                M.oblige(s, 'exc', rc, 'out_of_range is thrown only for a position beyond the documented range')
                for n, rid in c.rid.items():
                    if argd[n] != 'O':
                        c.same('exc', c.P(n), c.S(n), f'{n} unchanged when out_of_range is thrown')
            else:
                M.oblige(s, 'exc', thrown in ALLOC, f'only allocation failure may surface otherwise ({thrown})')
        else:
            M.oblige(s, 'exc', b_not(rc), 'a position beyond the documented range is rejected')
        recv = next((c.rid[n] for n, k in spec.args if k in ('S', 'cS')), None)
        # frame: operands that are not modified keep their value (also on failure)
        for n, rid in c.rid.items():
            if argd[n] == 'O' or n in spec.dead:
                continue
            if rid in {c.rid[m] for m in spec.mod} or rid in moved:
                continue
            if thrown in ALLOC and rid == recv:
                continue    # valid but possibly emptied
            c.same('perm', c.P(n), c.S(n), f'{n} is left unchanged')
        if thrown is None and spec.post:
            spec.post(c)
        if thrown is None and spec.rep:
            spec.rep(c)
        # hash cache
        if not spec.nohash:
            pre = {n: (c.preh[n], c.pre[n]) for n in c.preh}
            for rid in live:
                n = [m for m in c.rid if c.rid[m] == rid][0]
                h = O.get(s, rid, 'hash')
                M.oblige(s, 'hash', O.hash_ok(s, rid, pre), f'{n}: cached hash is dropped or still describes the elements')

    def at(self, c, s, o):
        d = Ctx(c.M, c.O, c.spec)
        d.a, d.rid, d.pre, d.preh, d.prerep = c.a, c.rid, c.pre, c.preh, c.prerep
        d.st, d.out = s, o
        d.cfg = getattr(c, 'cfg', None)
        return d
