"""Contracts of free-standing functions: each specification builds its own precondition state and states its postcondition."""
import time
import z3
from .ir import Unsupported
from .sym import *
from .exe import Machine, Outcome, Kill
from .obj import *
from . import libc


class FSpec:
    def __init__(self, name, body, cfgs=({},), props=(), hints=(), ranks=(), use_it=False, allow_exit=False, unroll=None, inherit=None, fn=None):
        self.name, self.body, self.cfgs, self.props = name, body, list(cfgs), set(props)
        self.hints, self.ranks, self.use_it = hints, ranks, use_it
        self.allow_exit, self.unroll = allow_exit, unroll
        self.fn = fn or name


class X:
    """working context of one run: builds the precondition, then evaluates the postcondition"""

    def __init__(self, M, st, cfg, R):
        self.M, self.st, self.cfg, self.R = M, st, cfg, R
        self.O = M.O
        self.watch = []
        self.keep = set()          # allocations that legitimately survive
        self.a = {}
        self.strs = {}

    def n(self, name, w=64, hi=None):
        v = bv(name, w)
        self.watch.append((name, v))
        if hi is not None:
            self.st.assume(ule(v, hi, w))
        return v

    def blob(self, name, size, writable=False, es=1, src='arg'):
        r = self.st.new_region(name, 'blob', size, src)
        if es > 1:
            r.g = es
            r.chain = base_chain(name, 8 * es)
        if not writable:
            r.meta['guarded'] = True
        return r

    def cstr(self, name, room_extra=True):
        """a NUL terminated string of arbitrary length; returns (pointer, Seq)"""
        st = self.st
        r = self.blob(name, bv(name + '_room'))
        ln = bv(name + '_len')
        st.assume(b_and(ult(ln, r.size), ule(r.size, CAP)))
        f = r.chain.a
        st.assume(eq(f(ln), 0, 8))
        st.facts.append(Fact(f, lambda i, f=f, ln=ln: implies(ult(i, ln), b_not(eq(f(i), 0, 8)))))
        r.meta['nul'] = ln
        self.watch.append((name + '.len', ln))
        return Ptr(r.id, 0), Seq(ln, lambda i, ch=r.chain: ch.read(i))

    def cell(self, name, v, size=8, writable=True):
        r = self.st.new_region(name, 'obj', size, 'arg')
        r.meta['struct'] = True
        r.cells[0] = (size, v)
        if not writable:
            r.meta['guarded'] = True
        return Ptr(r.id, 0)

    def contents(self, s, p, n):
        ch = s.regs[p.r].chain
        return Seq(n, lambda k: ch.read(add(p.o, k)))

    def ob(self, tag, cond, msg):
        self.M.oblige(self.st, tag, cond, msg)

    def same(self, tag, got, want, msg):
        self.ob(tag, eq(got.n, want.n), msg + ' (length)')
        k = bv('k')
        s = self.st
        save = list(s.pc)
        s.assume(ult(k, want.n))
        s.add_idx(k)
        self.M.oblige(s, tag, eq(got.at(k), want.at(k), got.w), msg + ' (element at any position)')
        s.pc = save

    # ---- string operands ---------------------------------------------------------------
    def string(self, name, rep, share=None):
        """a String in an arbitrary state of the given representation; returns (pointer, abstract value)"""
        O, st = self.O, self.st
        self.M.gptr(st, self.R.vtable)
        ref = None if rep == 'null' else (share if share is not None else O.mk_ref(st, 1, empty=(rep == 'nobuf'), name=name + 'ref'))
        rid = O.mk_string(st, name, ref)
        self.watch += [(name + '.len', O.get(st, rid, 'sublen')), (name + '.off', O.get(st, rid, 'offset'))]
        if ref is not None:
            self.watch += [(name + '.cap', st.regs[ref].cells[self.R.L['size']][1]), (name + '.others', st.regs[ref].meta['rc'][1])]
        self.strs[name] = (rid, O.seq(st, rid), O.get(st, rid, 'hash'))
        return Ptr(rid, 0), O.seq(st, rid)

    def raw(self, name):
        self.M.gptr(self.st, self.R.vtable)
        return Ptr(self.O.raw(self.st, name), 0)

    def seq_of(self, p):
        return self.O.seq(self.st, p.r)

    def unchanged(self, *names):
        for n in names:
            self.same('perm', self.O.seq(self.st, self.strs[n][0]), self.strs[n][1], f'{n} is left unchanged')

    def exit_objs(self, live):
        """ownership, representation invariants and leaks at exit; live: pointers to the containers that exist"""
        self.O.check_exit(self.st, [p.r for p in live], self.keep)

    def leaks(self):
        for rid in self.st.allocs:
            r = self.st.regs[rid]
            if not r.freed and rid not in self.keep:
                self.ob('leak', False, f'allocation in this call is released or handed over ({r.name})')


class FRunner:
    def __init__(self, mod, layout, vtable=None, es=1, timeout=20000, ext=None):
        self.mod, self.L, self.vtable, self.es, self.timeout = mod, layout, vtable, es, timeout
        self.contracts = {}
        self.extra = ext

    def configs(self, spec):
        return spec.cfgs

    def run(self, spec, cfg, tags=None, deadline=60):
        M = Machine(self.mod, self.L, self.timeout)
        libc.install(M)
        M.contracts.update(self.contracts)
        M.O = Objs(M, self.L, self.vtable, self.es) if self.L and not getattr(self, 'no_objs', False) else None
        M.entry_name = spec.name
        if self.extra:
            self.extra(M)
        M.entry = spec.name
        M.deadline = time.time() + deadline
        M.use_it = spec.use_it
        if spec.unroll is not None:
            M.unroll = spec.unroll
        res = {'entry': spec.name, 'cfg': cfg, 'error': None}
        t0 = time.time()
        paths = 0
        st = M.init_state.clone()
        try:
            x = X(M, st, cfg, self)
            args, post = spec.body(x)
            st = x.st
            st.ghost['watch'] = tuple(x.watch)
            if not M.sol.feasible(st, True) or M.sol.check(st, [])[0] == 'unsat':
                raise Unsupported('vacuous precondition')
            M.loop_hint_list = [lambda ctx, h=h: h(x, ctx) for h in spec.hints]
            M.rank_hints = [lambda ctx, h=h: h(x, ctx) for h in spec.ranks]
            outs = M.call_fn(st, spec.fn, args)
            for s, o in outs:
                if M.sol.check(s, [])[0] == 'unsat':
                    continue
                paths += 1
                x.st = s
                M.cur = None
                try:
                    post(x, s, o)
                except Kill:
                    pass
            if not paths:
                M.note(st, 'vacuity', False, 'no path reaches the exit')
        except Unsupported as e:
            res['error'] = 'unsupported: ' + str(e)
        res['obs'] = M.obs
        res['paths'] = paths
        res['time'] = time.time() - t0
        res['solver'] = M.sol.time
        res['queries'] = M.sol.queries
        res['inlined'] = M.inlined
        res['contracts'] = M.used_contracts
        res['ext'] = M.used_ext
        res['loops'] = M.loop_log
        return res
