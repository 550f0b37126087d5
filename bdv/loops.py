"""Loop rule: havoc what the body may change, infer an inductive invariant (Houdini over
templates and the specification's hints), verify the body under it, and find a ranking function."""
import z3
from .ir import Unsupported
from .sym import *
from . import sym


class Cand:
    __slots__ = ('name', 'prop', 'fact')

    def __init__(self, name, prop, fact=None):
        self.name = name
        self.prop = prop        # prop(st, pv) -> Bool, to be proved (skolemised) and, without fact, assumed
        self.fact = fact        # fact(st, pv): adds facts to st


class LoopCtx:
    pass


def num(v):
    if isinstance(v, Ptr):
        return v.o
    return v


def run_loop(M, f, st, env, header, prev):
    from .exe import Kill
    succ, pred, loops = M.cfg(f)
    body = loops[header]

    # ---- 1. complete unrolling when every iteration is decided -----------------
    M.quiet += 1
    log = M.cmp_log
    M.cmp_log = None
    try:
        trips = 0
        cs, ce, cp = st.clone(), env, prev
        ok = False
        if M.unroll:
            while trips < M.unroll:
                outs, exits, backs = M.explore(f, [(cs, ce, header, cp, 0)], body, header)
                if not backs:
                    ok = True
                    break
                if exits or outs or len(backs) != 1:
                    break
                trips += 1
                cs, ce, cp = backs[0]
    finally:
        M.quiet -= 1
        M.cmp_log = log
    if ok:
        cs, ce, cp = st, env, prev
        while True:
            outs, exits, backs = M.explore(f, [(cs, ce, header, cp, 0)], body, header)
            if not backs:
                return outs, exits
            cs, ce, cp = backs[0]

    # ---- 2. what does the body change ---------------------------------------
    vals, k = M.phis(f, st, env, header, prev)
    pv0 = dict(vals)
    ptys = {i.res: M.mod.rt(i.ty) for i in f.blocks[header] if i.op == 'phi'}
    cells, blobs, objs, rcs = set(), set(), set(), set()
    use_it = M.use_it            # ghost iteration counter

    def after(pv, bvals):
        d = dict(bvals)
        if use_it:
            d['#it'] = add(pv['#it'], 1)
        return d
    if M.obj_preloop:
        M.obj_preloop(M, st, f, header, body, objs)

    def havoc():
        s = st.clone()
        e = dict(env)
        pv = {}
        for n, v in pv0.items():
            if n == '#it':
                continue
            t = ptys[n]
            if isinstance(v, Ptr):
                pv[n] = Ptr(v.r, bv('h' + n))
            elif isinstance(v, (FnPtr, FloatV, Agg)):
                pv[n] = v if isinstance(v, FnPtr) else FloatV(None)
            elif t == ('i', 1):
                pv[n] = fbool('h' + n)
            else:
                pv[n] = bv('h' + n, t[1])
                if t[1] == 64:
                    s.add_idx(pv[n])
            e[n] = pv[n]
        if use_it:
            pv['#it'] = bv('it')
            s.add_idx(pv['#it'])
        for r in sorted(objs):
            M.obj_havoc(M, s, r)
        for (r, o) in sorted(cells):
            if r in objs:
                continue
            reg = s.wr(r)
            c = reg.cells.get(o)
            if c is None:
                continue
            sz, v = c
            if is_val(v):
                reg.cells[o] = (sz, v.fresh(s))
            elif isinstance(v, Ptr):
                reg.cells[o] = (sz, Ptr(v.r, bv('hc')))
            elif isinstance(v, FloatV):
                reg.cells[o] = (sz, FloatV(None))
            elif isinstance(v, bool) or (not isc(v) and z3.is_bool(v)):
                reg.cells[o] = (sz, fbool('hc'))
            else:
                reg.cells[o] = (sz, bv('hc', sz * 8))
        for r in sorted(blobs):
            reg = s.wr(r)
            reg.chain = base_chain('hb_' + reg.name, reg.chain.w)
        for r in sorted(rcs):
            M.rc_havoc(M, s, r)
        return s, e, pv

    def same(a, b):
        if a is b:
            return True
        if isc(a) and isc(b):
            return a == b
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            return a.r == b.r and same(a.o, b.o)
        if z3.is_expr(a) and z3.is_expr(b):
            return a.eq(b)
        return False

    bounds = []
    M.quiet += 1
    try:
        for _round in range(12):
            s, e, pv = havoc()
            M.cmp_log = []
            sh = s.clone()
            outs, exits, backs = M.explore(f, [(s, e, header, None, k)], body, header)
            clog = M.cmp_log
            M.cmp_log = log
            changed = False
            newobjs = set()
            for sb, eb, bb in backs:
                bvals, _ = M.phis(f, sb, eb, header, bb)
                for n, v in bvals:
                    v0 = pv0[n]
                    if isinstance(v0, Ptr):
                        if isinstance(v, Ptr) and v.r != v0.r:
                            h = M.ptr_unify(M, st, n, v0, v) if M.ptr_unify else None
                            if h is None:
                                raise Unsupported('loop pointer changes region')
                            pv0[n] = h
                            changed = True
                for r, r0 in sh.regs.items():
                    r1 = sb.regs.get(r)
                    if r1 is None or r1 is r0:
                        continue
                    if r0.kind == 'obj' and r1.kind == 'obj':
                        for o, c in r1.cells.items():
                            c0 = r0.cells.get(o)
                            if c0 is None:
                                if o in (st.regs[r].cells if r in st.regs else {}):
                                    continue
                                # first written inside the loop: materialise at entry
                                if r in st.regs and (r, o) not in cells:
                                    v = c[1]
                                    if isinstance(v, (Ptr, FnPtr, FloatV, Agg)) or is_val(v):
                                        continue
                                    g = st.wr(r)
                                    g.cells[o] = (c[0], fbool('u') if (isinstance(v, bool) or (not isc(v) and z3.is_bool(v))) else bv('u', c[0] * 8))
                                    cells.add((r, o))
                                    changed = True
                                continue
                            if same(c0[1], c[1]):
                                continue
                            if is_val(c[1]) or is_val(c0[1]):
                                if type(c[1]) is not type(c0[1]):
                                    raise Unsupported('loop changes the kind of ' + r0.name)
                                if (r, o) not in cells:
                                    cells.add((r, o))
                                    changed = True
                                continue
                            if (r, o) in cells or r in objs:
                                if isinstance(c[1], Ptr) and isinstance(c0[1], Ptr) and c[1].r != c0[1].r and r not in objs:
                                    newobjs.add(r)
                                continue
                            if isinstance(c[1], (FnPtr,)) or (isinstance(c[1], Ptr) and (not isinstance(c0[1], Ptr) or c[1].r != c0[1].r)):
                                newobjs.add(r)
                                continue
                            cells.add((r, o))
                            changed = True
                        if r1.meta.get('rc') != r0.meta.get('rc') and not same_rc(r0, r1):
                            if r not in rcs and r in st.regs:
                                own = r not in [None]
                                rcs.add(r)
                                changed = True
                    if r1.kind == 'blob' and r0.kind == 'blob' and r1.chain is not r0.chain and r not in blobs:
                        if r in st.regs:
                            blobs.add(r)
                            changed = True
                    if r1.kind == 'blob' and r0.kind == 'obj' and r in st.regs:
                        M.to_blob(st, st.regs[r], r1.g)
                        blobs.add(r)
                        changed = True
                    if r1.freed != r0.freed and r in st.regs and st.regs[r].src != 'stack' and not M.obj_owned(M, st, r, objs | newobjs):
                        raise Unsupported('loop frees storage ' + r0.name)
            for r in newobjs:
                if M.obj_havoc is None or not M.is_obj(M, st, r):
                    raise Unsupported('loop changes pointer in ' + st.regs[r].name if r in st.regs else '?')
                if r not in objs:
                    objs.add(r)
                    changed = True
            if not changed:
                break
        else:
            raise Unsupported('loop frame does not stabilise')
    finally:
        M.quiet -= 1
        M.cmp_log = log

    # ---- 3. candidate invariants ------------------------------------------------
    ctx = LoopCtx()
    ctx.M, ctx.f, ctx.header, ctx.st0, ctx.pv0, ctx.env = M, f, header, st, pv0, env
    ctx.cells, ctx.blobs, ctx.objs = cells, blobs, objs
    V = []
    pv0 = dict(pv0)
    for n, v in pv0.items():
        if isinstance(v, Ptr):
            V.append((n, (lambda s, pv, n=n: pv[n].o), 64, ('ptr', v.r)))
        elif not isinstance(v, (FnPtr, FloatV, Agg)) and ptys[n] != ('i', 1):
            V.append((n, (lambda s, pv, n=n: pv[n]), ptys[n][1], None))
    for (r, o) in sorted(cells):
        c = st.regs[r].cells.get(o)
        if r in objs or c is None:
            continue
        if is_val(c[1]):
            V.append((f'len{r}_{o}', (lambda s, pv, r=r, o=o: s.regs[r].cells[o][1].n), 64, ('val', r, o)))
        elif isinstance(c[1], Ptr):
            V.append((f'c{r}_{o}', (lambda s, pv, r=r, o=o: s.regs[r].cells[o][1].o), 64, ('ptr', c[1].r)))
        elif not isinstance(c[1], (FnPtr, FloatV, Agg, bool)) and not (not isc(c[1]) and z3.is_bool(c[1])) and c[0] in (4, 8):
            V.append((f'c{r}_{o}', (lambda s, pv, r=r, o=o: s.regs[r].cells[o][1]), c[0] * 8, None))
    for r in sorted(objs):
        V.extend(M.obj_vars(M, st, r))
    ctx.V = V
    strides = {}
    if use_it:
        pv0['#it'] = 0
        for n, g, w, kind in V:
            ds = set()
            for sb, eb, bb in backs:
                bvals, _ = M.phis(f, sb, eb, header, bb)
                try:
                    d = sub(g(sb, dict(bvals)), g(sh, pv), w)
                except (AttributeError, KeyError):
                    d = None
                ds.add(sgn(d, w) if isc(d) else None)
            strides[n] = ds
    ctx.strides = strides
    ctx.it = lambda pv: pv['#it']
    # bounds: loop-independent comparison operands
    fresh = set()
    hs, he, hpv = havoc()
    names = set()

    def vars_of(x, acc, seen):
        if isc(x):
            return
        stack = [x]
        while stack:
            y = stack.pop()
            if y.get_id() in seen:
                continue
            seen.add(y.get_id())
            if z3.is_app(y) and y.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                acc.add(y.decl().name())
            stack.extend(y.children())
    known = set()
    seen = set()
    for c in st.pc:
        vars_of(c, known, seen)
    for v in env.values():
        if isinstance(v, Ptr):
            v = v.o
        if z3.is_expr(v):
            vars_of(v, known, seen)
    for g in st.regs.values():
        if g.cells:
            for c in g.cells.values():
                v = c[1].o if isinstance(c[1], Ptr) else c[1]
                if z3.is_expr(v):
                    vars_of(v, known, seen)
    bd = {}
    for a, b, t in clog:
        for x in (a, b):
            if isinstance(x, Ptr):
                reg, x, w = x.r, x.o, 64
            elif isinstance(x, (FnPtr, FloatV, Agg)) or t == 'ptr':
                continue
            else:
                reg, w = None, t[1]
            if not isc(x):
                acc = set()
                vars_of(x, acc, set())
                if not acc <= known or z3.is_bool(x):
                    continue
            bd[(reg, w, x if isc(x) else x.get_id())] = (reg, w, x)
    B_ = list(bd.values())
    for n, g, w, kind in V:
        if kind and kind[0] == 'ptr' and kind[1]:
            B_.append((kind[1], 64, st.regs[kind[1]].size))
    ctx.bounds = B_
    cands = []
    v0s = {}
    for n, g, w, kind in V:
        v0 = g(st, pv0)
        v0s[n] = v0
        cands.append(Cand(f'{n}>=entry', lambda s, pv, g=g, v0=v0, w=w: ule(v0, g(s, pv), w)))
        cands.append(Cand(f'{n}<=entry', lambda s, pv, g=g, v0=v0, w=w: ule(g(s, pv), v0, w)))
        cands.append(Cand(f'{n}>=s entry', lambda s, pv, g=g, v0=v0, w=w: sle(v0, g(s, pv), w)))
        cands.append(Cand(f'{n}==entry', lambda s, pv, g=g, v0=v0, w=w: eq(g(s, pv), v0, w)))
        cands.append(Cand(f'{n}+1<=entry+1', lambda s, pv, g=g, v0=v0, w=w: ule(add(g(s, pv), 1, w), add(v0, 1, w), w)))
        for reg, bw, x in B_:
            if bw != w:
                continue
            if kind and kind[0] == 'ptr' and reg is not None and reg != kind[1]:
                continue
            cands.append(Cand(f'{n}<={str(x)[:30]}', lambda s, pv, g=g, x=x, w=w: ule(g(s, pv), x, w)))
            cands.append(Cand(f'{n}<b', lambda s, pv, g=g, x=x, w=w: ult(g(s, pv), x, w)))
            cands.append(Cand(f'{n}>=b', lambda s, pv, g=g, x=x, w=w: ule(x, g(s, pv), w)))
            cands.append(Cand(f'{n}<=s b', lambda s, pv, g=g, x=x, w=w: sle(g(s, pv), x, w)))
            cands.append(Cand(f'{n}-e<=b', lambda s, pv, g=g, x=x, w=w, v0=v0: ule(sub(g(s, pv), v0, w), x, w)))
            cands.append(Cand(f'e-{n}<=b', lambda s, pv, g=g, x=x, w=w, v0=v0: ule(sub(v0, g(s, pv), w), x, w)))
            cands.append(Cand(f'{n}!=b', lambda s, pv, g=g, x=x, w=w, v0=v0: b_not(eq(x, g(s, pv), w))))
    for n, g, w, kind in V:
        ds = strides.get(n)
        if not ds or None in ds:
            continue
        v0 = v0s[n]
        itw = (lambda pv, w=w: pv['#it'] if w == 64 else S(z3.Extract(w - 1, 0, pv['#it'])) if not isc(pv['#it']) else pv['#it'] & mask(w))
        if len(ds) == 1:
            c = list(ds)[0]
            cands.append(Cand(f'{n}=e+{c}it', lambda s, pv, g=g, w=w, c=c, v0=v0, itw=itw: eq(sub(g(s, pv), v0, w), mul(itw(pv), c & mask(w), w), w)))
        elif w == 64:
            if min(ds) >= 0:
                cands.append(Cand(f'{n}<=e+{max(ds)}it', lambda s, pv, g=g, c=max(ds), v0=v0: ule(sub(g(s, pv), v0), mul(pv['#it'], c))))
                cands.append(Cand(f'{n}>=e+{min(ds)}it', lambda s, pv, g=g, c=min(ds), v0=v0: ule(mul(pv['#it'], c), sub(g(s, pv), v0))))
    if use_it:
        for reg, bw, x in B_:
            if bw == 64:
                cands.append(Cand('it<=b', lambda s, pv, x=x: ule(pv['#it'], x)))
        cands.append(Cand('it<2^60', lambda s, pv: ult(pv['#it'], 1 << 60)))
    for i in range(len(V)):
        for j in range(i + 1, len(V)):
            n, g, w, k1 = V[i]
            m, h, w2, k2 = V[j]
            if w != w2:
                continue
            a0, b0 = v0s[n], v0s[m]
            cands.append(Cand(f'{n}-{m}', lambda s, pv, g=g, h=h, a0=a0, b0=b0, w=w: eq(sub(g(s, pv), a0, w), sub(h(s, pv), b0, w), w)))
            cands.append(Cand(f'{n}+{m}', lambda s, pv, g=g, h=h, a0=a0, b0=b0, w=w: eq(sub(g(s, pv), a0, w), sub(b0, h(s, pv), w), w)))
            cands.append(Cand(f'{n}<={m}d', lambda s, pv, g=g, h=h, a0=a0, b0=b0, w=w: ule(sub(g(s, pv), a0, w), sub(h(s, pv), b0, w), w)))
            cands.append(Cand(f'{m}<={n}d', lambda s, pv, g=g, h=h, a0=a0, b0=b0, w=w: ule(sub(h(s, pv), b0, w), sub(g(s, pv), a0, w), w)))
            if k1 is None and k2 is None or k1 == k2:
                cands.append(Cand(f'{n}<={m}', lambda s, pv, g=g, h=h, w=w: ule(g(s, pv), h(s, pv), w)))
                cands.append(Cand(f'{m}<={n}', lambda s, pv, g=g, h=h, w=w: ule(h(s, pv), g(s, pv), w)))
    for r in sorted(blobs):
        reg = st.regs[r]
        ch0 = reg.chain
        # frame candidates: everything at or after / before a loop variable is unchanged
        for n, g, w, kind in V:
            if w != 64:
                continue
            cands.append(forall_blob(f'frame>={n}', r, lambda i, s, pv, g=g: ule(g(s, pv), i), lambda i, v, ch0=ch0: eq(v, ch0.read(i), ch0.w)))
            cands.append(forall_blob(f'frame<{n}', r, lambda i, s, pv, g=g: ult(i, g(s, pv)), lambda i, v, ch0=ch0: eq(v, ch0.read(i), ch0.w)))
            v0 = v0s[n]
            cands.append(forall_blob(f'frame<e{n}', r, lambda i, s, pv, v0=v0: ult(i, v0), lambda i, v, ch0=ch0: eq(v, ch0.read(i), ch0.w)))
    for (r, o) in sorted(cells):
        c = st.regs[r].cells.get(o)
        if c is None or not is_val(c[1]) or r in objs:
            continue
        q = c[1].seq(st)
        if q is None:
            continue
        cands.append(forall_val(f'prefix kept {r}.{o}', r, o, lambda i, n, s, pv, q=q: ult(i, q.n), lambda i, v, n, q=q: eq(v, q.at(i), 8)))
        cands.append(forall_val(f'prefix of entry {r}.{o}', r, o, lambda i, n, s, pv: ult(i, n), lambda i, v, n, q=q: eq(v, q.at(i), 8)))
        cands.append(forall_val(f'suffix of entry {r}.{o}', r, o, lambda i, n, s, pv: ult(i, n), lambda i, v, n, q=q: eq(v, q.at(add(sub(q.n, n), i)), 8)))
    for h in M.loop_hint_list:
        cands.extend(h(ctx) or ())

    # ---- 4. Houdini -------------------------------------------------------------
    M.quiet += 1
    try:
        cands = prune(M, st, pv0, cands)
        while True:
            s, e, pv = havoc()
            for c in cands:
                if c.fact:
                    c.fact(s, pv)
                else:
                    s.assume(c.prop(s, pv))
            sh = s.clone()
            outs, exits, backs = M.explore(f, [(s, e, header, None, k)], body, header)
            n0 = len(cands)
            for sb, eb, bb in backs:
                bvals, _ = M.phis(f, sb, eb, header, bb)
                cands = prune(M, sb, after(pv, bvals), cands)
            if len(cands) == n0:
                break
    finally:
        M.quiet -= 1

    # ---- 5. verify the body under the invariant -----------------------------------
    s, e, pv = havoc()
    for c in cands:
        if c.fact:
            c.fact(s, pv)
        else:
            s.assume(c.prop(s, pv))
    sh = s.clone()
    M.last_invariants = [c.name for c in cands]
    if not M.quiet:
        M.loop_log.append((f.name, header, len(cands)))
    outs, exits, backs = M.explore(f, [(s, e, header, None, k)], body, header)
    if not M.quiet and backs:
        rank = None
        rk = []
        for n, g, w, kind in V:
            rk.append((n, lambda s, pv, g=g: g(s, pv), w))
            for reg, bw, x in B_:
                if bw == w and not (kind and reg is not None and reg != kind[1]):
                    rk.append((f'B-{n}', lambda s, pv, g=g, x=x, w=w: sub(x, g(s, pv), w), w))
            rk.append((f'-{n}', lambda s, pv, g=g, w=w: sub(0, g(s, pv), w), w))
            rk.append((f'{n}+1', lambda s, pv, g=g, w=w: add(g(s, pv), 1, w), w))
        for h in M.rank_hints:
            rk.extend(h(ctx) or ())
        for rn, g, w in rk:
            r0 = g(sh, pv)
            good = True
            for sb, eb, bb in backs:
                bvals, _ = M.phis(f, sb, eb, header, bb)
                if M.sol.valid(sb, ult(g(sb, after(pv, bvals)), r0, w)) is not True:
                    good = False
                    break
            if good:
                rank = rn
                break
        M.cur = f.blocks[header][0]
        M.note(st, 'term', rank is not None, f'loop at {header} terminates (ranking {rank})')
    return outs, exits


def same_rc(a, b):
    x, y = a.meta.get('rc'), b.meta.get('rc')
    if x is None or y is None:
        return False
    # only interference on `others` happened
    return x[0] == y[0]


def forall_blob(name, r, guard, body):
    """forall i. guard(i) -> body(i, contents[i])"""
    def prop(s, pv):
        i = bv('sk')
        ch = s.regs[r].chain
        return implies(guard(i, s, pv), body(i, ch.read(i)))

    def fact(s, pv):
        ch = s.regs[r].chain
        assert ch.k == 'base'
        fn = ch.a
        ss = s.clone()

        def cl(i):
            return implies(guard(i, ss, pv), body(i, fn(i)))
        s.facts.append(Fact(fn, cl))
    return Cand(name, prop, fact)


def is_val(v):
    return getattr(v, 'is_value', False)


def forall_val(name, r, o, guard, body):
    """forall i. guard(i, length) -> body(i, value[i], length) for the abstract value stored at (r, o)"""
    def prop(s, pv):
        i = bv('sk')
        q = s.regs[r].cells[o][1].seq(s)
        return implies(guard(i, q.n, s, pv), body(i, q.at(i), q.n))

    def fact(s, pv):
        v = s.regs[r].cells[o][1]
        fn, n = v.fn, v.n
        assert fn is not None
        ss = s.clone()
        s.facts.append(Fact(fn, lambda i: implies(guard(i, n, ss, pv), body(i, fn(i), n))))
    return Cand(name, prop, fact)


def prune(M, st, pv, cands):
    """keep the candidates valid in st"""
    items = []
    for c in cands:
        try:
            p = c.prop(st, pv)
        except (AttributeError, KeyError):
            continue
        p = S(p) if not isinstance(p, bool) else p
        if p is False:
            continue
        items.append((c, p))
    while True:
        live = [p for c, p in items if p is not True]
        if not live:
            return [c for c, p in items]
        r, m = M.sol.check(st, [b_not(b_and(*live))], want_model=True, timeout=M.houdini_ms)
        if r == 'unsat':
            return [c for c, p in items]
        if r != 'sat':
            # one by one
            out = []
            for c, p in items:
                if p is True or M.sol.valid(st, p, timeout=M.houdini_ms) is True:
                    out.append(c)
            return out
        n = len(items)
        items = [(c, p) for c, p in items if p is True or m.ev(p) is not False]
        if len(items) == n:
            return [c for c, p in items if p is True or M.sol.valid(st, p, timeout=M.houdini_ms) is True]
