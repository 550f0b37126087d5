"""Destruction of strings (tu/wipe.cpp): the last handle overwrites the whole storage before it is released."""
from .sym import *
from .spec import Spec, Runner
from .loops import forall_blob
from . import strspec

SPECS = {}


def wipe_setup(R, M, st, c):
    """shadow of the storage: 1 where a byte was written since entry; checked when the storage is released"""
    ref = R_ref(R, st, c.rid['s'])
    c.a['others0'] = 0
    if ref is None:
        return
    buf = st.regs[ref].cells[R.L['buf']][1]
    if not buf.r:
        return
    b = st.wr(buf.r)
    sh = st.new_region('written', 'blob', b.size, 'ghost')
    sh.chain = Chain('fill', base_chain('written'), (0, mask(64), 0), 8)
    b.meta['shadow'] = sh.id
    others0 = st.regs[ref].meta['rc'][1]
    c.a['others0'] = others0
    bid, sid = buf.r, sh.id

    def onfree(M, s, reg):
        if reg.id != bid:
            return
        k = bv('k')
        s2 = s.clone()
        s2.assume(b_and(ult(k, reg.size), eq(others0, 0, 32)))
        s2.add_idx(k)
        M.oblige(s2, 'wipe', eq(s.regs[sid].chain.read(k), 1, 8), 'every byte of the storage is overwritten before it is released by its last handle')
        s.ghost['wiped'] = True
    M.ext['#onfree'] = onfree
    c.a['shadow'] = sid


def R_ref(R, st, rid):
    p = st.regs[rid].cells[R.L['Ref']][1]
    return p.r or None


def H_written(c, ctx):
    out = []
    sid = c.a.get('shadow')
    if sid is None or sid not in ctx.blobs:
        return out
    for n, g, w, kind in ctx.V:
        if w == 64:
            size = ctx.st0.regs[sid].size
            out.append(forall_blob(f'written below {n}', sid, lambda i, s, pv, g=g: ult(i, g(s, pv)), lambda i, v: eq(v, 1, 8)))
            out.append(forall_blob(f'written from {n}', sid, lambda i, s, pv, g=g: b_and(ule(g(s, pv), i), ult(i, size)), lambda i, v: eq(v, 1, 8)))
    return out


def post(c):
    pass


SPECS['e_wipe'] = Spec('e_wipe', 's:S', None, dead=['s'], setup=wipe_setup, hints=[H_written], props=['C21'])


def REPLAY():
    from .replay_native import NativeReplay
    return NativeReplay('replay_wipe.cpp')


def make_runner(mod, L):
    return Runner(mod, L, '_ZTVN2bd6StringE')
