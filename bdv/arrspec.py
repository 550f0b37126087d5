"""Contracts of Array of a plain (trivially copyable, 8 byte) element type; tu/arr.cpp."""
import copy
from . import strspec as ss
from .strspec import *
from .strspec import INR, BUF, NE, SLA

STR = ss.SPECS
SPECS = {}
SHARED = '''ctor_default ctor_copy ctor_move ctor_cstrn ctor_cap ctor_fill ctor_il dtor assign_copy assign_move assign_il reserve clear resize resize_v
capacity length size empty not bool data mdata begin end cbegin cend rbegin rend at idx read mread cref_get cref_mget cref_set cref_setr cref_setcref
write writer front cfront back cback insert_item insert_itemr insert_rca insert_rcan insert_rcar insert_rcarn insert_it insert_itr append_item
append_itemr push_back push_backr pop_back append_rca append_rcar replace_item replace_itemr replace_rca replace_rcar plus swap slice substring
call_c call_m slice_get slice_assign slice_assignr preinc predec hash stdhash eq ne find_item find_itemp rfind_item'''.split()
for n in SHARED:
    SPECS['e_' + n] = copy.copy(STR['e_' + n])
    SPECS['e_' + n].rep = None


def spec(name, args, post=None, **kw):
    kw.setdefault('props', ss.GROUP)
    s = Spec(name, args, post, **kw)
    SPECS[name] = s
    return s


ss.group('C04')
pre1 = lambda c: c.becomes('s', seq_cat(seq_one(c.c_v, 64), c.S('s')))
spec('e_push_front', 's:S c:item', pre1, mod=['s'])
spec('e_push_frontr', 's:S c:c', lambda c: c.becomes('s', seq_cat(seq_one(c.c, 64), c.S('s'))), mod=['s'])
spec('e_lshift', 's:S c:item', ss.app1, mod=['s'])
spec('e_lshiftr', 's:S c:c', ss.app1r, mod=['s'])
LASTV = lambda c: c.S('s').at(sub(c.len('s'), 1))


def both(*fs):
    def f(c):
        for x in fs:
            x(c)
    return f


W = 64
spec('e_pop', 's:S', both(ret_is(LASTV), lambda c: c.becomes('s', dropback(c.S('s'), 1))), mod=['s'], pre=NE, cfg=BUF)
spec('e_popr', 's:S', ret_is(LASTV), moved=['s'], pre=NE, cfg=BUF)
spec('e_shift', 's:S', both(ret_is(lambda c: c.S('s').at(0)), lambda c: c.becomes('s', dropfront(c.S('s'), 1))), mod=['s'], pre=NE, cfg=BUF)
spec('e_shiftr', 's:S', ret_is(lambda c: c.S('s').at(0)), moved=['s'], pre=NE, cfg=BUF)
spec('e_rshift', 's:S c:o', both(lambda c: c.same('func', c.wseq('c'), seq_one(LASTV(c), W), 'the last element is handed out'),
                                 lambda c: c.becomes('s', dropback(c.S('s'), 1))), mod=['s'], pre=NE, cfg=BUF)
spec('e_pluseq_item', 's:S c:item', ss.app1, mod=['s'])
spec('e_pluseq_arr', 's:S o:cS', lambda c: c.becomes('s', seq_cat(c.S('s'), c.S('o'))), mod=['s'])
ss.group('C05')


def cnt(c):
    """an int count is taken as the unsigned count it converts to, as for strings"""
    return sext(c.n, 32)


spec('e_pluseq_n', 's:S n:k', lambda c: c.becomes('s', dropfront(c.S('s'), cnt(c))), mod=['s'])
spec('e_minuseq_n', 's:S n:k', lambda c: c.becomes('s', dropback(c.S('s'), cnt(c))), mod=['s'])
spec('e_postinc', 'r:O s:S', lambda c: (c.becomes('s', dropfront(c.S('s'), 1)), c.becomes('r', take(c.S('s'), 1))), mod=['s'])
spec('e_postdec', 'r:O s:S', lambda c: (c.becomes('s', dropback(c.S('s'), 1)), c.becomes('r', seq_sub(c.S('s'), sub(c.len('s'), 1), 1))), mod=['s'], pre=NE, cfg=BUF)
spec('e_postincr', 'r:O s:S', lambda c: c.becomes('r', take(c.S('s'), 1)), moved=['s'], pre=NE, cfg=BUF)
spec('e_postdecr', 'r:O s:S', lambda c: c.becomes('r', seq_sub(c.S('s'), sub(c.len('s'), 1), 1)), moved=['s'], pre=NE, cfg=BUF)
ss.group('C08')
spec('e_equalsn', 's:cS o:cS n:n', ret_bool(lambda c: b_and(eq(c.len('s'), c.len('o')), c.equal)), setup=cmp_setup('o', 'n'), conc=cmp_conc('o', 'n'), hints=ss.H_D)
spec('e_equals', 's:cS o:cS', ret_bool(ss.EQU), setup=cmp_setup('o'), conc=cmp_conc('o'), hints=ss.H_D)


def REPLAY():
    from .replay_rca import RcaReplay
    return RcaReplay('replay_arr.cpp', 8)


def make_runner(mod, L):
    from .spec import Runner
    return Runner(mod, L, '_ZTVN2bd5ArrayIlEE', es=8)
