"""HashTable (tu/hash.cpp) over the finite-map contract of std::unordered_map.
A map value is a base (has, val: uninterpreted functions of the key; count) followed by updates; an element handed out by
reference is a node region whose current value belongs to the map."""
import re
import z3
from .sym import *
from .exe import Outcome, Kill
from .ir import Unsupported
from .free import FSpec, FRunner
from . import libc

SPECS = {}
RET = lambda s, v=None: (s, Outcome('ret', v))
MAXN = 1 << 60


def spec(name, body, **kw):
    SPECS[name] = FSpec(name, body, props=['C16'], **kw)


class MVal:
    def __init__(self, has, val, n, ups=()):
        self.has, self.val, self.n, self.ups = has, val, n, ups


def fresh_map(st, name):
    hf = z3.Function(fresh_name(name + '_has'), BV64, z3.BoolSort())
    vf = z3.Function(fresh_name(name + '_val'), BV64, BV64)
    n = bv(name + '_n')
    st.assume(ule(n, MAXN))
    return MVal(lambda q: hf(E(q, 64)), lambda q: vf(E(q, 64)), n)


EMPTY = MVal(lambda q: False, lambda q: 0, 0)


def mget(M, st, p):
    r = st.regs[p.r]
    c = r.cells.get(p.o) if r.cells is not None and isc(p.o) and not r.freed else None
    if c is None or not isinstance(c[1], MVal):
        raise Unsupported('not a map')
    return c[1]


def mput(M, st, p, v):
    if st.regs[p.r].meta.get('guarded'):
        M.oblige(st, 'mem', False, 'a constant table is not changed')
    st.wr(p.r).cells[p.o] = (M.L['sizeof_t'], v)


def at(st, m, q):
    """(present, value) of key q now"""
    has, val = m.has(q), m.val(q)
    for u in m.ups:
        c = eq(q, u[1])
        if u[0] == 'set':
            has, val = b_or(c, has), ite(c, st.regs[u[2]].cells[8][1], val)
        else:
            has = b_and(b_not(c), has)
    return has, val


def freeze(st, m):
    cells = [st.regs[u[2]].cells[8][1] if u[0] == 'set' else None for u in m.ups]
    ups = m.ups

    def has(q):
        h = m.has(q)
        for u in ups:
            h = b_or(eq(q, u[1]), h) if u[0] == 'set' else b_and(b_not(eq(q, u[1])), h)
        return h

    def val(q):
        v = m.val(q)
        for u, c in zip(ups, cells):
            if u[0] == 'set':
                v = ite(eq(q, u[1]), c, v)
        return v
    return MVal(has, val, m.n)


def key(M, st, p):
    return M.load(st, p, ('i', 64))


def node(M, st, m, p, k, v, fresh):
    """register a node for key k"""
    r = st.new_region('node', 'obj', 16, 'map')
    r.meta['struct'] = True
    r.cells[0], r.cells[8] = (8, k), (8, v)
    st.wr(p.r).cells[p.o] = (M.L['sizeof_t'], MVal(m.has, m.val, add(m.n, 1) if fresh else m.n, m.ups + (('set', k, r.id),)))
    return Ptr(r.id, 0)


def locate(M, st, p, k):
    """[(state, node or None)]"""
    m = mget(M, st, p)
    outs = []
    for u in reversed(m.ups):
        c = eq(k, u[1])
        s2 = st.clone()
        s2.assume(c)
        if M.sol.feasible(s2, True):
            outs.append((s2, Ptr(u[2], 0) if u[0] == 'set' else None))
        st.assume(b_not(c))
    h = m.has(k)
    s2 = st.clone()
    s2.assume(b_and(h, ult(0, m.n)))
    if M.sol.feasible(s2, True):
        outs.append((s2, node(M, s2, m, p, k, m.val(k), False)))
    st.assume(b_not(h))
    outs.append((st, None))
    return [(s, x) for s, x in outs if M.sol.feasible(s, True)]


def c_find(M, st, a, ins, env):
    k = key(M, st, a[1])
    return [RET(s, x if x is not None else Ptr(0, 0)) for s, x in locate(M, st, a[0], k)]


def c_count(M, st, a, ins, env):
    k = key(M, st, a[1])
    return [RET(s, 1 if x is not None else 0) for s, x in locate(M, st, a[0], k)]


def c_index(moves):
    def h(M, st, a, ins, env):
        if st.regs[a[0].r].meta.get('guarded'):
            M.oblige(st, 'mem', False, 'a constant table is not changed')
        k = key(M, st, a[1])
        outs = []
        for s, x in locate(M, st, a[0], k):
            if x is None:
                x = node(M, s, mget(M, s, a[0]), a[0], k, 0, True)
                if moves:
                    M.store(s, a[1], ('i', 64), 0x6d6f766564)
            outs.append(RET(s, Ptr(x.r, 8)))
        return outs
    return h


def c_erase(M, st, a, ins, env):
    k = key(M, st, a[1])
    outs = []
    for s, x in locate(M, st, a[0], k):
        if x is not None:
            m = mget(M, s, a[0])
            mput(M, s, a[0], MVal(m.has, m.val, sub(m.n, 1), m.ups + (('del', k),)))
            s.wr(x.r).meta['erased'] = True
        outs.append(RET(s, 1 if x is not None else 0))
    return outs


MOVED = 0x6d6f766564


def c_emplace(sig):
    def h(M, st, a, ins, env):
        if st.regs[a[0].r].meta.get('guarded'):
            M.oblige(st, 'mem', False, 'a constant table is not changed')
        pair = sig == 'pair'
        k = key(M, st, a[1])
        v = M.load(st, Ptr(a[1].r, add(a[1].o, 8)) if pair else a[2], ('i', 64))
        outs = []
        for s, x in locate(M, st, a[0], k):
            new = x is None
            if new:
                x = node(M, s, mget(M, s, a[0]), a[0], k, v, True)
            # the element is built before the key is looked up: the sources are moved from in any case
            for i, c in enumerate(sig if not pair else ''):
                if c == 'm':
                    M.store(s, a[1 + i], ('i', 64), MOVED)
            outs.append(RET(s, Agg([x, 1 if new else 0])))
        return outs
    return h


def c_erase_it(M, st, a, ins, env):
    p = a[1]
    if not isinstance(p, Ptr) or p.r == 0 or st.regs[p.r].src != 'map' or st.regs[p.r].meta.get('erased'):
        M.oblige(st, 'mem', False, 'only an element of the table is removed')
        raise Kill()
    m = mget(M, st, a[0])
    mput(M, st, a[0], MVal(m.has, m.val, sub(m.n, 1), m.ups + (('del', st.regs[p.r].cells[0][1]),)))
    st.wr(p.r).meta['erased'] = True
    return UNDEF


def c_at(M, st, a, ins, env):
    k = key(M, st, a[1])
    outs = []
    for s, x in locate(M, st, a[0], k):
        if x is None:
            raise Unsupported('at() of an absent key')
        outs.append(RET(s, Ptr(x.r, 8)))
    return outs


def c_size(M, st, a, ins, env):
    return mget(M, st, a[0]).n


def c_empty(M, st, a, ins, env):
    return eq(mget(M, st, a[0]).n, 0)


def c_clear(M, st, a, ins, env):
    mget(M, st, a[0])
    mput(M, st, a[0], EMPTY)


def c_begin(M, st, a, ins, env):
    m = mget(M, st, a[0])
    s2 = st.clone()
    st.assume(eq(m.n, 0))
    s2.assume(b_not(eq(m.n, 0)))
    k = bv('firstkey')
    s2.assume(m.has(k))
    return [RET(st, Ptr(0, 0)), RET(s2, node(M, s2, m, a[0], k, m.val(k), False))]


def c_end(M, st, a, ins, env):
    return Ptr(0, 0)


def c_new(M, st, a, ins, env):
    mput(M, st, a[0], EMPTY)


def c_copy(M, st, a, ins, env):
    mput(M, st, a[0], freeze(st, mget(M, st, a[1])))


def c_assign(M, st, a, ins, env):
    mget(M, st, a[0])
    mput(M, st, a[0], freeze(st, mget(M, st, a[1])))
    return a[0]


def c_move(M, st, a, ins, env):
    v = freeze(st, mget(M, st, a[1]))
    mput(M, st, a[1], fresh_map(st, 'movedfrom'))
    mput(M, st, a[0], v)
    return a[0]


def c_swap(M, st, a, ins, env):
    x, y = freeze(st, mget(M, st, a[0])), freeze(st, mget(M, st, a[1]))
    mput(M, st, a[0], y)
    mput(M, st, a[1], x)


def c_list(M, st, a, ins, env):
    """from an initializer list: exactly its keys"""
    p, n = a[1], a[2]
    if p.r != M.lst.r or not M.sol.valid(st, eq(n, M.lstn)):
        raise Unsupported('another list')
    mput(M, st, a[0], M.lstmap)
    return a[0]


def c_dtor(M, st, a, ins, env):
    mget(M, st, a[0])


def it_ptr(M, st, a, ins, env):
    p = M.load(st, a[0], 'ptr')
    if p.r == 0:
        M.oblige(st, 'mem', False, 'the end is not dereferenced')
        raise Kill()
    if st.regs[p.r].meta.get('erased'):
        M.oblige(st, 'mem', False, 'no element is used after its removal')
        raise Kill()
    return p


def it_eq(M, st, a, ins, env):
    p, q = M.load(st, a[0], 'ptr'), M.load(st, a[1], 'ptr')
    return p.r == q.r


def it_ne(M, st, a, ins, env):
    return not it_eq(M, st, a, ins, env)


UM = r'std::unordered_map<Cell<0>, Cell<1>, .*>'
TAB = [
    (UM + r'::unordered_map\((?:unsigned long.*)?\)', c_new),
    (UM + r'::unordered_map\(std::unordered_map<.*> const&\)', c_copy),
    (UM + r'::unordered_map\(std::unordered_map<.*>&&\)', c_move),
    (UM + r'::unordered_map\(std::initializer_list<.*>.*\)', c_list),
    (UM + r'::~unordered_map\(\)', c_dtor),
    (UM + r'::operator=\(std::unordered_map<.*> const&\)', c_assign),
    (UM + r'::operator=\(std::unordered_map<.*>&&\)', c_move),
    (UM + r'::operator=\(std::initializer_list<.*>\)', c_list),
    (UM + r'::find\(Cell<0> const&\)(?: const)?', c_find),
    (UM + r'::count\(Cell<0> const&\) const', c_count),
    (UM + r'::operator\[\]\(Cell<0> const&\)', c_index(False)),
    (UM + r'::operator\[\]\(Cell<0>&&\)', c_index(True)),
    (UM + r'::erase\(Cell<0> const&\)', c_erase),
    (r'.*' + UM + r'::emplace<.*>\(Cell<0>(?: const)?&, Cell<1>(?: const)?&\)', c_emplace('cc')),
    (r'.*' + UM + r'::emplace<.*>\(Cell<0>&&, Cell<1>(?: const)?&\)', c_emplace('mc')),
    (r'.*' + UM + r'::emplace<.*>\(Cell<0>(?: const)?&, Cell<1>&&\)', c_emplace('cm')),
    (r'.*' + UM + r'::emplace<.*>\(Cell<0>&&, Cell<1>&&\)', c_emplace('mm')),
    (r'.*' + UM + r'::insert(?:<.*>)?\(std::pair<Cell<0>(?: const)?, Cell<1> >(?: const)?&&?\)', c_emplace('pair')),
    (UM + r'::erase\(std::__detail::_Node_(?:const_)?iterator<.*>\)', c_erase_it),
    (UM + r'::at\(Cell<0> const&\)(?: const)?', c_at),
    (UM + r'::size\(\) const', c_size),
    (UM + r'::empty\(\) const', c_empty),
    (UM + r'::clear\(\)', c_clear),
    (UM + r'::c?begin\(\)(?: const)?', c_begin),
    (UM + r'::c?end\(\)(?: const)?', c_end),
    (UM + r'::swap\(std::unordered_map<.*>&\)', c_swap),
    (r'void std::swap<Cell<0>, Cell<1>, .*>\(std::unordered_map<.*>&, std::unordered_map<.*>&\)', c_swap),
    (r'std::__detail::_Node_(?:const_)?iterator<.*>::operator(?:\*|->)\(\) const', it_ptr),
    (r'std::__detail::operator==\(std::__detail::_Node_iterator_base<.*', it_eq),
    (r'std::__detail::operator!=\(std::__detail::_Node_iterator_base<.*', it_ne),
]
for _p, _h in TAB:
    _h.is_contract = None
    del _h.is_contract


# ---- contracts ---------------------------------------------------------------------------------------------------------------
def table(x, name, const=False):
    st, M = x.st, x.M
    r = st.new_region(name, 'obj', M.L['sizeof_t'], 'arg')
    r.meta['struct'] = True
    m = fresh_map(st, name)
    r.cells[0] = (M.L['sizeof_t'], m)
    if const:
        r.meta['guarded'] = True
    x.watch.append((name + '.size', m.n))
    return Ptr(r.id, 0), m


def raw(x, name='r', size=None):
    r = x.st.new_region(name, 'obj', size or x.M.L['sizeof_t'], 'arg')
    r.meta['struct'] = True
    return Ptr(r.id, 0)


def word(x, name, const=True):
    v = x.n(name)
    return x.cell(name, v, 8, writable=not const), v


def is_map(x, s, p, want, msg, n=None):
    """the table at p holds exactly want (function key -> (present, value)) and n elements"""
    m = mget(x.M, s, p)
    q = bv('anykey')
    # at least one element where a key is present
    h, v = at(s, m, q)
    wh, wv = want(q)
    x.ob('map', b_and(implies(h, wh), implies(wh, h)), msg + ' (same keys)')
    x.ob('map', implies(wh, eq(v, wv)), msg + ' (same values)')
    if n is not None:
        x.ob('map', eq(m.n, n), msg + ' (size)')


def old(m):
    return lambda q: (m.has(q), m.val(q))


def with_key(m, k, v):
    return lambda q: (b_or(eq(q, k), m.has(q)), ite(eq(q, k), v, m.val(q)))


def ret(x, o):
    if o.kind != 'ret':
        x.ob('exc', False, f'no exception ({o.v})')
        return False
    return True


def known(x, m, k):
    """a present key means at least one element"""
    x.st.assume(implies(m.has(k), ult(0, m.n)))


def b_iff(a, b):
    return b_and(implies(a, b), implies(b, a))


def truth(v):
    return v if isinstance(v, bool) or z3.is_bool(v) else b_not(eq(v, 0, 1 if isc(v) else v.size()))


def new(x):
    p = raw(x)

    def post(x, s, o):
        if ret(x, o):
            is_map(x, s, p, lambda q: (False, 0), 'empty', 0)
    return [p] + ([x.n('capacity')] if x.cfg.get('cap') else []), post


spec('e_new', new)
spec('e_new_cap', new, cfgs=[{'cap': True}])


def copy(x):
    q, m = table(x, 'o', const=not x.cfg.get('move'))
    p, m0 = (raw(x), None) if x.cfg.get('ctor') else (table(x, 't') if not x.cfg.get('self') else (q, m))
    if x.cfg.get('self'):
        x.st.wr(q.r).meta.pop('guarded', None)

    def post(x, s, o):
        if ret(x, o):
            is_map(x, s, p, old(m), 'holds the elements of the other table', m.n)
            if not x.cfg.get('move'):
                is_map(x, s, q, old(m), 'the other table is unchanged', m.n)
    return [p, q], post


spec('e_copy', copy, cfgs=[{'ctor': True}])
spec('e_move', copy, cfgs=[{'ctor': True, 'move': True}])
spec('e_assign', copy, cfgs=[{}, {'self': True}])
spec('e_assign_move', copy, cfgs=[{'move': True}])


def lst(x):
    st, M = x.st, x.M
    el = x.blob('list', bv('listbytes'))
    n = x.n('items', hi=1 << 40)
    r = st.new_region('il', 'obj', M.L['sizeof_list'], 'arg')
    r.meta['struct'] = True
    r.cells[0], r.cells[8] = (8, Ptr(el.id, 0)), (8, n)
    r.meta['guarded'] = True
    M.lst, M.lstn, M.lstmap = Ptr(el.id, 0), n, fresh_map(st, 'ofthelist')
    p = raw(x) if x.cfg.get('ctor') else table(x, 't')[0]

    def post(x, s, o):
        if ret(x, o):
            is_map(x, s, p, old(M.lstmap), 'holds exactly the elements of the list', M.lstmap.n)
    return [p, Ptr(r.id, 0)], post


spec('e_list', lst, cfgs=[{'ctor': True}])
spec('e_assign_list', lst)


def swp(x):
    p, a = table(x, 'a')
    q, b = (p, a) if x.cfg.get('self') else table(x, 'b')

    def post(x, s, o):
        if ret(x, o):
            is_map(x, s, p, old(b), 'the first holds what the second held', b.n)
            is_map(x, s, q, old(a), 'the second holds what the first held', a.n)
    return [p, q], post


spec('e_swap', swp, cfgs=[{}, {'self': True}])


def clear(x):
    p, m = table(x, 't')

    def post(x, s, o):
        if ret(x, o):
            is_map(x, s, p, lambda q: (False, 0), 'empty', 0)
    return [p], post


spec('e_clear', clear)


def query(f, has_key, const=True):
    def body(x):
        p, m = table(x, 't', const)
        kp, k = word(x, 'key') if has_key else (None, None)
        if has_key:
            known(x, m, k)

        def post(x, s, o):
            if ret(x, o):
                f(x, o.v, m, k)
                is_map(x, s, p, old(m), 'the table is unchanged', m.n)
        return [p] + ([kp] if has_key else []), post
    return body


spec('e_size', query(lambda x, v, m, k: x.ob('map', eq(v, m.n), 'the number of keys'), False))
spec('e_isEmpty', query(lambda x, v, m, k: x.ob('map', b_iff(truth(v), eq(m.n, 0)), 'true exactly if there is no key'), False))
spec('e_bool', query(lambda x, v, m, k: x.ob('map', b_iff(truth(v), b_not(eq(m.n, 0))), 'true exactly if there is a key'), False))
spec('e_begin_empty', query(lambda x, v, m, k: x.ob('map', b_iff(truth(v), eq(m.n, 0)), 'nothing to iterate exactly if there is no key'), False, False))
spec('e_cbegin_empty', query(lambda x, v, m, k: x.ob('map', b_iff(truth(v), eq(m.n, 0)), 'nothing to iterate exactly if there is no key'), False))
spec('e_contains', query(lambda x, v, m, k: x.ob('map', b_iff(truth(v), m.has(k)), 'true exactly if the key is present'), True))


def insert(kc, vc):
    def body(x):
        p, m = table(x, 't')
        kp, k = word(x, 'key', kc)
        vp, v = word(x, 'value', vc)
        known(x, m, k)

        def post(x, s, o):
            if not ret(x, o):
                return
            x.ob('map', b_iff(truth(o.v), b_not(m.has(k))), 'reports success exactly if the key was absent')
            is_map(x, s, p, with_key(m, k, ite(m.has(k), m.val(k), v)), 'the key is added with the value if it was absent', ite(m.has(k), m.n, add(m.n, 1)))
        return [p, kp, vp], post
    return body


spec('e_insert', insert(True, True))
spec('e_insert_kv', insert(False, False))
spec('e_insert_k', insert(False, True))
spec('e_insert_v', insert(True, False))


def remove(x):
    p, m = table(x, 't')
    kp, k = word(x, 'key')
    known(x, m, k)

    def post(x, s, o):
        if ret(x, o):
            x.ob('map', b_iff(truth(o.v), m.has(k)), 'reports success exactly if the key was present')
            is_map(x, s, p, lambda q: (b_and(b_not(eq(q, k)), m.has(q)), m.val(q)), 'only that key is gone', ite(m.has(k), sub(m.n, 1), m.n))
    return [p, kp], post


spec('e_remove', remove)


def getval(x):
    rp = raw(x, 'r', 8)
    p, m = table(x, 't', True)
    kp, k = word(x, 'key')
    known(x, m, k)

    def post(x, s, o):
        if ret(x, o):
            x.ob('map', eq(s.regs[rp.r].cells[0][1], ite(m.has(k), m.val(k), 0)), 'the value of the key, or a default value')
            is_map(x, s, p, old(m), 'the table is unchanged', m.n)
    return [rp, p, kp], post


spec('e_getValue', getval)
spec('e_index_c', getval)


def index(kc):
    def body(x):
        p, m = table(x, 't')
        kp, k = word(x, 'key', kc)
        known(x, m, k)

        def post(x, s, o):
            if not ret(x, o):
                return
            want = ite(m.has(k), m.val(k), 0)
            is_map(x, s, p, with_key(m, k, want), 'exactly that key is present now, with its value or a default value', ite(m.has(k), m.n, add(m.n, 1)))
            x.ob('map', eq(x.M.load(s, o.v, ('i', 64)), want), 'refers to the value of the key')
            w = bv('written')
            x.M.store(s, o.v, ('i', 64), w)
            is_map(x, s, p, with_key(m, k, w), 'writing the element changes that key only')
        return [p, kp], post
    return body


spec('e_index', index(True))
spec('e_index_m', index(False))


def setv(x):
    p, m = table(x, 't')
    kp, k = word(x, 'key')
    vp, v = word(x, 'value')
    known(x, m, k)

    def post(x, s, o):
        if ret(x, o):
            is_map(x, s, p, with_key(m, k, v), 'the key holds the value now', ite(m.has(k), m.n, add(m.n, 1)))
    return [p, kp, vp], post


spec('e_set', setv)


def find(const, write):
    def body(x):
        p, m = table(x, 't', const)
        kp, k = word(x, 'key')
        vp, v = word(x, 'value', write)
        known(x, m, k)

        def post(x, s, o):
            if not ret(x, o):
                return
            x.ob('map', b_iff(truth(o.v), m.has(k)), 'found exactly if present')
            if write:
                is_map(x, s, p, lambda q: (m.has(q), ite(eq(q, k), v, m.val(q))), 'the element found can be changed', m.n)
            else:
                is_map(x, s, p, old(m), 'the table is unchanged', m.n)
                x.ob('map', eq(s.regs[vp.r].cells[0][1], ite(m.has(k), m.val(k), v)), 'the element of that key')
        return [p, kp, vp], post
    return body


spec('e_find', find(False, False))
spec('e_find_c', find(True, False))
spec('e_find_write', find(False, True))


def ext(L):
    def install(M):
        M.L = L
        M.ext_patterns = tuple((re.compile('^' + p + '$'), h) for p, h in TAB) + tuple(M.ext_patterns)
    return install


def REPLAY():
    from .replay_native import NativeReplay
    return NativeReplay('replay_hash.cpp')


def make_runner(mod, L):
    R = FRunner(mod, L, None, ext=ext(L))
    R.no_objs = True
    return R
