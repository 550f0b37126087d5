"""Modular use of the String contracts: a caller is verified against the contracts of the String operations it calls
(the very Spec objects that bdv/strspec.py proves about the implementation), not against their bodies.  A String
operand is an abstract value (SVal) standing for the bytes of the object; its representation is not visible."""
import re
import z3
from .ir import Unsupported
from .sym import *
from .exe import Outcome, Kill
from .obj import Seq, seq_empty, seq_cat, CAP, umin
from .spec import Ctx, OOR, NPOS
from . import libc, strspec

RET = lambda s, v=None: (s, Outcome('ret', v))


class SVal:
    """value of a String: n bytes; room: writable places known to exist from the first byte on; zero: offset known to be 0"""
    __slots__ = ('n', 'at', 'room', 'zero', 'back', 'fn', 'cap', 'own')

    def __init__(self, n, at, room=None, zero=False, back=None, fn=None, cap=None, own=False):
        self.own = own            # storage known not to be shared
        self.n, self.at, self.room, self.zero, self.back, self.fn = n, at, n if room is None else room, zero, back, fn
        self.cap = cap

    is_value = True

    def but(self, **kw):
        d = {k: getattr(self, k) for k in self.__slots__}
        d.update(kw)
        return SVal(**d)

    def fresh(self, st):
        return fresh_sval(st)

    def seq(self, st):
        if self.back is not None:
            return Seq(self.n, st.regs[self.back].chain.read)
        return Seq(self.n, self.at)


def fresh_sval(st, name='str', maxn=CAP):
    n = bv(name + '_n')
    st.assume(ule(n, maxn))
    ch = base_chain(name, 8)
    return SVal(n, ch.read, fn=ch.a)


def seq_val(st, q, **kw):
    memo = {}

    def at(k):
        key = k if isc(k) else ('e', k.get_id())
        r = memo.get(key)
        if r is None:
            r = memo[key] = (q.at(k), k)
        return r[0]
    return SVal(q.n, at, **kw)


class Vals:
    """abstract String objects in memory"""

    def __init__(self, M, size):
        self.M, self.size = M, size

    def put(self, st, p, v):
        if not isc(p.o):
            raise Unsupported('String at a symbolic address')
        r = st.wr(p.r)
        if r.freed or p.r == 0:
            self.M.oblige(st, 'mem', False, 'String object in live memory')
            raise Kill()
        if r.kind != 'obj':
            raise Unsupported('String in a byte array')
        r.meta['struct'] = True
        for o in list(r.cells):
            if p.o <= o < p.o + self.size:
                del r.cells[o]
        r.cells[p.o] = (self.size, v)

    def drop(self, st, p):
        r = st.wr(p.r)
        r.cells.pop(p.o, None)

    def raw(self, st, p):
        r = st.regs[p.r] if isinstance(p, Ptr) else None
        if r is not None and r.meta.get('elems') and not r.freed:
            return r.meta['elems'](self.M, st, p.o)         # an element of an abstract array
        if r is None or not isc(p.o):
            raise Unsupported('String at a symbolic address')
        c = r.cells.get(p.o) if r.kind == 'obj' and not r.freed else None
        if p.r == 0 or r.freed:
            self.M.oblige(st, 'mem', False, 'String operand is live')
            raise Kill()
        if c is None or not isinstance(c[1], SVal):
            raise Unsupported('not a String value: ' + r.name)
        return c[1]

    def seq(self, st, p):
        v = self.raw(st, p)
        return self.seq_of(st, v)

    def seq_of(self, st, v):
        if v.back is not None:
            ch = st.regs[v.back].chain
            return Seq(v.n, ch.read)
        return Seq(v.n, v.at)

    # -- pointers into the value ---------------------------------------------------------
    def view(self, st, p, nul):
        """read-only storage holding the bytes of the value (and a terminator)"""
        v = self.raw(st, p)
        if v.back is not None and not nul:
            return Ptr(v.back, 0)
        key = ('view', id(v), nul)
        got = st.ghost.get(key)
        if got is not None and v.back is None:
            return Ptr(got[0], 0)
        q = self.seq_of(st, v)
        r = st.new_region('view', 'blob', add(q.n, 1) if nul else q.n, 'view')
        if nul:
            r.chain = Chain('fun', Chain('fill', base_chain('v'), (q.n, 1, 0), 8), (0, q.n, q.at), 8)
            r.meta['cstr'] = q
            r.meta['nul'] = [q.n]
        else:
            r.chain = Chain('fun', base_chain('v'), (0, q.n, q.at), 8) if v.fn is None else Chain('base', None, v.fn, 8)
        r.meta['guarded'] = True
        r.meta['viewof'] = (p.r, p.o, v)
        st.ghost[key] = (r.id, v)
        return Ptr(r.id, 0)

    def mutable(self, st, p):
        v = self.raw(st, p)
        if v.back is not None:
            return Ptr(v.back, 0)
        q = self.seq_of(st, v)
        r = st.new_region('mbuf', 'blob', v.room, 'view')
        r.chain = Chain('fun', base_chain('mb'), (0, q.n, q.at), 8)
        r.meta['mbuf'] = True
        self.put(st, p, v.but(at=None, back=r.id, fn=None, own=True))
        return Ptr(r.id, 0)


class UCtx(Ctx):
    """a contract read at a call: preconditions are obligations, postconditions are assumptions"""

    def __init__(self, M, st, spec, name):
        super().__init__(M, None, spec)
        self.st, self.name = st, name
        self.set = {}

    def P(self, n):
        if n not in self.set:
            if n in self.spec.mod or dict(self.spec.args)[n] == 'O':
                self.set[n] = fresh_sval(self.st)
            else:
                return self.pre[n]
        v = self.set[n]
        return Seq(v.n, v.at)

    def becomes(self, n, want, msg='', tag='func'):
        self.set[n] = seq_val(self.st, want)

    def ob(self, tag, cond, msg):
        self.st.assume(cond)
        v = self.out.v
        if z3.is_expr(v) and z3.is_expr(cond) and z3.is_eq(cond) and self.rv is None:
            a, b = cond.children()
            if a.eq(v) or b.eq(v):         # the contract names the result
                self.rv = S(b if a.eq(v) else a)

    def same(self, tag, got, want, msg):
        st = self.st
        st.assume(eq(got.n, want.n))
        st.facts.append(Fact(None, lambda i: implies(ult(i, want.n), eq(got.at(i), want.at(i), 8))))

    def cap(self, n):
        """capacity: not part of the abstract value unless tracked"""
        v = self.M.V.raw(self.st, self.a[n]) if dict(self.spec.args)[n] != 'O' else None
        if v is not None and v.cap is not None:
            return v.cap
        return bv('cap')

    def view(self):
        self.rv = self.M.V.view(self.st, self.a['s'], True)

    def ret_elem(self, n, idx, mutable=False, allow_end=False):
        V = self.M.V
        p = V.mutable(self.st, self.a[n]) if mutable else V.view(self.st, self.a[n], False)
        self.rv = Ptr(p.r, add(p.o, idx))


def ret_fresh(M, ins):
    t = M.mod.rt(ins.ty) if ins is not None and ins.ty is not None else None
    if t is None or t == 'void' or t == ('void',):
        return None
    if t == 'ptr':
        return None
    if t[0] == 'i':
        return fbool('ret') if t[1] == 1 else bv('ret', t[1])
    return None


def cstr_arg(M, st, p):
    r = st.regs[p.r]
    if p.r == 0:
        M.oblige(st, 'mem', False, 'C string argument is not null')
        raise Kill()
    q = r.meta.get('cstr')
    n = libc.c_strlen(M, st, [p], None, None)
    ch, o = r.chain, p.o
    return Seq(n, lambda k: ch.read(add(o, k)))


def use(M, st, sname, args, ins, name):
    """apply the contract of a String operation at a call"""
    spec = strspec.SPECS[sname]
    V = M.V
    c = UCtx(M, st, spec, name)
    i = 0
    argd = dict(spec.args)
    for n, k in spec.args:
        if k == 'nC' and n in c.a:
            i += 1
            continue
        if i >= len(args):
            raise Unsupported('argument count of ' + name)
        v = args[i]
        i += 1
        if k in ('S', 'cS'):
            c.a[n] = v
            q = V.seq(st, v)
            c.pre[n] = q
            c.preh[n] = 0
        elif k == 'O':
            c.a[n] = v
        elif k in ('n', 'i', 'c', 'k', 'b'):
            if isinstance(v, Ptr) and k == 'c':
                v = M.load(st, v, ('i', 8))
            c.a[n] = v
        elif k == 'item':
            c.a[n] = v
            c.a[n + '_v'] = M.load(st, v, ('i', 8)) if isinstance(v, Ptr) else v
        elif k in ('C', 'C?'):
            if k == 'C?' and v.r == 0:
                c.pre[n] = seq_empty()
            else:
                c.pre[n] = cstr_arg(M, st, v)
            c.a[n] = v
        elif k in ('Cn', 'D'):
            cnt = args[i]
            c.a[n], c.a['n' + n] = v, cnt
            if k == 'Cn' and ((isc(cnt) and cnt == NPOS) or M.sol.valid(st, eq(cnt, NPOS)) is True):
                c.pre[n] = cstr_arg(M, st, v)
            else:
                if k == 'Cn' and M.sol.feasible(st, eq(cnt, NPOS)):
                    raise Unsupported('count may be npos')
                M.access(st, v, cnt, False, 'source bytes of ' + sname)
                if v.r == 0:
                    c.pre[n] = seq_empty()
                else:
                    rd = libc.view(M, st, v)
                    c.pre[n] = Seq(cnt, rd)
        elif k == 'W':
            raise Unsupported('output buffer contract')
        else:
            raise Unsupported('contract argument kind ' + k)
    if spec.pre:
        if sname in ('e_write', 'e_writer') and ult(c.p, c.len('s')) is not True and M.sol.valid(st, ult(c.p, c.len('s'))) is not True:
            # spare room beyond the end: the value does not change
            v = V.raw(st, c.a['s'])
            M.oblige(st, 'mem', b_and(ule(c.len('s'), c.p), ult(c.p, v.room), v.own), 'position written lies in the string or its reserved, unshared room (contract e_write_spare)')
            if v.back is None:
                V.mutable(st, c.a['s'])
            b = V.raw(st, c.a['s']).back
            g = st.wr(b)
            g.chain = g.chain.store(c.p, c.a.get('c_v', c.a.get('c')))
            return [RET(st, None)]
        for x in spec.pre(c):
            M.oblige(st, 'mem', x, f'precondition of {sname[2:]} (position exists)')
    out = []
    if spec.raises:
        rc = spec.raises(c)
        if rc is not False and (rc is True or M.sol.feasible(st, rc)):
            sx = st.clone()
            sx.assume(rc)
            out.append((sx, Outcome('throw', OOR)))
            st.assume(b_not(rc))
            if rc is True or not M.sol.feasible(st, True):
                return out
    if spec.setup:
        spec.setup(None, M, st, c)
    c.rv = None
    c.out = Outcome('ret', ret_fresh(M, ins))
    first = next((c.a[n] for n, k in spec.args if k in ('S', 'cS')), None)
    if spec.post:
        spec.post(c)
    for n, k in spec.args:
        if k == 'O' or n in spec.mod:
            if n not in c.set:
                c.P(n)
            V.put(st, c.a[n], c.set[n])
    for n in spec.moved:
        if not any(c.a[n].r == c.a[m].r and c.a[n].o == c.a[m].o for m in spec.mod):
            V.put(st, c.a[n], fresh_sval(st, 'moved'))
    for n in spec.dead:
        V.drop(st, c.a[n])
    keep_rep(M, st, sname, c)
    rv = c.rv
    if rv is None:
        rv = c.out.v
        if rv is None and ins is not None and ins.ty is not None and M.mod.rt(ins.ty) == 'ptr':
            rv = first if argd.get('r') != 'O' else None
    out.append(RET(st, rv))
    return out


def keep_rep(M, st, sname, c):
    """the part of the representation the contracts promise: spare room"""
    V = M.V
    if sname in ('e_ctor_cstrn', 'e_ctor_cstr'):
        v = V.raw(st, c.a['s'])
        V.put(st, c.a['s'], v.but(room=add(v.n, 1) if sname == 'e_ctor_cstrn' else v.n, zero=True, own=True))
    elif len([1 for n, k in c.spec.args if k in ('S', 'cS', 'O')]) > 1:
        for n, k in c.spec.args:         # the operands may share storage from here on
            if k in ('S', 'cS', 'O') and n not in c.spec.dead and V.raw(st, c.a[n]).own:
                V.put(st, c.a[n], V.raw(st, c.a[n]).but(own=False))


B = r'bd::ReferenceCountedArray<char, std::allocator<char> >'
BS = r'(?:bd::String|' + B + ')'
# demangled name -> (contract, argument adapter)
TABLE = [
    (r'bd::String::String\(std::allocator<char> const&\)', 'e_ctor_default'),
    (r'bd::String::String\(bd::String const&\)', 'e_ctor_copy'),
    (r'bd::String::String\(bd::String&&\)', 'e_ctor_move'),
    (r'bd::String::String\(char const\*, std::allocator<char> const&\)', 'e_ctor_cstr'),
    (r'bd::String::String\(char const\*, unsigned long\)', 'e_ctor_cstrn'),
    (r'bd::String::String\(char, std::allocator<char> const&\)', 'e_ctor_char'),
    (r'bd::String::(?:String|ReferenceCountedArray)\(unsigned long, std::allocator<char> const&\)', 'e_ctor_cap'),
    (r'bd::String::(?:String|ReferenceCountedArray)\(unsigned long, char(?: const&|), std::allocator<char> const&\)', 'e_ctor_fill'),
    (r'bd::String::~String\(\)', 'e_dtor'),
    (r'bd::String::operator=\(bd::String const&\)', 'e_assign_copy'),
    (r'bd::String::operator=\(bd::String&&\)', 'e_assign_move'),
    (r'bd::String::operator=\(char const\*\)', 'e_assign_cstr'),
    (B + r'::ReferenceCountedArray\(std::allocator<char> const&\)', 'e_ctor_default'),
    (B + r'::ReferenceCountedArray\(unsigned long, std::allocator<char> const&\)', 'e_ctor_cap'),
    (B + r'::~ReferenceCountedArray\(\)', 'e_dtor'),
    (B + r'::AboutToModify\(unsigned long\) const', 'e_own'),
    (BS + r'::reserve\(unsigned long, double\) const', 'e_reserve'),
    (BS + r'::capacity\(\) const', 'e_capacity'),
    (BS + r'::clear\(\)', 'e_clear'),
    (BS + r'::length\(\) const', 'e_length'),
    (BS + r'::size\(\) const', 'e_size'),
    (BS + r'::isEmpty\(\) const', 'e_empty'),
    (BS + r'::empty\(\) const', 'e_empty'),
    (BS + r'::operator!\(\) const', 'e_not'),
    (BS + r'::operator bool\(\) const', 'e_bool'),
    (BS + r'::data\(\) const', 'e_data'),
    (BS + r'::mdata\(\) const', 'e_mdata'),
    (BS + r'::begin\(\)', 'e_begin'),
    (BS + r'::end\(\)', 'e_end'),
    (BS + r'::c?begin\(\) const', 'e_cbegin'),
    (BS + r'::c?end\(\) const', 'e_cend'),
    (BS + r'::at\(unsigned long\) const', 'e_at'),
    (BS + r'::charAt\(unsigned long\) const', 'e_charat'),
    (BS + r'::operator\[\]\(unsigned long\) const', 'e_idx'),
    (BS + r'::read\(unsigned long\) const', 'e_read'),
    (BS + r'::read\(unsigned long\)', 'e_mread'),
    (BS + r'::write\(unsigned long, char const&\)', 'e_write'),
    (BS + r'::write\(unsigned long, char&&\)', 'e_writer'),
    (BS + r'::front\(\) const', 'e_cfront'),
    (BS + r'::back\(\) const', 'e_cback'),
    (r'bd::String::c_str\(\) const', 'e_c_str'),
    (r'bd::String::operator\*\(\) const', 'e_deref'),
    (BS + r'::insert\(unsigned long, char const&\)', 'e_insert_item'),
    (BS + r'::insert\(unsigned long, char&&\)', 'e_insert_itemr'),
    (BS + r'::insert\(unsigned long, ' + BS + r' const&, unsigned long\)', 'e_insert_rcan'),
    (BS + r'::insert\(unsigned long, ' + BS + r'&&, unsigned long\)', 'e_insert_rcarn'),
    (r'bd::String::insert\(unsigned long, char const\*, unsigned long\)', 'e_insert_cstrn'),
    (BS + r'::append\(char const&\)', 'e_append_item'),
    (BS + r'::append\(char&&\)', 'e_append_itemr'),
    (BS + r'::push_back\(char const&\)', 'e_push_back'),
    (BS + r'::push_back\(char&&\)', 'e_push_backr'),
    (BS + r'::append\(' + BS + r' const&, unsigned long\)', 'e_append_rca'),
    (BS + r'::append\(' + BS + r'&&, unsigned long\)', 'e_append_rcar'),
    (r'bd::String::append\(char const\*, unsigned long\)', 'e_append_cstrn'),
    (BS + r'::replace\(unsigned long, char const&\)', 'e_replace_item'),
    (BS + r'::replace\(unsigned long, char&&\)', 'e_replace_itemr'),
    (BS + r'::replace\(unsigned long, ' + BS + r' const&, unsigned long\)', 'e_replace_rca'),
    (BS + r'::replace\(unsigned long, ' + BS + r'&&, unsigned long\)', 'e_replace_rcar'),
    (r'bd::String::replace\(unsigned long, char const\*, unsigned long\)', 'e_replace_cstrn'),
    (r'bd::String::operator\+=\(char\) &', 'e_pluseq_char'),
    (r'bd::String::operator\+=\(char const\*\) &', 'e_pluseq_cstr'),
    (r'bd::String::operator\+=\(bd::String const&\) &', 'e_pluseq_str'),
    (r'bd::String::operator\+=\(bd::String&&\) &', 'e_pluseq_strr'),
    (r'bd::String::operator\+=\(unsigned long\) &', 'e_pluseq_n'),
    (r'bd::String::operator-=\(unsigned long\) &', 'e_minuseq_n'),
    (r'bd::String::operator\+\+\(\) &', 'e_preinc'),
    (r'bd::String::operator--\(\) &', 'e_predec'),
    (BS + r'::pop_back\(\)', 'e_pop_back'),
    (BS + r'::slice\(long, long\)', 'e_slice'),
    (r'bd::String::substring\(long, long\) const &', 'e_substring'),
    (r'bd::String::operator\(\)\(long, long\) const', 'e_call_c'),
    (r'bd::String::trim\(\)', 'e_trim'),
    (r'bd::String::trim\(\) const', 'e_trim_c'),
    (r'bd::String::chomp\(\)', 'e_chomp'),
    (r'bd::String::chomp\(\) const', 'e_chomp_c'),
    (r'bd::String::compare\(bd::String const&\) const', 'e_cmp'),
    (r'bd::String::compare\(bd::String const&, unsigned long\) const', 'e_cmpn'),
    (r'bd::String::compare\(char const\*\) const', 'e_cmp_c'),
    (r'bd::operator==\(bd::String const&, bd::String const&\)', 'e_eq'),
    (r'bd::operator!=\(bd::String const&, bd::String const&\)', 'e_ne'),
    (r'bd::operator==\(bd::String const&, char const\*\)', 'e_eq_c'),
    (r'bd::operator!=\(bd::String const&, char const\*\)', 'e_ne_c'),
    (BS + r'::find\(char const&\) const', 'e_find_item'),
    (BS + r'::find\(char const&, unsigned long\) const', 'e_find_itemp'),
    (BS + r'::rfind\(char const&\) const', 'e_rfind_item'),
    (r'bd::String::find\(bd::String const&\) const', 'e_find'),
    (r'bd::String::find\(bd::String const&, unsigned long\) const', 'e_findp'),
    (r'bd::String::_find\(bd::String const&, unsigned long\) const', 'e_findp'),
    (r'bd::String::rfind\(bd::String const&, unsigned long\) const', 'e_rfind'),
    (r'bd::swap\(bd::String&, bd::String&\)', 'e_swap'),
    (r'bd::operator\+\(bd::String, bd::String const&\)', 'e_plus'),
]


def handler(sname):
    def h(M, st, a, ins, env):
        name = ins.x[0][1] if ins is not None else sname
        if sname in ('e_ctor_move', 'e_assign_move', 'e_ctor_copy', 'e_assign_copy'):
            rep = M.V.raw(st, a[1])
            if sname.startswith('e_assign') and a[0].r == a[1].r and a[0].o == a[1].o:
                return a[0]
            r = use_rep(M, st, sname, a, ins, name, rep)
            return r
        if sname == 'e_capacity':
            v = M.V.raw(st, a[0])
            if v.cap is None:
                cap = bv('cap')
                st.assume(b_and(ule(v.n, cap), ule(cap, CAP)))
                M.V.put(st, a[0], v.but(cap=cap))
                return cap
            return v.cap
        if sname == 'e_own':
            M.oblige(st, 'mem', ule(M.V.raw(st, a[0]).n, a[1]), 'precondition of own (room for the elements)')
            return None
        if sname == 'e_reserve':
            v = M.V.raw(st, a[0])
            n = a[1]
            if v.cap is not None:
                cap = bv('cap')
                st.assume(b_and(ule(n, cap), ule(v.n, cap), ule(cap, CAP)))
                M.V.put(st, a[0], v.but(cap=cap))
                v = M.V.raw(st, a[0])
            if v.zero and v.back is None:
                room = ite(ult(v.room, n), n, v.room)
                M.V.put(st, a[0], v.but(room=room))
            return None
        return use(M, st, sname, a, ins, name)
    h.is_contract = sname
    return h


def use_rep(M, st, sname, a, ins, name, rep):
    V = M.V
    q = V.seq_of(st, rep)
    mv = sname.endswith('move')
    V.put(st, a[0], seq_val(st, q, room=rep.room, zero=rep.zero, own=rep.own and mv, cap=rep.cap) if rep.back is not None else rep.but(own=rep.own and mv))
    if not mv and rep.own:
        V.put(st, a[1], V.raw(st, a[1]).but(own=False))
    if mv:
        V.put(st, a[1], fresh_sval(st, 'moved'))
    return [RET(st, a[0])]


# ---- formatted construction -----------------------------------------------------------------
def printf_contract(M, st, a, ins, env):
    """String::printf: the complete formatted text (contract proved by suite text, entry e_printf)"""
    dst, fmt = a[0], a[1]
    r = st.regs[fmt.r]
    if r.chain is None or r.chain.k != 'const' or not isc(fmt.o):
        raise Unsupported('format is not a literal')
    bs = bytes(r.chain.a)[fmt.o:]
    bs = bs[:bs.index(0)]
    out, args, i, lit = None, list(a[2:]), 0, b''

    def cat(q):
        nonlocal out
        out = q if out is None else seq_cat(out, q)
    k = 0
    while k < len(bs):
        if bs[k:k + 1] != b'%':
            lit += bs[k:k + 1]
            k += 1
            continue
        if bs[k:k + 2] == b'%%':
            lit += b'%'
        else:
            if lit:
                cat(Seq(len(lit), lambda j, l=lit: const_table(l, j, 8)))
                lit = b''
            if bs[k:k + 2] == b'%s':
                cat(cstr_arg(M, st, args[i]))
            elif bs[k:k + 2] == b'%c':
                v = args[i]
                cat(Seq(1, lambda j, v=v: v & 255 if isc(v) else S(z3.Extract(7, 0, v))))
            else:
                raise Unsupported('conversion in format')
            i += 1
        k += 2
    if lit:
        cat(Seq(len(lit), lambda j, l=lit: const_table(l, j, 8)))
    q = out or seq_empty()
    M.V.put(st, dst, seq_val(st, q, room=add(q.n, 1), zero=True, own=True))
    return [RET(st, None)]


printf_contract.is_contract = 'String::printf'


def install(M, size, skip=()):
    M.V = Vals(M, size)
    M.ext_patterns = tuple((re.compile('^' + p + '$'), handler(s)) for p, s in TABLE if s not in skip) + \
        ((re.compile(r'^bd::String::printf\(char const\*, \.\.\.\)$'), printf_contract),
         (re.compile(r'^std::(__new_allocator|allocator)<.*>::~?(__new_allocator|allocator)\(.*\)$'), libc.nop)) + tuple(M.ext_patterns)
