"""Exact translation of bit-vector formulas to linear integer arithmetic with wrap-around variables.
A formula and its translation are equisatisfiable: every bit-vector term of width w becomes an integer
term constrained to [0, 2^w), modular results are x - q*2^w with an integer q."""
import z3


class No(Exception):
    pass


K = {k: getattr(z3, k) for k in dir(z3) if k.startswith('Z3_OP_')}
BNUM, BADD, BSUB, BMUL, BNEG, BNOT = z3.Z3_OP_BNUM, z3.Z3_OP_BADD, z3.Z3_OP_BSUB, z3.Z3_OP_BMUL, z3.Z3_OP_BNEG, z3.Z3_OP_BNOT
REL = {
    z3.Z3_OP_ULEQ: (0, lambda a, b: a <= b), z3.Z3_OP_ULT: (0, lambda a, b: a < b),
    z3.Z3_OP_UGEQ: (0, lambda a, b: a >= b), z3.Z3_OP_UGT: (0, lambda a, b: a > b),
    z3.Z3_OP_SLEQ: (1, lambda a, b: a <= b), z3.Z3_OP_SLT: (1, lambda a, b: a < b),
    z3.Z3_OP_SGEQ: (1, lambda a, b: a >= b), z3.Z3_OP_SGT: (1, lambda a, b: a > b),
}


class Side:
    __slots__ = ('d',)

    def __init__(self):
        self.d = {}

    def append(self, c):
        self.d[c.get_id()] = c

    def __iadd__(self, cs):
        for c in cs:
            self.d[c.get_id()] = c
        return self


def bits(e):
    """over-approximation of the bits that can be set in e"""
    w = e.size()
    full = (1 << w) - 1
    d = e.decl().kind()
    if d == BNUM:
        return e.as_long()
    if d == z3.Z3_OP_BAND:
        r = full
        for c in e.children():
            r &= bits(c)
        return r
    if d == z3.Z3_OP_BOR:
        r = 0
        for c in e.children():
            r |= bits(c)
        return r
    if d in (z3.Z3_OP_BLSHR, z3.Z3_OP_BSHL) and z3.is_bv_value(e.arg(1)):
        k = e.arg(1).as_long()
        return (bits(e.arg(0)) >> k if d == z3.Z3_OP_BLSHR else bits(e.arg(0)) << k) & full
    if d == z3.Z3_OP_ZERO_EXT:
        return bits(e.arg(0))
    if d == z3.Z3_OP_EXTRACT:
        hi, lo = e.params()
        return (bits(e.arg(0)) >> lo) & full
    if d == z3.Z3_OP_CONCAT:
        r = 0
        for c in e.children():
            r = (r << c.size()) | bits(c)
        return r
    if d == z3.Z3_OP_ITE:
        return bits(e.arg(1)) | bits(e.arg(2))
    return full


class Tr:
    approx = False
    abstracted = False

    def __init__(self):
        self.memo = {}
        self.side = Side()
        self.n = 0
        self.funs = {}
        self.vars = {}
        self.defs = {}      # id -> list of side constraints indices
        self.keep = []
        self.sidx = {}
        self.extmemo = {}

    def fresh(self, p='q'):
        self.n += 1
        return z3.Int(f'{p}${self.n}')

    def rng(self, v, w):
        self.side.append(v >= 0)
        self.side.append(v < (1 << w))

    def wrap(self, e, lo, hi, w):
        """e in [lo, hi] as python ints -> e mod 2^w"""
        m = 1 << w
        ql, qh = lo // m, hi // m
        if ql == qh:
            return e - ql * m if ql else e
        q = self.fresh('q')
        r = self.fresh('r')
        self.side += [q >= ql, q <= qh, r == e - q * m]
        self.rng(r, w)
        return r

    def lin(self, e):
        """linear decomposition of a bv term of width w: (coeffs {id:(term,c)}, const)"""
        w = e.size()
        co, k = {}, 0
        st = [(e, 1)]
        while st:
            x, c = st.pop()
            d = x.decl().kind() if z3.is_app(x) else None
            if d == BNUM:
                k += c * x.as_long()
            elif d == BADD:
                for y in x.children():
                    st.append((y, c))
            elif d == BSUB:
                ch = x.children()
                st.append((ch[0], c))
                for y in ch[1:]:
                    st.append((y, -c))
            elif d == BNEG:
                st.append((x.arg(0), -c))
            elif d == BNOT:
                st.append((x.arg(0), -c))
                k -= c
            elif d == BMUL:
                cs = [y for y in x.children() if z3.is_bv_value(y)]
                vs = [y for y in x.children() if not z3.is_bv_value(y)]
                if len(vs) > 1:
                    raise No('nonlinear')
                f = 1
                for y in cs:
                    f *= y.as_long()
                if f >> (w - 1) & 1 and f < (1 << w):
                    f -= 1 << w
                if not vs:
                    k += c * f
                else:
                    st.append((vs[0], c * f))
            elif d == z3.Z3_OP_BSHL and z3.is_bv_value(x.arg(1)):
                s = x.arg(1).as_long()
                if s < w:
                    st.append((x.arg(0), c << s))
            else:
                o = co.get(x.get_id())
                co[x.get_id()] = (x, c + (o[1] if o else 0))
        m = 1 << w
        for i in list(co):
            x, c = co[i]
            c %= m
            if c == 0:
                del co[i]
            else:
                if c > m // 2:
                    c -= m
                co[i] = (x, c)
        k %= m
        if k > m // 2 and any(c > 0 for _, c in co.values()):
            k -= m
        return co, k

    def get(self, e, f):
        i = e.get_id()
        r = self.memo.get(i)
        if r is None:
            save = self.side
            self.side = Side()
            try:
                v = f(e)
                r = (v, self.side)
            finally:
                self.side = save
            self.memo[i] = r
            self.keep.append(e)
        if r[1].d:
            self.side.d.update(r[1].d)
        return r[0]

    def bvt(self, e):
        return self.get(e, self._bvt)

    def _bvt(self, e):
        w = e.size()
        if not z3.is_app(e):
            raise No('var')
        d = e.decl().kind()
        if d == BNUM:
            return z3.IntVal(e.as_long())
        if d == z3.Z3_OP_UNINTERPRETED:
            name = e.decl().name()
            if e.num_args() == 0:
                v = z3.Int(name + f'@{w}')
            else:
                f = self.funs.get(e.decl().get_id())
                if f is None:
                    f = z3.Function(name + '@', *([z3.IntSort()] * (e.num_args() + 1)))
                    self.funs[e.decl().get_id()] = f
                    self.keep.append(e.decl())
                v = f(*[self.bvt(c) if z3.is_bv(c) else self._arg(c) for c in e.children()])
            self.rng(v, w)
            return v
        if d == z3.Z3_OP_ITE:
            return z3.If(self.bo(e.arg(0)), self.bvt(e.arg(1)), self.bvt(e.arg(2)))
        if d in (BADD, BSUB, BMUL, BNEG, BNOT, z3.Z3_OP_BSHL):
            co, k = self.lin(e)
            s = z3.IntVal(k)
            lo = hi = k
            mx = (1 << w) - 1
            for x, c in co.values():
                if x.get_id() == e.get_id():
                    raise No('shl')
                s = s + c * self.bvt(x) if c != 1 else s + self.bvt(x)
                if c > 0:
                    hi += c * mx
                else:
                    lo += c * mx
            return self.wrap(s, lo, hi, w)
        if d == z3.Z3_OP_EXTRACT:
            hi, lo = e.params()
            x = self.bvt(e.arg(0))
            xw = e.arg(0).size()
            if lo == 0 and hi == xw - 1:
                return x
            r = self.fresh('x')
            s = r * (1 << lo)
            self.rng(r, w)
            if lo:
                b = self.fresh('xl')
                self.rng(b, lo)
                s = s + b
            if hi < xw - 1:
                a = self.fresh('xh')
                self.rng(a, xw - 1 - hi)
                s = s + a * (1 << (hi + 1))
            self.side.append(x == s)
            return r
        if d == z3.Z3_OP_CONCAT:
            s = None
            for c in e.children():
                t = self.bvt(c)
                s = t if s is None else s * (1 << c.size()) + t
            return s
        if d == z3.Z3_OP_ZERO_EXT:
            return self.bvt(e.arg(0))
        if d == z3.Z3_OP_SIGN_EXT:
            x = self.bvt(e.arg(0))
            xw = e.arg(0).size()
            return z3.If(x < (1 << (xw - 1)), x, x + ((1 << w) - (1 << xw)))
        if d in (z3.Z3_OP_BLSHR,) and z3.is_bv_value(e.arg(1)):
            s = e.arg(1).as_long()
            if s >= w:
                return z3.IntVal(0)
            return self.divmod(self.bvt(e.arg(0)), 1 << s, w)[0]
        if d in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I) and z3.is_bv_value(e.arg(1)) and e.arg(1).as_long():
            return self.divmod(self.bvt(e.arg(0)), e.arg(1).as_long(), w)[0]
        if d in (z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I) and z3.is_bv_value(e.arg(1)) and e.arg(1).as_long():
            return self.divmod(self.bvt(e.arg(0)), e.arg(1).as_long(), w)[1]
        if d == z3.Z3_OP_BAND and e.num_args() == 2:
            for a, b in ((e.arg(0), e.arg(1)), (e.arg(1), e.arg(0))):
                if z3.is_bv_value(a):
                    m = a.as_long() + 1
                    if m & (m - 1) == 0:
                        return self.divmod(self.bvt(b), m, w)[1]
                    m = a.as_long()
                    lo = (m & -m).bit_length() - 1
                    k = (m >> lo) + 1
                    if m and k & (k - 1) == 0:      # contiguous mask
                        q = self.divmod(self.bvt(b), 1 << lo, w)[0]
                        if lo + k.bit_length() - 1 < w:
                            q = self.divmod(q, k, w)[1]
                        return q * (1 << lo)
        if d == z3.Z3_OP_BOR:
            acc, ok = 0, True
            for c in e.children():
                b = bits(c)
                ok = ok and not (acc & b)
                acc |= b
            if ok:
                s = self.bvt(e.arg(0))
                for c in e.children()[1:]:
                    s = s + self.bvt(c)
                return s
        if self.approx:
            self.abstracted = True
            v = z3.Int(f'abs${e.get_id()}')
            self.rng(v, w)
            return v
        raise No(e.decl().name())

    def _arg(self, c):
        raise No('bool arg')

    def divmod(self, x, k, w):
        q, r = self.fresh('d'), self.fresh('m')
        self.side += [x == q * k + r, r >= 0, r < k, q >= 0, q < (1 << w)]
        return q, r

    def sg(self, e):
        x = self.bvt(e)
        w = e.size()
        if z3.is_int_value(x):
            v = x.as_long()
            return z3.IntVal(v - (1 << w) if v >> (w - 1) else v)
        return z3.If(x < (1 << (w - 1)), x, x - (1 << w))

    def bo(self, e):
        return self.get(e, self._bo)

    def _bo(self, e):
        if z3.is_quantifier(e):
            raise No('quantifier')
        d = e.decl().kind()
        if d == z3.Z3_OP_TRUE or d == z3.Z3_OP_FALSE:
            return e
        ch = e.children()
        if d == z3.Z3_OP_AND:
            return z3.And(*[self.bo(c) for c in ch])
        if d == z3.Z3_OP_OR:
            return z3.Or(*[self.bo(c) for c in ch])
        if d == z3.Z3_OP_NOT:
            return z3.Not(self.bo(ch[0]))
        if d == z3.Z3_OP_IMPLIES:
            return z3.Implies(self.bo(ch[0]), self.bo(ch[1]))
        if d == z3.Z3_OP_XOR:
            return z3.Xor(self.bo(ch[0]), self.bo(ch[1]))
        if d == z3.Z3_OP_ITE:
            return z3.If(self.bo(ch[0]), self.bo(ch[1]), self.bo(ch[2]))
        if d in (z3.Z3_OP_EQ, z3.Z3_OP_IFF):
            if z3.is_bool(ch[0]):
                return self.bo(ch[0]) == self.bo(ch[1])
            if not z3.is_bv(ch[0]):
                raise No('eq sort')
            return self.bvt(ch[0]) == self.bvt(ch[1])
        if d == z3.Z3_OP_DISTINCT:
            if not z3.is_bv(ch[0]):
                raise No('distinct')
            return z3.Distinct(*[self.bvt(c) for c in ch])
        if d in REL:
            sg, f = REL[d]
            if sg:
                return f(self.sg(ch[0]), self.sg(ch[1]))
            return f(self.bvt(ch[0]), self.bvt(ch[1]))
        if d == z3.Z3_OP_UNINTERPRETED:
            if e.num_args() == 0:
                return e
            f = self.funs.get(e.decl().get_id())
            if f is None:
                f = z3.Function(e.decl().name() + '@b', *([z3.IntSort()] * e.num_args() + [z3.BoolSort()]))
                self.funs[e.decl().get_id()] = f
                self.keep.append(e.decl())
            return f(*[self.bvt(c) for c in ch])
        raise No(e.decl().name())


def translate(t, assertions):
    """integer assertions equisatisfiable with the given ones; t carries the memo"""
    t.side = Side()
    out = [t.bo(a) for a in assertions]
    return out + list(t.side.d.values())
