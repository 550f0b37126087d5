"""Parser for the textual LLVM IR that clang/opt emit for /repo's sources."""
import re

TOK = re.compile(r'''\s*(?:
   (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<loc>%(?:"[^"]*"|[-\w.$]+))
 | (?P<glo>@(?:"[^"]*"|[-\w.$]+))
 | (?P<meta>!(?:"[^"]*"|[-\w.$]*))
 | (?P<attr>\#\d+)
 | (?P<num>-?\d+(?:\.\d+(?:e[+-]?\d+)?)?)
 | (?P<hex>0x[0-9A-Fa-f]+)
 | (?P<word>[A-Za-z_$][-\w.$]*)
 | (?P<dots>\.\.\.)
 | (?P<p>[()\[\]{}<>,=*:|])
)''', re.X)


class Unsupported(Exception):
    pass


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    m = TOK.match
    while i < n:
        k = m(s, i)
        if not k:
            if s[i:].strip() == '' or s[i:].lstrip().startswith(';'):
                break
            raise Unsupported('tokenize: ' + s[i:i + 40])
        i = k.end()
        g = k.lastgroup
        out.append((g, k.group(g)))
    return out


PARAM_ATTRS = set('''noundef nonnull noalias nocapture readonly readnone writeonly zeroext signext inreg returned
 immarg noreturn dead_on_unwind writable nofree swiftself nest allocptr allocalign dso_local local_unnamed_addr unnamed_addr
 linkonce_odr weak_odr internal private available_externally hidden protected constant external weak common appending linkonce
 inrange inbounds nuw nsw exact fast nnan ninf nsz arcp contract afn reassoc tail musttail notail volatile disjoint nneg'''.split())
PAREN_ATTRS = set('dereferenceable dereferenceable_or_null align sret byval byref inalloca preallocated elementtype captures range memory initializes'.split())


class Fn:
    __slots__ = ('name', 'ret', 'params', 'lines', 'blocks', 'order', 'nounwind', 'mod', 'vararg', 'cfg', 'line', 'file', 'personality')


class Ins:
    __slots__ = ('op', 'res', 'ty', 'a', 'line', 'x')

    def __init__(s, op, res, ty, a, x=None, line=0):
        s.op, s.res, s.ty, s.a, s.x, s.line = op, res, ty, a, x, line

    def __repr__(s):
        return f'{s.res}={s.op} {s.ty} {s.a} {s.x}'


class P:
    """token cursor"""

    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.mod = mod

    def peek(self, k=0):
        j = self.i + k
        return self.t[j][1] if j < len(self.t) else None

    def kind(self, k=0):
        j = self.i + k
        return self.t[j][0] if j < len(self.t) else None

    def next(self):
        v = self.t[self.i]
        self.i += 1
        return v

    def eat(self, s):
        if self.peek() == s:
            self.i += 1
            return True
        return False

    def expect(self, s):
        if not self.eat(s):
            raise Unsupported(f'expected {s} got {self.t[self.i:self.i+6]}')

    def skip_attrs(self):
        while True:
            p = self.peek()
            if p is None:
                return
            if p in PARAM_ATTRS and self.kind() == 'word':
                self.i += 1
            elif p in PAREN_ATTRS and self.kind() == 'word':
                self.i += 1
                if self.peek() == '(':
                    d = 0
                    while True:
                        k = self.next()[1]
                        if k == '(':
                            d += 1
                        elif k == ')':
                            d -= 1
                            if d == 0:
                                break
                elif self.kind() == 'num':
                    self.i += 1
            elif self.kind() == 'attr':
                self.i += 1
            else:
                return

    def type(self):
        k, v = self.next()
        if k == 'word':
            if v[0] == 'i' and v[1:].isdigit():
                t = ('i', int(v[1:]))
            elif v == 'ptr':
                t = 'ptr'
            elif v in ('void', 'label', 'metadata', 'token', 'opaque'):
                t = v
            elif v in ('double', 'float', 'x86_fp80', 'half', 'fp128'):
                t = ('f', v)
            else:
                raise Unsupported('type ' + v)
        elif k == 'loc':
            t = ('n', v)
        elif v == '[':
            n = int(self.next()[1])
            self.expect('x')
            e = self.type()
            self.expect(']')
            t = ('a', n, e)
        elif v == '{':
            fs = []
            if not self.eat('}'):
                while True:
                    fs.append(self.type())
                    if self.eat('}'):
                        break
                    self.expect(',')
            t = ('s', tuple(fs), False)
        elif v == '<':
            if self.peek() == '{':
                self.next()
                fs = []
                if not self.eat('}'):
                    while True:
                        fs.append(self.type())
                        if self.eat('}'):
                            break
                        self.expect(',')
                self.expect('>')
                t = ('s', tuple(fs), True)
            else:
                n = int(self.next()[1])
                self.expect('x')
                e = self.type()
                self.expect('>')
                t = ('v', n, e)
        else:
            raise Unsupported(f'type tok {v}')
        # function type: T (args)
        if self.peek() == '(' and t not in ('label',):
            save = self.i
            try:
                self.next()
                while not self.eat(')'):
                    if self.eat('...'):
                        continue
                    self.type()
                    self.skip_attrs()
                    self.eat(',')
                t = ('fn', t)
            except Unsupported:
                self.i = save
        return t

    def value(self, ty):
        """operand of known type"""
        k, v = self.next()
        if k == 'loc':
            return ('r', v)
        if k == 'glo':
            return ('g', v[1:].strip('"'))
        if k == 'num':
            if '.' in v:
                return ('f', float(v))
            return ('c', int(v))
        if k == 'hex':
            return ('f', v)
        if k == 'str':
            return ('cs', unesc(v[2:-1]))
        if k == 'word':
            if v in ('true', 'false'):
                return ('c', 1 if v == 'true' else 0)
            if v == 'null':
                return ('null',)
            if v in ('undef', 'poison'):
                return ('undef',)
            if v == 'zeroinitializer':
                return ('zero',)
            if v == 'none':
                return ('none',)
            if v == 'getelementptr':
                self.skip_attrs()
                if self.peek() == 'inrange':
                    self.next()
                self.expect('(')
                bt = self.type()
                self.expect(',')
                ops = []
                while True:
                    self.skip_attrs()
                    if self.peek() == 'inrange':
                        self.next()
                    t = self.type()
                    ops.append((t, self.value(t)))
                    if self.eat(')'):
                        break
                    self.expect(',')
                return ('gep', bt, ops)
            if v in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext'):
                self.expect('(')
                t = self.type()
                x = self.value(t)
                self.expect('to')
                t2 = self.type()
                self.expect(')')
                return ('cast', v, t, x, t2)
            if v in ('add', 'sub', 'mul'):
                self.skip_attrs()
                self.expect('(')
                t = self.type()
                x = self.value(t)
                self.expect(',')
                t = self.type()
                y = self.value(t)
                self.expect(')')
                return ('bin', v, t, x, y)
            if v == 'dso_local_equivalent' or v == 'no_cfi':
                return self.value(ty)
            raise Unsupported('const ' + v)
        if v in ('[', '{', '<'):
            close = {'[': ']', '{': '}', '<': '>'}[v]
            packed = False
            if v == '<' and self.peek() == '{':
                self.next()
                close = '}'
                packed = True
            els = []
            if not self.eat(close):
                while True:
                    t = self.type()
                    els.append((t, self.value(t)))
                    if self.eat(close):
                        break
                    self.expect(',')
            if packed:
                self.expect('>')
            return ('agg', els)
        if k == 'meta':
            # metadata operand
            if self.peek() == '(':
                d = 0
                while True:
                    q = self.next()[1]
                    d += q == '('
                    d -= q == ')'
                    if d == 0:
                        break
            return ('meta', v)
        raise Unsupported(f'value {k} {v}')

    def tv(self):
        self.skip_attrs()
        t = self.type()
        self.skip_attrs()
        return t, self.value(t)


def unesc(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


class Module:
    def __init__(self, text):
        self.types = {}
        self.fns = {}
        self.decls = {}
        self.globals = {}
        self.tls = set()
        self.aliases = {}
        self.dbg = {}
        self.attrs = {}
        self.meta = {}
        self._sz = {}
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            l = lines[i]
            if l.startswith('%'):
                nm, rest = l.split(' = type ', 1)
                self.types[nm] = rest
            elif l.startswith('define'):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                self._define(l, lines[i + 1:j])
                i = j
            elif l.startswith('declare'):
                self._declare(l)
            elif l.startswith('@'):
                nm, rest = l.split(' = ', 1)
                nm = nm[1:].strip('"')
                if re.match(r'[\w ]*\balias\b', rest):
                    m = re.findall(r'@("[^"]*"|[-\w.$]+)', rest)
                    self.aliases[nm] = m[-1].strip('"')
                else:
                    self.globals[nm] = rest
            elif l.startswith('attributes'):
                m = re.match(r'attributes (#\d+) = \{(.*)\}', l)
                self.attrs[m.group(1)] = m.group(2)
            elif l.startswith('!'):
                m = re.match(r'!(\d+) = (.*)', l)
                if m:
                    self.meta[int(m.group(1))] = m.group(2)
            i += 1
        for k, v in list(self.types.items()):
            self.types[k] = P(tokenize(v), self).type() if v != 'opaque' else 'opaque'
        self._g = {}
        for f in self.fns.values():
            f.nounwind = any('nounwind' in self.attrs.get(a, '') for a in f.nounwind)
        for d in self.decls.values():
            d['attrs'] = ' '.join(self.attrs.get(a, '') for a in d['attrids'])

    def fline(self, ref):
        m = self.meta.get(ref, '')
        k = re.search(r'line: (\d+)', m)
        return int(k.group(1)) if k else 0

    def dbg_loc(self, ref):
        """(file,line) for a DILocation id"""
        if ref in self.dbg:
            return self.dbg[ref]
        m = self.meta.get(ref, '')
        k = re.search(r'line: (\d+)', m)
        line = int(k.group(1)) if k else 0
        f = '?'
        s = re.search(r'scope: !(\d+)', m)
        seen = 0
        while s and seen < 20:
            seen += 1
            mm = self.meta.get(int(s.group(1)), '')
            fm = re.search(r'file: !(\d+)', mm)
            if fm:
                fn = re.search(r'filename: "([^"]*)"', self.meta.get(int(fm.group(1)), ''))
                if fn:
                    f = fn.group(1).split('/')[-1]
                break
            s = re.search(r'scope: !(\d+)', mm)
        self.dbg[ref] = (f, line)
        return self.dbg[ref]

    def _sig(self, l):
        m = re.search(r'@("[^"]*"|[-\w.$]+)\(', l)
        name = m.group(1).strip('"')
        head = l[:m.start()]
        # params
        d = 0
        j = m.end() - 1
        while True:
            c = l[j]
            if c == '"':
                j = l.index('"', j + 1)
            if c == '(':
                d += 1
            elif c == ')':
                d -= 1
                if d == 0:
                    break
            j += 1
        ps = l[m.end():j]
        tail = l[j + 1:]
        return name, head, ps, tail

    def _declare(self, l):
        name, head, ps, tail = self._sig(l)
        self.decls[name] = dict(attrids=re.findall(r'#\d+', tail), ps=ps, head=head)

    def _define(self, l, body):
        name, head, ps, tail = self._sig(l)
        f = Fn()
        f.name = name
        f.mod = self
        f.lines = body
        f.blocks = None
        f.cfg = None
        f.nounwind = re.findall(r'#\d+', tail)
        f.personality = 'personality' in tail
        f.vararg = False
        hp = P(tokenize(head.split(None, 1)[1]), self)
        while True:
            hp.skip_attrs()
            if hp.peek() in ('comdat', 'dso_preemptable', 'fastcc', 'ccc', 'coldcc'):
                hp.next()
                continue
            break
        f.ret = hp.type()
        f.params = []
        pp = P(tokenize(ps), self)
        k = 0
        while pp.peek() is not None:
            if pp.eat('...'):
                f.vararg = True
                break
            t = pp.type()
            pp.skip_attrs()
            nm = pp.next()[1] if pp.kind() == 'loc' else f'%{k}'
            f.params.append((t, nm))
            k += 1
            pp.eat(',')
        m = re.search(r'!dbg !(\d+)', tail)
        f.line = int(m.group(1)) if m else None
        self.fns[name] = f

    def fn(self, name):
        name = self.aliases.get(name, name)
        f = self.fns.get(name)
        if f is not None and f.blocks is None:
            self._body(f)
        return f

    def _body(self, f):
        blocks = {}
        order = []
        cur = None
        # entry label
        nparams = sum(1 for t, n in f.params if re.fullmatch(r'%\d+', n))
        pend = ''
        lines = []
        for l in f.lines:
            if not l.strip():
                continue
            if l.lstrip().startswith(';'):
                continue
            # join continuation lines
            if lines and (l.startswith('          ') or l.strip().startswith(']') or (l.startswith('    ') and not re.match(r'\s+%\S+ = ', l) and not l.startswith('  %') and l.startswith('    '))):
                lines[-1] += ' ' + l.strip()
            else:
                lines.append(l)
        for l in lines:
            m = re.match(r'^("[^"]*"|[-\w.$]+):', l)
            if m:
                cur = '%' + m.group(1)
                blocks[cur] = []
                order.append(cur)
                continue
            if cur is None:
                cur = f'%{nparams}'
                blocks[cur] = []
                order.append(cur)
            ins = self._ins(l)
            if ins is not None:
                blocks[cur].append(ins)
        f.blocks = blocks
        f.order = order

    def _ins(self, l):
        line = None
        m = re.search(r', !dbg !(\d+)', l)
        if m:
            line = int(m.group(1))
        # strip metadata attachments
        l2 = re.sub(r'(, !(?:dbg|tbaa|srcloc|prof|range|nonnull|noundef|heapallocsite|tbaa\.struct|llvm\.loop|align|nosanitize|noalias|alias\.scope|invariant\.load|invariant\.group|dereferenceable|unpredictable) !\d+)+', '', l)
        p = P(tokenize(l2), self)
        res = None
        if p.kind() == 'loc' and p.peek(1) == '=':
            res = p.next()[1]
            p.next()
        while p.peek() in ('tail', 'musttail', 'notail'):
            p.next()
        op = p.next()[1]
        I = lambda *a, **k: Ins(*a, line=line, **k)
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            fl = set()
            while p.peek() in PARAM_ATTRS:
                fl.add(p.next()[1])
            t = p.type()
            a = p.value(t)
            p.expect(',')
            b = p.value(t)
            return I(op, res, t, [a, b], x=fl)
        if op == 'fneg':
            p.skip_attrs()
            t = p.type()
            return I(op, res, t, [p.value(t)])
        if op in ('icmp', 'fcmp'):
            p.skip_attrs()
            pred = p.next()[1]
            t = p.type()
            a = p.value(t)
            p.expect(',')
            b = p.value(t)
            return I(op, res, t, [a, b], x=pred)
        if op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'uitofp', 'sitofp', 'fptoui', 'fptosi', 'fpext', 'fptrunc', 'addrspacecast'):
            p.skip_attrs()
            t = p.type()
            a = p.value(t)
            p.expect('to')
            t2 = p.type()
            return I(op, res, t2, [a], x=t)
        if op == 'alloca':
            p.skip_attrs()
            t = p.type()
            cnt = ('c', 1)
            ct = ('i', 32)
            if p.eat(','):
                if p.peek() != 'align':
                    ct = p.type()
                    cnt = p.value(ct)
            return I(op, res, t, [cnt], x=ct)
        if op == 'load':
            at = p.eat('atomic')
            p.eat('volatile')
            t = p.type()
            p.expect(',')
            pt = p.type()
            a = p.value(pt)
            return I('load', res, t, [a], x=p.next()[1] if at else None)
        if op == 'store':
            at = p.eat('atomic')
            p.eat('volatile')
            t, v = p.tv()
            p.expect(',')
            pt = p.type()
            a = p.value(pt)
            return I('store', None, t, [v, a], x=p.next()[1] if at else None)
        if op == 'atomicrmw':
            p.eat('volatile')
            k = p.next()[1]
            pt = p.type()
            a = p.value(pt)
            p.expect(',')
            t = p.type()
            v = p.value(t)
            return I('atomicrmw', res, t, [a, v], x=(k, p.next()[1]))
        if op == 'cmpxchg':
            p.eat('weak')
            p.eat('volatile')
            pt = p.type()
            a = p.value(pt)
            p.expect(',')
            t = p.type()
            v = p.value(t)
            p.expect(',')
            t = p.type()
            w = p.value(t)
            return I('cmpxchg', res, t, [a, v, w])
        if op == 'fence':
            return None
        if op == 'getelementptr':
            inb = False
            while p.peek() in PARAM_ATTRS:
                if p.next()[1] == 'inbounds':
                    inb = True
            bt = p.type()
            p.expect(',')
            ops = []
            while True:
                t = p.type()
                ops.append((t, p.value(t)))
                if not p.eat(','):
                    break
            return I('gep', res, bt, ops, x=inb)
        if op == 'br':
            if p.peek() == 'label':
                p.next()
                return I('br', None, None, [p.next()[1]])
            p.type()
            c = p.value(('i', 1))
            p.expect(',')
            p.expect('label')
            a = p.next()[1]
            p.expect(',')
            p.expect('label')
            b = p.next()[1]
            return I('cbr', None, None, [c, a, b])
        if op == 'switch':
            t = p.type()
            v = p.value(t)
            p.expect(',')
            p.expect('label')
            d = p.next()[1]
            p.expect('[')
            cs = []
            while not p.eat(']'):
                tt = p.type()
                cv = p.value(tt)
                p.expect(',')
                p.expect('label')
                cs.append((cv, p.next()[1]))
            return I('switch', None, t, [v, d, cs])
        if op == 'ret':
            t = p.type()
            if t == 'void':
                return I('ret', None, t, [])
            return I('ret', None, t, [p.value(t)])
        if op == 'unreachable':
            return I('unreachable', None, None, [])
        if op == 'phi':
            p.skip_attrs()
            t = p.type()
            inc = []
            while True:
                p.expect('[')
                v = p.value(t)
                p.expect(',')
                b = p.next()[1]
                p.expect(']')
                inc.append((v, b))
                if not p.eat(','):
                    break
            return I('phi', res, t, inc)
        if op == 'select':
            p.skip_attrs()
            ct, c = p.tv()
            p.expect(',')
            t, a = p.tv()
            p.expect(',')
            t, b = p.tv()
            return I('select', res, t, [c, a, b])
        if op == 'extractvalue':
            t, a = p.tv()
            idx = []
            while p.eat(','):
                idx.append(int(p.next()[1]))
            return I('extractvalue', res, t, [a], x=idx)
        if op == 'insertvalue':
            t, a = p.tv()
            p.expect(',')
            t2, b = p.tv()
            idx = []
            while p.eat(','):
                idx.append(int(p.next()[1]))
            return I('insertvalue', res, t, [a, b], x=(t2, idx))
        if op == 'freeze':
            t, a = p.tv()
            return I('freeze', res, t, [a])
        if op == 'va_arg':
            raise Unsupported('va_arg')
        if op in ('call', 'invoke'):
            p.skip_attrs()
            while p.peek() in ('fastcc', 'ccc', 'coldcc'):
                p.next()
                p.skip_attrs()
            t = p.type()
            if isinstance(t, tuple) and t[0] == 'fn':
                t = t[1]
            k, v = p.next()
            if k == 'glo':
                callee = ('g', v[1:].strip('"'))
            elif k == 'loc':
                callee = ('r', v)
            else:
                raise Unsupported('callee ' + v)
            p.expect('(')
            args = []
            while not p.eat(')'):
                tt = p.type()
                attrs0 = p.i
                p.skip_attrs()
                if tt == 'metadata':
                    # skip to , or )
                    d = 0
                    while not (d == 0 and p.peek() in (',', ')')):
                        q = p.next()[1]
                        d += q == '('
                        d -= q == ')'
                    args.append((tt, ('meta', '')))
                else:
                    args.append((tt, p.value(tt)))
                p.eat(',')
            attrs = []
            while p.kind() == 'attr' or (p.kind() == 'word' and p.peek() in PARAM_ATTRS):
                attrs.append(p.next()[1])
            nm = None
            if op == 'invoke':
                p.expect('to')
                p.expect('label')
                ok = p.next()[1]
                p.expect('unwind')
                p.expect('label')
                uw = p.next()[1]
                return I('invoke', res, t, args, x=(callee, attrs, ok, uw))
            return I('call', res, t, args, x=(callee, attrs))
        if op == 'landingpad':
            t = p.type()
            cleanup = False
            clauses = []
            while p.peek() is not None:
                if p.eat('cleanup'):
                    cleanup = True
                elif p.eat('catch'):
                    tt = p.type()
                    clauses.append(('catch', p.value(tt)))
                elif p.eat('filter'):
                    tt = p.type()
                    clauses.append(('filter', p.value(tt)))
                else:
                    break
            return I('landingpad', res, t, clauses, x=cleanup)
        if op == 'resume':
            t, v = p.tv()
            return I('resume', None, t, [v])
        raise Unsupported('instruction ' + op + ': ' + l)

    # ---- layout -------------------------------------------------------
    def rt(self, t):
        while isinstance(t, tuple) and t[0] == 'n':
            t = self.types[t[1]]
        return t

    def align(self, t):
        t = self.rt(t)
        if t == 'ptr':
            return 8
        if t[0] == 'i':
            b = (t[1] + 7) // 8
            a = 1
            while a < b and a < 16:
                a *= 2
            return a
        if t[0] == 'f':
            return {'double': 8, 'float': 4, 'x86_fp80': 16}[t[1]]
        if t[0] in ('a', 'v'):
            return self.align(t[2])
        if t[0] == 's':
            if t[2] or not t[1]:
                return 1
            return max(self.align(x) for x in t[1])
        raise Unsupported(f'align {t}')

    def size(self, t):
        k = t
        r = self._sz.get(k)
        if r is not None:
            return r
        t = self.rt(t)
        if t == 'ptr':
            r = 8
        elif t == 'void':
            r = 0
        elif t[0] == 'i':
            b = (t[1] + 7) // 8
            a = self.align(t)
            r = (b + a - 1) // a * a
        elif t[0] == 'f':
            r = {'double': 8, 'float': 4, 'x86_fp80': 16}[t[1]]
        elif t[0] in ('a', 'v'):
            r = t[1] * self.size(t[2])
        elif t[0] == 's':
            o = 0
            for x in t[1]:
                a = 1 if t[2] else self.align(x)
                o = (o + a - 1) // a * a
                o += self.size(x)
            a = self.align(t)
            r = (o + a - 1) // a * a
        else:
            raise Unsupported(f'size {t}')
        self._sz[k] = r
        return r

    def field(self, t, i):
        t = self.rt(t)
        o = 0
        for j, x in enumerate(t[1]):
            a = 1 if t[2] else self.align(x)
            o = (o + a - 1) // a * a
            if j == i:
                return o, x
            o += self.size(x)
        raise Unsupported('field')

    def global_def(self, name):
        """(type, value|None, is_const)"""
        if name in self._g:
            return self._g[name]
        rest = self.globals.get(name)
        if rest is None:
            return None
        rest = re.sub(r'(, (?:align \d+|comdat(?:\(\$[^)]*\))?|section "[^"]*"|!dbg !\d+))+$', '', rest)
        p = P(tokenize(rest), self)
        const = False
        ext = False
        while True:
            w = p.peek()
            if w == 'constant':
                p.next()
                const = True
                break
            if w == 'global':
                p.next()
                break
            if w == 'external':
                ext = True
            if w == 'thread_local':
                self.tls.add(name)
                p.next()
                if p.peek() == '(':
                    while p.next()[1] != ')':
                        pass
                continue
            p.next()
            if w is None:
                raise Unsupported('global ' + name)
        t = p.type()
        v = None
        if not ext and p.peek() is not None and p.peek() != ',':
            v = p.value(t)
        self._g[name] = (t, v, const)
        return self._g[name]
