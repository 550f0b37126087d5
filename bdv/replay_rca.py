"""Replay of container contracts on concrete operands (driver: tu/replay_rca.h)."""
import os
import random
import shutil
import subprocess
import tempfile
from . import build
from .sym import isc, sgn
from .obj import Seq
from .spec import Ctx, NPOS

FLAGS = ['-std=c++14', '-DNDEBUG', '-DHAVE_CONFIG_H', '-w', '-O1', '-g', '-fno-access-control', '-fsanitize=address,undefined',
         '-fno-sanitize=function,nonnull-attribute,pointer-overflow,null,alignment,vptr,shift', '-fno-sanitize-recover=all', '-rdynamic']


def build_driver(src, out, extra=(), libs=('-ldl',)):
    inc = ['-I', build.VERIF + '/config', '-I', build.REPO + '/src', '-I', '/usr/include/tcl8.6', '-I', build.VERIF + '/tu']
    r = subprocess.run([build.CLANG] + FLAGS + list(extra) + inc + [build.VERIF + '/tu/' + src, '-o', out] + list(libs), capture_output=True, text=True)
    if r.returncode:
        raise build.BuildFail(r.stderr[-2000:])


def conc(bs, w=8):
    return Seq(len(bs), lambda k: bs[k] if isc(k) and 0 <= k < len(bs) else 0, w)


class CCtx(Ctx):
    """concrete evaluation of a contract"""

    def __init__(self, spec, es):
        super().__init__(None, None, spec)
        self.fails = []
        self.es = es
        self.preb = {}      # operand name -> list of elements before
        self.post = {}      # operand name -> dict after
        self.concrete = True

    def P(self, n):
        return conc(self.post[n]['v'], 8 * self.es)

    def ob(self, tag, cond, msg):
        if cond is True:
            return
        if cond is False:
            self.fails.append((tag, msg))
            return
        raise RuntimeError('not concrete: ' + msg)

    def same(self, tag, got, want, msg):
        if got.n != want.n:
            self.fails.append((tag, f'{msg} (length): {got.n}, expected {want.n}'))
            return
        for k in range(want.n if want.n < 100000 else 0):
            if got.at(k) != want.at(k):
                self.fails.append((tag, f'{msg}: element {k} is {got.at(k)}, expected {want.at(k)}'))
                return

    def ret_w(self, w):
        return self.out.v & ((1 << w) - 1)

    def cap(self, n):
        return self.post[n]['cap']

    def exclusive(self, n, tag, msg):
        self.ob(tag, self.post[n]['rc'] <= 1 or not self.post[n]['v'], msg)

    def ret_elem(self, n, idx, mutable=False, allow_end=False):
        p = self.post[n]
        L = len(p['v'])
        if L and (idx <= L if allow_end else idx < L):
            self.ob('func', self.ret == p['data'] + idx * self.es, f'returned pointer designates position of {n}')
        if mutable:
            self.exclusive(n, 'perm', f'mutable access to {n} is given only on unshared storage')
            self.ob('hash', p['hash'] == 0 or not p['v'], f'cached hash of {n} dropped when mutable access is given')

    def view(self):
        n = len(self.preb['s'])
        v = self.viewb
        self.ob('cstr', v is not None and v[n] == 0, 'view is NUL terminated right after the last byte')
        self.same('cstr', conc(v[:n]), self.S('s'), 'view holds the exact bytes')

    def hash_field(self, n):
        return self.post[n]['hash']

    def wseq(self, n):
        return conc([int.from_bytes(bytes(self.wb[j:j + self.es]), 'little') for j in range(0, len(self.wb), self.es)], 8 * self.es)


class RcaReplay:
    def __init__(self, src, es=1, extra=(), cls=False):
        self.src, self.es, self.extra, self.cls = src, es, extra, cls

    def build(self):
        self.dir = tempfile.mkdtemp(prefix='bdvr_')
        self.exe = self.dir + '/r'
        build_driver(self.src, self.exe, self.extra)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    # ---- case generation -----------------------------------------------------------
    def elems(self, rnd, n, mode):
        if self.es == 1:
            al = {0: b'ab', 1: b'aAbB \n\r', 2: bytes([0, 97, 255, 128, 32, 9]), 3: b' \t\n\ra', 4: b'abcdefgh'}[mode]
            return [rnd.choice(al) for _ in range(n)]
        al = {0: [1, 2], 1: [0, 1, 0xffffffff], 2: [7, 1 << 30, 0x80000000], 3: [1], 4: list(range(10))}[mode]
        return [rnd.choice(al) % (1 << (8 * self.es)) for _ in range(n)]

    def gen(self, spec, rnd, cfg=None, model=None):
        es = self.es
        case = {'strs': [], 'args': [], 'pre': {}, 'val': {}, 'names': [], 'view': 0}
        m = {}
        for k, v in (model or {}).items() if isinstance(model, dict) else (model or []):
            m[k] = v
        mode = rnd.randrange(5)

        def mv(key, lo, hi):
            """model value if it is small enough to build, else random"""
            v = m.get(key)
            if isinstance(v, int) and lo <= v <= hi:
                return v
            return rnd.randint(lo, hi)
        idx = {}
        lens = []
        for n, k in spec.args:
            if k in ('S', 'cS', 'O'):
                i = len(case['strs'])
                want = (cfg or {}).get(n)
                if k == 'O':
                    case['strs'].append(dict(name=n, rep=5, tok='5'))
                    idx[n] = i
                    case['args'].append(f's{i}')
                    continue
                prev = [x for x in case['strs'] if x['rep'] != 5]
                if want is None:
                    want = rnd.choice(['null', 'nobuf'] + ['buf'] * 6 + (['='] + ['~'] * 2 if prev else []))
                if want[0] in '=~':
                    cands = [x for x in prev if (not want[1:] or x['name'] == want[1:]) and x['rep'] != 3 and (want[0] == '=' or x['rep'] in (1, 2))]
                    if not cands:
                        want = 'buf'
                if want[0] == '=':
                    x = rnd.choice(cands)
                    j = idx[x['name']]
                    s = dict(name=n, rep=3, tok=f'3 {j}', of=x['name'])
                    case['pre'][n] = case['pre'][x['name']]
                elif want in ('null', 'nobuf'):
                    oth = rnd.choice([0, 0, 1]) if want == 'nobuf' else 0
                    s = dict(name=n, rep=0 if want == 'null' else 1, tok=f'{0 if want == "null" else 1} 0 0 0 0 {oth} {rnd.randint(0, 1)} -')
                    case['pre'][n] = []
                else:
                    if want[0] == '~':
                        x = rnd.choice(cands)
                        cap, buf, j, rep = x.get('cap', 0), x.get('buf', []), idx[x['name']], 4
                        oth = 0
                    else:
                        cap = mv(n + '.cap', 1, 40) if n + '.cap' in m else rnd.choice([1, 2, 3, 4, 6, 9, 13, 17, 40])
                        buf, j, rep = self.elems(rnd, cap, mode), 0, 2
                        oth = mv(n + '.others', 0, 2) if n + '.others' in m else rnd.choice([0, 0, 1])
                    off = mv(n + '.off', 0, cap)
                    if n + '.off' not in m and rnd.random() < .4:
                        off = 0
                    ln = mv(n + '.len', 0, cap - off)
                    if n + '.len' not in m and rnd.random() < .4:
                        ln = cap - off
                    hx = b''.join(e.to_bytes(es, 'little') for e in buf).hex() or '-'
                    s = dict(name=n, rep=rep, cap=cap, buf=buf, tok=f'{rep} {j} {cap} {off} {ln} {oth} {rnd.randint(0, 1)} {hx}')
                    case['pre'][n] = buf[off:off + ln]
                idx[n] = i
                case['strs'].append(s)
                case['args'].append(f's{i}')
                lens.append(len(case['pre'][n]))
            elif k in ('n', 'i'):
                base = [0, 1, 2, 3, NPOS, NPOS - 1, NPOS - 3, 1 << 63, (1 << 63) - 1, 1 << 32, (1 << 31), 1 << 40] + [x + d for x in lens for d in (-2, -1, 0, 1, 2, 3)] + [-x + d for x in lens for d in (-1, 0, 1)] + list(range(8))
                v = m[n] if isinstance(m.get(n), int) else rnd.choice(base)
                v %= 1 << 64
                case['val'][n] = v
                case['args'].append(f'n{v}')
            elif k == 'k':
                v = m[n] if isinstance(m.get(n), int) else rnd.choice([0, 1, 2, 3, 5, -1, -2, 2**31 - 1, -2**31])
                case['val'][n] = v % (1 << 32)
                case['args'].append(f'n{v % (1 << 64)}')
            elif k == 'c':
                v = self.elems(rnd, 1, mode)[0]
                case['val'][n] = v
                case['args'].append('m' + v.to_bytes(es, 'little').hex() if self.cls else f'n{sgn(v, 8 * es) % (1 << 64)}')
            elif k == 'b':
                v = rnd.randint(0, 1)
                case['val'][n] = bool(v)
                case['args'].append(f'n{v}')
            elif k == 'item':
                s0 = [x for x in case['strs'] if x['rep'] in (2, 4)][:1]
                if s0 and case['pre'][s0[0]['name']] and ((cfg or {}).get(n) == 'in' or ((cfg or {}).get(n) is None and rnd.random() < .3)):
                    p = case['pre'][s0[0]['name']]
                    j = mv(n + '.idx', 0, len(p) - 1)
                    case['val'][n + '_v'] = p[j]
                    case['args'].append(f'i{idx[s0[0]["name"]]}:{j}')
                else:
                    v = self.elems(rnd, 1, mode)[0]
                    case['val'][n + '_v'] = v
                    case['args'].append('b' + v.to_bytes(es, 'little').hex())
                case['val'][n] = 0
            elif k in ('C', 'C?', 'Cn'):
                if k == 'C?' and ((cfg or {}).get(n) == 'null' or rnd.random() < .1):
                    case['pre'][n] = []
                    case['args'].append('n0')
                    continue
                ln = mv(n + '.len', 0, 20) if n + '.len' in m else rnd.choice([0, 1, 2, 3, 5, 9, 20])
                d = self.elems(rnd, ln, mode)
                if k != 'Cn' or (cfg or {}).get(n) == 'npos' or ((cfg or {}).get(n) is None and rnd.random() < .4):
                    d = [x or 1 for x in d]
                    tail = '00'
                    if k == 'Cn':
                        case['val']['n' + n] = NPOS
                else:
                    tail = ''
                    case['val']['n' + n] = ln
                case['pre'][n] = d
                case['val'][n] = 0
                case['args'].append('b' + (bytes(d).hex() + tail or '-'))
                lens.append(ln)
            elif k == 'nC':
                case['args'].append(f'n{case["val"][n]}')
            elif k == 'D':
                ln = mv(n + '.len', 0, 20) if n + '.len' in m else rnd.choice([0, 1, 2, 3, 5, 9, 20])
                d = self.elems(rnd, ln, mode)
                case['pre'][n] = d
                case['val'][n], case['val']['n' + n] = 0, ln
                case['val']['_j' + n] = len(case['args'])
                case['args'].append('b' + (b''.join(e.to_bytes(es, 'little') for e in d).hex() or '-'))
            elif k == 'eD':
                case['args'].append(f'e{case["val"]["_j" + n[1:]]}')
            elif k == 'W':
                ln = mv(n + '.room', 0, 60) if n + '.room' in m else rnd.choice([0, 1, 2, 5, 10, 45])
                case['val']['w' + n] = ln
                case['val'][n] = 0
                case['pre'][n] = [0xAA] * ln
                case['args'].append(f'w{ln}')
            elif k == 'o':
                case['val']['w' + n] = 1
                case['val'][n] = 0
                case['args'].append(f'u{es}' if self.cls and n == 'r' else f'w{es}')
            elif k == 'IL':
                ln = mv(n + '.len', 0, 20) if n + '.len' in m else rnd.choice([0, 1, 2, 5])
                d = self.elems(rnd, ln, mode)
                case['pre'][n] = d
                case['val'][n] = 0
                case['args'].append('l' + (b''.join(e.to_bytes(es, 'little') for e in d).hex() or '-'))
            else:
                return None
        case['idx'] = idx
        case['fail'] = rnd.choice([-1, -1, -1, 0, 1, 2])
        # preconditions
        c = self.ctx(spec, case)
        if spec.pre and not all(x is True for x in spec.pre(c)):
            return None
        # operand lengths that no test can build
        for n, k in spec.args:
            if k in ('n', 'i') and spec.limit and not spec.limit(c):
                return None
        if getattr(spec, 'view', False):
            case['view'] = idx['s'] + 1
        return case

    def ctx(self, spec, case):
        c = CCtx(spec, self.es)
        c.a = dict(case['val'])
        c.pre = {n: conc(v, 8 * self.es) for n, v in case['pre'].items()}
        c.preb = case['pre']
        return c

    def line(self, i, spec, case):
        return ' '.join([str(i), spec.name, str(case['fail']), str(case['view']), str(len(case['strs']))] + [s['tok'] for s in case['strs']] +
                        [str(len(case['args']))] + case['args'])

    # ---- evaluation --------------------------------------------------------------------
    def judge(self, spec, case, out):
        """list of (tag, message)"""
        c = self.ctx(spec, case)
        st, ret = int(out['R'][1]), int(out['R'][2])
        names = [s['name'] for s in case['strs']]
        argd = dict(spec.args)
        F = c.fails
        c.hf = {}
        for s, rec in zip(case['strs'], out['S']):
            n = s['name']
            if rec[0] == 'I':
                F.append(('inv', f'{n} is malformed afterwards'))
            elif rec[0] == 'A':
                c.post[n] = c.post.get(s['of'])
            elif rec[0] == 'S':
                h = rec[5]
                b = bytes.fromhex(h) if h != '-' else b''
                v = [int.from_bytes(b[j:j + self.es], 'little') for j in range(0, len(b), self.es)]
                c.post[n] = dict(data=int(rec[1]), cap=int(rec[2]), rc=int(rec[3]), v=v, hash=int(rec[6]), hf=int(rec[7]))
                if int(rec[3]) != int(rec[4]):
                    F.append(('rc', f'{n}: {rec[3]} references counted, {rec[4]} handles hold the storage'))
                if not spec.nohash and int(rec[6]) not in (0, int(rec[7])):
                    F.append(('hash', f'{n}: cached hash is not the hash of its elements'))
        for x in out['X']:
            if x[0] == 'L':
                F.append(('life', x[2:]))
                continue
            F.append({'O': ('perm', 'another handle of the storage changed'), 'C': ('perm', 'a constant argument was written'),
                      'Q': ('rc', 'references counted differ from the handles')}[x])
        if out['leak'] and not any(t == 'inv' for t, _ in F):
            F.append(('leak', f'{out["leak"]} allocations not released after all handles are gone'))
        if any(t == 'inv' for t, _ in F):
            return F
        c.wb = list(bytes.fromhex(out['W'])) if out.get('W') not in (None, '-') else []
        c.viewb = list(bytes.fromhex(out['V'])) if out.get('V') not in (None, '-') else None
        c.__dict__['out'] = type('o', (), dict(v=ret))()
        if spec.conc:
            spec.conc(c)
        rc = spec.raises(c) if spec.raises else False
        if st == 1:
            if rc is not True:
                F.append(('exc', 'out_of_range for a position within the documented range'))
            for n in c.post:
                c.same('exc', c.P(n), c.S(n), f'{n} unchanged when out_of_range is thrown')
        elif st == 3:
            F.append(('exc', 'unexpected exception'))
        elif st == 0 and rc is True:
            F.append(('exc', 'a position beyond the documented range is accepted'))
        same_obj = {}
        for s in case['strs']:
            same_obj[s['name']] = s.get('of', s['name'])
        mod = {same_obj[x] for x in spec.mod} | {same_obj[x] for x in spec.moved}
        recv = next((n for n, k in spec.args if k in ('S', 'cS')), None)
        for n in c.post:
            if argd[n] == 'O' or n in spec.dead or same_obj[n] in mod or (st == 2 and same_obj[n] == same_obj.get(recv)):
                continue
            c.same('perm', c.P(n), c.S(n), f'{n} is left unchanged')
        if st == 0 and rc is not True and spec.post:
            try:
                spec.post(c)
            except RuntimeError:
                pass
        return F

    def run(self, spec, models, seed, tier):
        if getattr(spec, 'symbolic_only', False):
            return {'cases': 0, 'failures': []}
        rnd = random.Random(seed * 7919 + sum(map(ord, spec.name)))
        total = 2500 if tier == 'quick' else 20000
        cases = []
        for cfg, model in models:
            for _ in range(12):
                x = self.gen(spec, rnd, cfg, model)
                if x:
                    cases.append(x)
        tries = 0
        while len(cases) < total and tries < total * 4:
            tries += 1
            x = self.gen(spec, rnd)
            if x:
                cases.append(x)
        fails = []
        i = 0
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:max_allocation_size_mb=512', UBSAN_OPTIONS='print_stacktrace=0')
        crashes = 0
        while i < len(cases) and len(fails) < 12 and crashes < 25:
            inp = '\n'.join(self.line(j, spec, cases[j]) for j in range(i, len(cases))) + '\n'
            try:
                p = subprocess.run([self.exe], input=inp, capture_output=True, text=True, env=env, timeout=240, errors='replace')
            except subprocess.TimeoutExpired:
                break
            cur, done = None, i
            for ln in p.stdout.split('\n'):
                w = ln.split()
                if not w:
                    continue
                if w[0] == 'B':
                    cur = dict(id=int(w[1]), S=[], X=[], R=None, leak=0)
                elif w[0] == 'R':
                    cur['R'] = w[1:]
                    cur['R'] = [w[1], w[2], w[3]]
                elif w[0] in 'SIDA':
                    cur['S'].append(w)
                elif w[0] in ('W', 'V'):
                    cur[w[0]] = w[1]
                elif w[0] == 'L':
                    cur['X'].append(ln)
                elif w[0] in ('O', 'C', 'Q'):
                    cur['X'].append(w[0])
                elif w[0] == 'T':
                    cur['T'] = int(w[2])
                elif w[0] == 'E':
                    cur['leak'] = int(w[2])
                    f = self.judge(spec, cases[cur['id']], cur)
                    done = cur['id'] + 1
                    if f:
                        fails.append(self.describe(spec, cases[cur['id']], f))
                    cur = None
                elif w[0] == 'X':
                    return {'cases': 0, 'failures': [], 'error': 'entry not found'}
            if cur is not None:
                crashes += 1
                k = cur['id']
                done = k + 1
                if cur.get('T') == 2:
                    pass          # allocation failure out of a noexcept operation: the process ends, as documented
                else:
                    if 'T' in cur:
                        f = [('exc', 'the process is terminated by an exception')]
                    elif p.returncode == -14:
                        f = [('term', 'the operation does not terminate')]
                    else:
                        err = [x for x in p.stderr.split('\n') if 'ERROR' in x or 'runtime error' in x]
                        kind = 'ub' if any('runtime error' in x for x in err) else 'mem'
                        f = [(kind, (err or ['crash, status %d' % p.returncode])[0][:300])]
                        if cur.get('R') and case_view(cases[k]) and 'V' not in cur:
                            f.append(('cstr', 'view is not readable through its terminator'))
                    fails.append(self.describe(spec, cases[k], f))
            elif done <= i:
                break
            i = done if cur is not None else len(cases)
        return {'cases': len(cases), 'failures': fails}

    def describe(self, spec, case, f):
        ops = {}
        for s in case['strs']:
            ops[s['name']] = {'built_as': s['tok'], 'value': case['pre'].get(s['name'])}
        return {'operation': spec.name, 'operands': ops, 'arguments': case['args'], 'allocation_failure_at': case['fail'], 'tags': sorted({t for t, _ in f}),
                'observed': [m for _, m in f][:6]}


def case_view(c):
    return c['view']
