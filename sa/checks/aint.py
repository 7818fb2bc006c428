"""Abstract interpretation of a function over memory whose contents are opaque tokens: lengths, cases and positions are
constants of the case at hand, everything that is transported is a token.  Unknown conditions take both ways."""
from irlib import *
from sym import sizeof, layout, layout_body
from sccp import arith, compare, wrap

MAXSTEP = 60000


class Lost(Exception):
    pass


class State:
    def __init__(self):
        self.mem = {}       # (base, byte) -> (value, k, n)
        self.size = {}      # base -> size or None
        self.ev = []        # events
        self.bad = []       # (instruction, text)
        self.n = 0

    def copy(self):
        s = State()
        s.mem, s.size, s.ev, s.bad, s.n = dict(self.mem), dict(self.size), list(self.ev), list(self.bad), self.n
        return s

    def new(self, name, size=None):
        self.n += 1
        b = '%s#%d' % (name, self.n)
        self.size[b] = size
        return ('p', b, 0)

    def put(self, p, v, n):
        if n == 1 and isinstance(v, tuple) and v[0] == 'byte':
            self.mem[(p[1], p[2])] = v[1:]
            return
        for k in range(n):
            self.mem[(p[1], p[2] + k)] = (v, k, n)

    def get(self, p, n):
        c = self.mem.get((p[1], p[2]))
        if c is None:
            return None
        v, k, m = c
        if isinstance(v, int) and n < m:
            cs = [self.mem.get((p[1], p[2] + j)) for j in range(n)]
            if all(x is not None and x[0] == v and x[1] == k + j for j, x in enumerate(cs)):
                return wrap(v >> (8 * k), 'i%d' % (8 * n))
            return None
        if (k or m != n) and isinstance(v, int):
            # one constant byte everywhere (memset)
            cs = [self.mem.get((p[1], p[2] + j)) for j in range(n)]
            if all(x is not None and isinstance(x[0], int) for x in cs):
                r = 0
                for j, x in enumerate(cs):
                    r |= ((x[0] >> (8 * x[1])) & 255) << (8 * j)
                return wrap(r, 'i%d' % (8 * n))
            return None
        if all(self.mem.get((p[1], p[2] + j)) == (v, j, n) for j in range(n)):
            return v
        return ('byte', v, k, m) if n == 1 else None

    def move(self, d, s, n):
        cells = [self.mem.get((s[1], s[2] + k)) for k in range(n)]
        for k, c in enumerate(cells):
            if c is None:
                self.mem.pop((d[1], d[2] + k), None)
            else:
                self.mem[(d[1], d[2] + k)] = c

    def inside(self, ins, p, n, what):
        z = self.size.get(p[1])
        if n > 0 and z is not None and not (0 <= p[2] and p[2] + n <= z):
            self.bad.append((ins, '%s of %d bytes at %d of a block of %d bytes' % (what, n, p[2], z)))


class Interp:
    """run(fn, args, state) -> list of (return value, state)"""

    def __init__(self, m, calls=None):
        self.m = m
        self.calls = calls or {}
        self.va = ()

    def run(self, fn, args, st, varargs=()):
        self.va = varargs
        res = []
        work = [(fn.entry, None, 0, dict(zip([n for _, n in fn.params], args)), st)]
        steps = 0
        while work:
            b, prev, i, env, s = work.pop()
            while True:
                if i == 0:
                    new = {}
                    for ins in b.ins:
                        if ins.op != 'phi':
                            break
                        new[ins.res] = next((self.val(o, env) for o, x in ins.extra if x == prev), None)
                    env.update(new)
                ins = b.ins[i]
                steps += 1
                if steps > MAXSTEP:
                    raise Lost('%s: the analysis does not come to an end' % fn.name)
                op = ins.op
                if op == 'br':
                    if len(ins.extra) == 1:
                        t = ins.extra[0]
                    else:
                        c = self.val(ins.ops[0], env)
                        if not isinstance(c, int):
                            work.append((fn.bb[ins.extra[1]], b.name, 0, dict(env), s.copy()))
                            c = 1
                        t = ins.extra[0 if c else 1]
                    b, prev, i = fn.bb[t], b.name, 0
                    continue
                if op == 'switch':
                    c = self.val(ins.ops[0], env)
                    if isinstance(c, int):
                        t = dict(ins.extra[1]).get(c, ins.extra[0])
                    elif isinstance(c, tuple) and c[0] == 'num' and all(chr(y & 255) not in '-+0123456789' for y in dict(ins.extra[1])):
                        t = ins.extra[0]
                    else:
                        ts = sorted({ins.extra[0]} | {y for _, y in ins.extra[1]})
                        for x in ts[1:]:
                            work.append((fn.bb[x], b.name, 0, dict(env), s.copy()))
                        t = ts[0]
                    b, prev, i = fn.bb[t], b.name, 0
                    continue
                if op == 'ret':
                    res.append((self.val(ins.ops[0], env) if ins.ops else None, s))
                    break
                if op == 'unreachable':
                    res.append(('stop', s))
                    break
                if op != 'phi':
                    self.step(ins, env, s)
                i += 1
        return res

    def val(self, o, env):
        k = o[0]
        if k == 'int':
            return o[1]
        if k == 'null':
            return 0
        if k == 'reg':
            return env.get(o[1])
        if k == 'glob':
            return ('p', '@' + o[1], 0)
        return None

    def text(self, p, s):
        """the constant string at p"""
        if isinstance(p, tuple) and p[0] == 'p' and p[1][0] == '@':
            t = self.m.cstring(p[1][1:])
            return None if t is None else t[p[2]:]
        return None

    def chars(self, p, s):
        """the bytes of the string at p: numbers and tokens"""
        t = self.text(p, s)
        if t is not None:
            return [ord(x) for x in t]
        out = []
        if not (isinstance(p, tuple) and p[0] == 'p'):
            return None
        while len(out) < 100000:
            c = s.mem.get((p[1], p[2] + len(out)))
            if c is None:
                return None
            if c[0] is None:
                return None
            if isinstance(c[0], int) and (c[0] >> (8 * c[1])) & 255 == 0:
                return out
            out.append(c[0] >> (8 * c[1]) & 255 if isinstance(c[0], int) else c[0])
        return None

    def printed(self, fmt, rest, s):
        """what a printing function writes; a number is one opaque character"""
        t = self.text(fmt, s)
        if t is None:
            return None
        out, k = [], 0
        for part in re.split(r'(%[-+ 0-9.]*(?:l|ll|z|h)?[a-zA-Z%])', t):
            if part == '%%':
                out.append(ord('%'))
            elif part.startswith('%'):
                x = rest[k] if k < len(rest) else None
                k += 1
                w = self.chars(x, s) if part[-1] == 's' else None
                if w is not None:
                    out += w
                else:
                    out.append(('num', x))
            else:
                out += [ord(x) for x in part]
        return out

    def lay(self, ins, p, cs, s):
        s.inside(ins, p, len(cs) + 1, 'text')
        for j, x in enumerate(cs + [0]):
            s.mem[(p[1], p[2] + j)] = (x, 0, 1)

    def step(self, ins, env, s):
        op = ins.op
        v = lambda j: self.val(ins.ops[j], env)
        r = None
        if op == 'alloca':
            try:
                z = None if getattr(ins, 'tys', None) else sizeof(self.m, ins.extra)
            except Exception:
                z = None
            r = s.new('&' + ins.res, z)
        elif op == 'load':
            p = v(0)
            if isinstance(p, tuple) and p[0] == 'p':
                n = sizeof(self.m, ins.ty)
                t = self.text(p, s)
                if t is not None and n == 1:
                    r = ord(t[0]) if t else 0
                else:
                    s.inside(ins, p, n, 'read')
                    r = s.get(p, n)
        elif op == 'store':
            x, p = v(0), v(1)
            n = sizeof(self.m, ins.tys[0])
            if isinstance(p, tuple) and p[0] == 'p':
                s.inside(ins, p, n, 'write')
                if x is None:
                    for k in range(n):
                        s.mem.pop((p[1], p[2] + k), None)
                else:
                    s.put(p, x, n)
            else:
                raise Lost('%s:%s: store through an unknown pointer' % (ins.fn.name, ins.line))
        elif op == 'getelementptr':
            p = v(0)
            if isinstance(p, tuple) and p[0] == 'p':
                off, ty = p[2], ins.extra
                for j in range(1, len(ins.ops)):
                    k = v(j)
                    if j == 1:
                        z = sizeof(self.m, ty)
                        off = None if not isinstance(k, int) or off is None else off + k * z
                        continue
                    ty = ty.strip()
                    a = re.match(r'\[\s*(\d+)\s*x\s*(.*)\]$', ty)
                    if a:
                        ty = a.group(2).strip()
                        off = None if not isinstance(k, int) or off is None else off + k * sizeof(self.m, ty)
                    else:
                        lay = layout(self.m, ty) if ty.startswith('%') else layout_body(self.m, ty)
                        o, ty = lay[0][k]
                        off = None if off is None else off + o
                r = None if off is None else ('p', p[1], off)
        elif op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'icmp'):
            a, b = v(0), v(1)
            if op in ('and', 'mul') and (a == 0 or b == 0):
                r = 0
            elif op == 'or' and ins.ty == 'i1' and (a == 1 or b == 1):
                r = 1
            elif isinstance(a, int) and isinstance(b, int):
                r = int(compare(ins.extra, a, b, ins.tys[0] if ins.tys[0][0] == 'i' else 'i64')) if op == 'icmp' else arith(op, a, b, ins.ty)
                if r == 'bot':
                    r = None
            elif op == 'icmp' and ins.extra in ('eq', 'ne') and a is not None and b is not None:
                if isinstance(a, tuple) and a[0] == 'p' and b == 0 or isinstance(b, tuple) and b[0] == 'p' and a == 0:
                    r = int(ins.extra == 'ne')
                elif a == b:
                    r = int(ins.extra == 'eq')
                elif any(isinstance(x, tuple) and x[0] == 'num' and isinstance(y, int) and chr(y & 255) not in '-+0123456789' for x, y in ((a, b), (b, a))):
                    # the digits of a number are no separator
                    r = int(ins.extra == 'ne')
                elif isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == 'p' and a[1] != b[1]:
                    r = int(ins.extra == 'ne')
        elif op in ('zext', 'sext', 'trunc', 'freeze', 'bitcast', 'ptrtoint', 'inttoptr'):
            a = v(0)
            if isinstance(a, int):
                t = ins.tys[0] if ins.tys else ins.ty
                if op == 'zext' and t[0] == 'i':
                    a &= (1 << int(t[1:])) - 1
                elif op == 'trunc':
                    a = (a & 1) if ins.ty == 'i1' else wrap(a, ins.ty)
            r = a
        elif op == 'select':
            c = v(0)
            a, b = v(1), v(2)
            r = (a if c else b) if isinstance(c, int) else a if a == b else None
        elif op == 'call':
            r = self.call(ins, env, s)
        if ins.res is not None:
            env[ins.res] = r

    def call(self, ins, env, s):
        f = ins.extra if isinstance(ins.extra, str) else '?'
        a = [self.val(o, env) for o in ins.ops]
        if f in self.calls:
            return self.calls[f](self, ins, a, s)
        isp = lambda x: isinstance(x, tuple) and x[0] == 'p'
        if f in ('malloc', 'calloc'):
            n = a[0] if f == 'malloc' else a[0] * a[1] if isinstance(a[0], int) and isinstance(a[1], int) else None
            p = s.new('heap', n if isinstance(n, int) else None)
            if f == 'calloc' and isinstance(n, int) and n < 100000:
                for k in range(n):
                    s.mem[(p[1], k)] = (0, 0, 1)
            return p
        if f == 'memcpy' or f.startswith(('llvm.memcpy', 'llvm.memmove')) or f == 'memmove':
            if a[2] == 0:
                return a[0]
            if not (isp(a[0]) and isp(a[1]) and isinstance(a[2], int)):
                raise Lost('%s:%s: copy of unknown extent' % (ins.fn.name, ins.line))
            s.inside(ins, a[0], a[2], 'copy to')
            s.inside(ins, a[1], a[2], 'copy from')
            s.move(a[0], a[1], a[2])
            return a[0]
        if f == 'memset' or f.startswith('llvm.memset'):
            if not (isp(a[0]) and isinstance(a[2], int) and a[2] < 1000000):
                raise Lost('%s:%s: fill of unknown extent' % (ins.fn.name, ins.line))
            s.inside(ins, a[0], a[2], 'fill')
            for k in range(a[2]):
                if isinstance(a[1], int):
                    s.mem[(a[0][1], a[0][2] + k)] = (a[1] & 255, 0, 1)
                else:
                    s.mem.pop((a[0][1], a[0][2] + k), None)
            return a[0]
        if f in ('sprintf', 'snprintf', '__sprintf_chk', '__snprintf_chk') and isp(a[0]):
            j = {'sprintf': 1, 'snprintf': 2, '__sprintf_chk': 3, '__snprintf_chk': 4}[f]
            cs = self.printed(a[j], a[j + 1:], s)
            if cs is not None:
                self.lay(ins, a[0], cs, s)
                return len(cs)
        if f in ('strcpy', 'strcat', 'stpcpy') and isp(a[0]):
            cs = self.chars(a[1], s)
            d = a[0]
            if f == 'strcat':
                h = self.chars(d, s)
                d = None if h is None else ('p', d[1], d[2] + len(h))
            if cs is not None and d is not None:
                self.lay(ins, d, cs, s)
                return ('p', d[1], d[2] + len(cs)) if f == 'stpcpy' else a[0]
        if f in ('strdup', '__strdup'):
            cs = self.chars(a[0], s)
            if cs is not None:
                d = s.new('heap', len(cs) + 1)
                self.lay(ins, d, cs, s)
                return d
        if f == 'abs' and isinstance(a[0], int):
            return abs(a[0])
        if f == 'strlen':
            cs = self.chars(a[0], s)
            return None if cs is None else len(cs)
        if f in ('strcmp', 'strncmp'):
            x, y = self.chars(a[0], s), self.chars(a[1], s)
            if x is not None and y is not None and all(isinstance(z, int) for z in x + y):
                if f == 'strncmp':
                    if not isinstance(a[2], int):
                        return None
                    x, y = x[:a[2]], y[:a[2]]
                return (x > y) - (x < y)
            return None
        if f.startswith('llvm.va_start'):
            # all arguments in the memory area of the call
            area = s.new('args', 8 * len(self.va))
            for j, x in enumerate(self.va):
                n = 8 if isp(x) else 4
                s.put(('p', area[1], 8 * j), x, n)
            p = a[0]
            s.put(p, 48, 4)
            s.put(('p', p[1], p[2] + 4), 304, 4)
            s.put(('p', p[1], p[2] + 8), area, 8)
            return None
        if f.startswith('llvm.'):
            if f.startswith('llvm.abs') and isinstance(a[0], int):
                return abs(a[0])
            if re.match(r'llvm\.s(max|min)\.', f) and isinstance(a[0], int) and isinstance(a[1], int):
                return (max if 'max' in f else min)(a[0], a[1])
            return None
        s.ev.append((f, a, ins))
        return None
