"""Value numbering on SSA: canonical expressions, and a path walker that
propagates them along control-flow paths (finite abstract domain: linear forms
over opaque atoms; no solver, no execution)."""
import re

I32 = 1 << 32


def C(n):
    return ('lin', n, ())


def atom(a):
    return ('lin', 0, ((a, 1),))


def is_c(e):
    return e[0] == 'lin' and not e[2]


def cval(e):
    return e[1] if is_c(e) else None


def aslin(e):
    return e if e[0] == 'lin' else atom(e)


def norm(e):
    """lin with single unit atom and no constant -> the atom"""
    return e


def add(a, b, kb=1):
    a = aslin(a)
    b = aslin(b)
    d = dict(a[2])
    for t, k in b[2]:
        d[t] = d.get(t, 0) + k * kb
        if d[t] == 0:
            del d[t]
    return ('lin', a[1] + kb * b[1], tuple(sorted(d.items(), key=repr)))


def scale(a, k):
    a = aslin(a)
    if k == 0:
        return C(0)
    return ('lin', a[1] * k, tuple((t, c * k) for t, c in a[2]))


def single(e):
    """the atom if e is exactly one atom with coefficient 1, else None"""
    if e[0] != 'lin':
        return e
    if e[1] == 0 and len(e[2]) == 1 and e[2][0][1] == 1:
        return e[2][0][0]
    return None


def base_off(e):
    """(atom, const) when e = atom + const"""
    e = aslin(e)
    if len(e[2]) == 1 and e[2][0][1] == 1:
        return e[2][0][0], e[1]
    return None


SIZES = {'i1': 1, 'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8, 'ptr': 8, 'float': 4, 'double': 8, 'i128': 16}


def sizeof(mod, ty):
    ty = ty.strip()
    if ty in SIZES:
        return SIZES[ty]
    m = re.match(r'\[\s*(\d+)\s*x\s*(.*)\]$', ty)
    if m:
        return int(m.group(1)) * sizeof(mod, m.group(2))
    if ty.startswith('%'):
        return layout(mod, ty)[1]
    if ty.startswith('{'):
        return layout_body(mod, ty)[1]
    raise ValueError('sizeof ' + ty)


def alignof(mod, ty):
    ty = ty.strip()
    if ty in SIZES:
        return SIZES[ty]
    m = re.match(r'\[\s*(\d+)\s*x\s*(.*)\]$', ty)
    if m:
        return alignof(mod, m.group(2))
    if ty.startswith('%'):
        return layout(mod, ty)[2]
    return 8


def split_types(s):
    out, d, cur = [], 0, ''
    for ch in s:
        if ch in '[{<(':
            d += 1
        if ch in ']}>)':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def layout_body(mod, body):
    body = body.strip()
    if body.startswith('{'):
        body = body[1:-1]
    offs, off, al = [], 0, 1
    for t in split_types(body):
        a = alignof(mod, t)
        al = max(al, a)
        off = (off + a - 1) // a * a
        offs.append((off, t))
        off += sizeof(mod, t)
    off = (off + al - 1) // al * al
    return offs, off, al


def layout(mod, ty):
    k = ty[1:].strip('"')
    c = mod.__dict__.setdefault('_lay', {})
    if k not in c:
        c[k] = layout_body(mod, mod.structs.get(k, '{}'))
    return c[k]


def struct_name(ty):
    n = ty[1:].strip('"')
    n = re.sub(r'\.\d+$', '', n)
    return n[7:] if n.startswith('struct.') else n


def gep(mod, ins_extra, idx, base, tys=None):
    """address expression of a getelementptr"""
    e = aslin(base)
    ty = ins_extra
    first = True
    for k in idx:
        if first:
            e = add(e, scale(k, sizeof(mod, ty)))
            first = False
            continue
        ty = ty.strip()
        m = re.match(r'\[\s*(\d+)\s*x\s*(.*)\]$', ty)
        if m:
            ty = m.group(2).strip()
            e = add(e, scale(k, sizeof(mod, ty)))
        else:
            lay = layout(mod, ty) if ty.startswith('%') else layout_body(mod, ty)
            o, ty = lay[0][cval(k)]
            e = add(e, C(o))
    return e


NEG = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt',
       'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt'}
SWAP = {'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle', 'ult': 'ugt', 'ugt': 'ult',
        'ule': 'uge', 'uge': 'ule', 'eq': 'eq', 'ne': 'ne'}


def cmp_const(pred, a, b, bits=64):
    m = (1 << bits) - 1
    if pred[0] == 'u':
        a &= m
        b &= m
    return {'eq': a == b, 'ne': a != b, 'slt': a < b, 'sle': a <= b, 'sgt': a > b, 'sge': a >= b,
            'ult': a < b, 'ule': a <= b, 'ugt': a > b, 'uge': a >= b}[pred]


def mkcmp(pred, a, b, bits=64):
    a = aslin(a)
    b = aslin(b)
    if is_c(a) and is_c(b):
        return C(int(cmp_const(pred, a[1], b[1], bits)))
    if is_c(a) and not is_c(b):
        a, b, pred = b, a, SWAP[pred]
    # x == 0 where x itself is a boolean comparison
    sa = single(a)
    if sa is not None and sa[0] == 'cmp' and is_c(b) and pred in ('eq', 'ne') and b[1] in (0, 1):
        if (pred == 'eq') == (b[1] == 0):
            return ('cmp', NEG[sa[1]], sa[2], sa[3]) if sa[1] in NEG else ('not', sa)
        return sa
    if bits == 32 and is_c(b) and b[1] & 0xffffffff in (0x7fffffff, 0x80000000):
        # sign tests written as unsigned comparisons
        k = b[1] & 0xffffffff
        if (pred, k) in (('ugt', 0x7fffffff), ('uge', 0x80000000)):
            return ('cmp', 'slt', a, C(0))
        if (pred, k) in (('ule', 0x7fffffff), ('ult', 0x80000000)):
            return ('cmp', 'sgt', a, C(-1))
    if is_c(b):
        # canonical forms of integer comparisons against constants
        if pred == 'sge':
            pred, b = 'sgt', C(b[1] - 1)
        elif pred == 'sle':
            pred, b = 'slt', C(b[1] + 1)
    elif pred in ('sge', 'uge', 'sgt', 'ugt'):
        a, b, pred = b, a, SWAP[pred]
    elif pred in ('eq', 'ne') and repr(b) < repr(a):
        a, b = b, a
    return ('cmp', pred, a, b)


def neg(c):
    if is_c(c):
        return C(1 - c[1])
    if c[0] == 'cmp':
        return mkcmp(NEG[c[1]], c[2], c[3]) if c[1] in NEG else ('not', c)
    if c[0] == 'not':
        return c[1]
    return ('not', c)


class Sem:
    """evaluates single instructions to canonical expressions"""

    def __init__(self, fn, widen=True):
        self.fn = fn
        self.mod = fn.mod
        self.pidx = {n: i for i, (t, n) in enumerate(fn.params)}
        self.memo = {}

    def const(self, o):
        k = o[0]
        if k == 'int':
            return C(o[1])
        if k == 'null' or k == 'zero':
            return C(0)
        if k == 'glob':
            return atom(('glob', o[1]))
        if k == 'undef':
            return ('undef',)
        if k == 'fp':
            return ('fp', o[1])
        if k == 'cexpr':
            op, tys, ops = o[1], o[2], o[3]
            if op == 'getelementptr':
                es = [self.const(x) for x in ops]
                return gep(self.mod, tys[0], es[1:], es[0])
            if op in ('inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'zext', 'sext'):
                return self.const(ops[0])
            return ('cexpr', op) + tuple(self.const(x) for x in ops)
        return ('k',) + tuple(o)

    def ev(self, ins, val):
        """val: operand -> expr"""
        op = ins.op
        if op in ('add', 'sub'):
            return add(val(ins.ops[0]), val(ins.ops[1]), 1 if op == 'add' else -1)
        if op == 'mul':
            a, b = val(ins.ops[0]), val(ins.ops[1])
            if is_c(a):
                return scale(b, a[1])
            if is_c(b):
                return scale(a, b[1])
            x = sorted((a, b), key=repr)
            return atom(('mul', x[0], x[1]))
        if op == 'shl':
            b = val(ins.ops[1])
            if is_c(b):
                return scale(val(ins.ops[0]), 1 << b[1])
            return atom(('shl', val(ins.ops[0]), b))
        if op in ('sext', 'zext', 'bitcast', 'inttoptr', 'ptrtoint', 'freeze', 'addrspacecast'):
            return val(ins.ops[0])
        if op == 'trunc':
            return val(ins.ops[0])
        if op in ('sdiv', 'udiv', 'srem', 'urem', 'ashr', 'lshr', 'and', 'or', 'xor'):
            a, b = val(ins.ops[0]), val(ins.ops[1])
            if op == 'xor' and ins.ty == 'i1' and is_c(b):
                return neg(a) if b[1] & 1 else a
            if is_c(a) and is_c(b):
                x, y = a[1], b[1]
                try:
                    r = {'sdiv': lambda: int(x / y), 'udiv': lambda: x // y, 'srem': lambda: x - y * int(x / y),
                         'urem': lambda: x % y, 'ashr': lambda: x >> y, 'lshr': lambda: x >> y,
                         'and': lambda: x & y, 'or': lambda: x | y, 'xor': lambda: x ^ y}[op]()
                    return C(r)
                except ZeroDivisionError:
                    pass
            if op == 'udiv':
                op = 'sdiv'
            if op in ('and', 'or', 'xor') and repr(b) < repr(a) and not is_c(b):
                a, b = b, a
            return atom((op, a, b))
        if op in ('fadd', 'fmul'):
            a, b = val(ins.ops[0]), val(ins.ops[1])
            x = sorted((a, b), key=repr)
            return atom((op, ins.ty, x[0], x[1]))
        if op in ('fsub', 'fdiv', 'frem'):
            return atom((op, ins.ty, val(ins.ops[0]), val(ins.ops[1])))
        if op in ('sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc', 'fneg'):
            return atom((op, val(ins.ops[0])))
        if op == 'icmp':
            t = ins.tys[0]
            bits = int(t[1:]) if t[0] == 'i' and t[1:].isdigit() else 64
            return mkcmp(ins.extra, val(ins.ops[0]), val(ins.ops[1]), bits)
        if op == 'fcmp':
            return ('cmp', 'f' + ins.extra, val(ins.ops[0]), val(ins.ops[1]))
        if op == 'select':
            c = val(ins.ops[0])
            if is_c(c):
                return val(ins.ops[1]) if c[1] else val(ins.ops[2])
            a, b = val(ins.ops[1]), val(ins.ops[2])
            if a == b:
                return a
            return atom(('select', c, a, b))
        if op == 'getelementptr':
            es = [val(x) for x in ins.ops]
            try:
                return gep(self.mod, ins.extra, es[1:], es[0])
            except Exception:
                return atom(('gep',) + tuple(es))
        if op == 'alloca':
            return atom(('alloca', ins.res))
        if op == 'load':
            f = self.mod.tbaa_field(ins)
            return atom(('ld', f, val(ins.ops[0]), ins.ty))
        if op == 'call':
            return atom(('call', ins.extra if isinstance(ins.extra, str) else 'indirect', ins.res))
        if op == 'va_arg':
            return atom(('va_arg', ins.res))
        return atom((op, ins.res))

    # flow-insensitive: phis stay symbolic
    def val(self, o):
        if o[0] != 'reg':
            return self.const(o)
        n = o[1]
        if n in self.memo:
            return self.memo[n]
        if n in self.pidx:
            r = atom(('param', self.pidx[n], n))
        else:
            d = self.fn.defs.get(n)
            if d is None:
                r = ('undef',)
            elif d.op == 'phi':
                vs = {repr(v) for v, _ in d.extra}
                r = atom(('phi', n))
                if len(vs) == 1 and d.extra[0][0] != ('reg', n):
                    r = self.val(d.extra[0][0])
            else:
                self.memo[n] = atom(('rec', n))
                r = self.ev(d, self.val)
        self.memo[n] = r
        return r

    def options(self, o, seen=None):
        """set of expressions an operand may hold, looking through phi/select"""
        seen = seen or set()
        e = self.val(o)
        s = single(e)
        if s and s[0] == 'phi':
            if s[1] in seen:
                return set()
            seen = seen | {s[1]}
            out = set()
            for v, _ in self.fn.defs[s[1]].extra:
                out |= self.options(v, seen)
            return out
        if s and s[0] == 'select' and o[0] == 'reg':
            d = self.fn.defs[o[1]]
            while d.op in ('sext', 'zext', 'trunc', 'freeze', 'bitcast'):
                d = self.fn.defs[d.ops[0][1]]
            if d.op == 'select':
                return self.options(d.ops[1], seen) | self.options(d.ops[2], seen)
        return {e}


def subterms(e):
    st = [e]
    while st:
        x = st.pop()
        if isinstance(x, tuple) and x:
            yield x
            st.extend(y for y in x if isinstance(y, tuple))


def show(e, d=0):
    if not isinstance(e, tuple):
        return str(e)
    if d > 6:
        return '..'
    k = e[0]
    if k == 'lin':
        s = []
        for t, c in e[2]:
            x = show(t, d + 1)
            s.append(x if c == 1 else '%d*%s' % (c, x))
        if e[1] or not s:
            s.append(str(e[1]))
        return '+'.join(s)
    if k == 'param':
        return e[2]
    if k == 'glob':
        return '@' + e[1]
    if k == 'alloca':
        return '&' + e[1]
    if k == 'ld':
        if e[1]:
            return '%s->%s' % (show(base_of(e[2]), d + 1), e[1][1])
        return '*(%s)' % show(e[2], d + 1)
    if k == 'cmp':
        return '(%s %s %s)' % (show(e[2], d + 1), e[1], show(e[3], d + 1))
    if k == 'call':
        return '%s()' % e[1]
    if k in ('phi', 'rec'):
        return 'phi:' + str(e[1])
    return '%s(%s)' % (k, ','.join(show(x, d + 1) for x in e[1:]))


def base_of(a):
    a = aslin(a)
    return ('lin', 0, a[2])


# ---------------------------------------------------------------- path walker

class Path:
    __slots__ = ('env', 'facts', 'trace', 'visits', 'decisions', 'mem', 'user', 'lv', 'user2')

    def __init__(self):
        self.env = {}
        self.facts = {}
        self.trace = []
        self.visits = {}
        self.decisions = []
        self.mem = {}
        self.lv = {}
        self.user = None
        self.user2 = False

    def copy(self):
        p = Path()
        p.env = dict(self.env)
        p.facts = dict(self.facts)
        p.trace = list(self.trace)
        p.visits = dict(self.visits)
        p.decisions = list(self.decisions)
        p.mem = dict(self.mem)
        p.lv = dict(self.lv)
        p.user = self.user
        return p


class TooMany(Exception):
    pass


class Walker:
    """Enumerates acyclic paths (each block at most `maxvisit` times).

    visit(ins, path, W) -> None | 'stop' | ('val', expr): called for every instruction in order.
    assume(cond_expr) -> True/False/None: fixed knowledge about branch conditions.
    """

    def __init__(self, fn, visit=None, assume=None, maxvisit=1, limit=20000, track_alloca=True,
                 stop_block=None):
        self.fn = fn
        self.sem = Sem(fn)
        self.visit = visit
        self.assume = assume
        self.simp = getattr(assume, 'simp', None)   # partial evaluation of conditions
        self.maxvisit = maxvisit
        self.limit = limit
        self.done = []          # (reason, path, last instr)
        self.steps = 0
        self.track_alloca = track_alloca
        self.stop_block = stop_block
        self.npaths = 0
        self.tracked = set()    # parameters whose pointees are followed like locals

    def local(self, bo):
        return bool(bo) and (bo[0][0] == 'alloca' or bo[0] in self.tracked)

    def val(self, o, path):
        if o[0] != 'reg':
            return self.sem.const(o)
        n = o[1]
        if n in path.env:
            return path.env[n]
        if n in self.sem.pidx:
            return atom(('param', self.sem.pidx[n], n))
        return self.sem.val(o)

    def decide(self, cond, path):
        if self.simp:
            cond = self.simp(cond)
        if is_c(cond):
            return bool(cond[1])
        s = single(cond)
        if s and s[0] in ('select', 'and', 'or') and len(s) >= 3:
            if s[0] == 'select':
                k = self.decide(s[1], path)
                if k is not None:
                    return self.decide(s[2] if k else s[3], path)
                a, b = self.decide(s[2], path), self.decide(s[3], path)
                if a is not None and a == b:
                    return a
            elif self._bool(s[1]) and self._bool(s[2]):
                a, b = self.decide(s[1], path), self.decide(s[2], path)
                if s[0] == 'and':
                    if a is False or b is False:
                        return False
                    if a and b:
                        return True
                else:
                    if a or b:
                        return True
                    if a is False and b is False:
                        return False
        if s and s[0] == 'not':
            k = self.decide(s[1], path)
            return None if k is None else not k
        if self.assume:
            r = self.assume(cond)
            if r is None:
                r2 = self.assume(neg(cond))
                r = None if r2 is None else (not r2)
            if r is not None:
                return r
        if cond[0] == 'lin' and single(cond) and single(cond)[0] in ('cmp', 'not'):
            cond = single(cond)
        if cond in path.facts:
            v = path.facts[cond]
            if isinstance(v, bool):
                return v
        n = neg(cond)
        if n in path.facts and isinstance(path.facts[n], bool):
            return not path.facts[n]
        if cond[0] == 'cmp' and is_c(cond[3]):
            f = path.facts.get(('val', cond[2]))
            if f:
                if f[0] == 'eq':
                    return bool(cmp_const(cond[1], f[1], cond[3][1], 32))
                if f[0] == 'ne' and cond[3][1] in f[1]:
                    if cond[1] == 'eq':
                        return False
                    if cond[1] == 'ne':
                        return True
        return None

    @staticmethod
    def _bool(e):
        s = single(e)
        return (s is not None and s[0] in ('cmp', 'not', 'and', 'or', 'select')) or e in (C(0), C(1))

    def learn(self, cond, truth, path):
        if self.simp:
            cond = self.simp(cond)
        if cond[0] == 'lin' and single(cond) and single(cond)[0] in ('cmp', 'not'):
            cond = single(cond)
        path.facts[cond] = truth
        if cond[0] == 'not':
            path.facts[cond[1]] = not truth
        if cond[0] == 'cmp' and is_c(cond[3]) and cond[1] in ('eq', 'ne'):
            eq = (cond[1] == 'eq') == truth
            k = ('val', cond[2])
            if eq:
                path.facts[k] = ('eq', cond[3][1])
            else:
                o = path.facts.get(k)
                s = o[1] if o and o[0] == 'ne' else frozenset()
                if not (o and o[0] == 'eq'):
                    path.facts[k] = ('ne', s | {cond[3][1]})
        # conjunctions / disjunctions of i1
        if cond[0] == 'lin':
            s = single(cond)
            if s and s[0] == 'and' and truth:
                self.learn(s[1], True, path)
                self.learn(s[2], True, path)
            if s and s[0] == 'or' and not truth:
                self.learn(s[1], False, path)
                self.learn(s[2], False, path)
            if s and s[0] == 'select':
                if truth and s[3] == C(0):
                    self.learn(s[1], True, path)
                    self.learn(s[2], True, path)
                if not truth and s[2] == C(1):
                    self.learn(s[1], False, path)
                    self.learn(s[3], False, path)

    def run(self, block=None, idx=0, path=None):
        st = [(block or self.fn.entry, idx, path or Path(), None)]
        while st:
            b, i, p, frm = st.pop()
            if self.stop_block and frm is not None and self.stop_block(b, p):
                # resolve phis so that the caller can look at the values arriving at b
                self._phis(b, frm, p)
                self.done.append(('stop_block', p, b))
                continue
            c = p.visits.get(b, 0)
            if frm is not None or i == 0:
                if c >= self.maxvisit:
                    self.done.append(('loop', p, b.ins[0]))
                    continue
                p.visits[b] = c + 1
            if frm is not None:
                self._phis(b, frm, p)
            stopped = False
            n = len(b.ins)
            while i < n:
                ins = b.ins[i]
                i += 1
                if ins.op == 'phi':
                    continue
                if ins.op in ('br', 'switch', 'ret', 'unreachable'):
                    break
                self.steps += 1
                if ins.res is not None:
                    if ins.op == 'load' and self.track_alloca:
                        a = self.val(ins.ops[0], p)
                        if a in p.mem:
                            p.env[ins.res] = p.mem[a]
                        else:
                            p.env[ins.res] = self._load(ins, p)
                    else:
                        p.env[ins.res] = self.sem.ev(ins, lambda o: self.val(o, p))
                if ins.op == 'store' or (ins.op == 'call' and not (
                        isinstance(ins.extra, str) and ins.extra.startswith('llvm.') and 'mem' not in ins.extra)):
                    self._clobber(ins, p)
                if ins.op == 'store' and self.track_alloca:
                    a = self.val(ins.ops[1], p)
                    bo = base_off(a)
                    if self.local(bo):
                        p.mem[a] = self.val(ins.ops[0], p)
                elif ins.op == 'call' and self.track_alloca and p.mem:
                    # a call may change any local whose address escapes into it
                    cal = ins.extra if isinstance(ins.extra, str) else ''
                    if not cal.startswith('llvm.') or 'mem' in cal:
                        for o in ins.ops:
                            bo = base_off(self.val(o, p)) if o[0] == 'reg' else None
                            if self.local(bo):
                                for k in [k for k in p.mem if base_off(k) and base_off(k)[0] == bo[0]]:
                                    del p.mem[k]
                if self.visit:
                    r = self.visit(ins, p, self)
                    if r == 'stop':
                        self.done.append(('stop', p, ins))
                        stopped = True
                        break
                    if isinstance(r, tuple) and r[0] == 'val':
                        p.env[ins.res] = r[1]
            if stopped:
                continue
            t = b.ins[-1]
            if self.visit:
                r = self.visit(t, p, self)
                if r == 'stop':
                    self.done.append(('stop', p, t))
                    continue
            if t.op == 'ret':
                self.done.append(('ret', p, t))
            elif t.op == 'unreachable':
                self.done.append(('unreachable', p, t))
            elif t.op == 'br':
                if len(t.extra) == 1:
                    st.append((self.fn.bb[t.extra[0]], 0, p, b))
                else:
                    c = self.val(t.ops[0], p)
                    d = self.decide(c, p)
                    if d is not None:
                        st.append((self.fn.bb[t.extra[0 if d else 1]], 0, p, b))
                    else:
                        for truth in (False, True):
                            q = p.copy() if not truth else p
                            self.learn(c, truth, q)
                            q.decisions.append((t, c, truth))
                            st.append((self.fn.bb[t.extra[0 if truth else 1]], 0, q, b))
                        # order: explore true first
            elif t.op == 'switch':
                v = aslin(self.val(t.ops[0], p))
                f = p.facts.get(('val', v))
                cs = t.extra[1]
                if is_c(v) or (f and f[0] == 'eq'):
                    k = v[1] if is_c(v) else f[1]
                    tgt = dict(cs).get(k, t.extra[0])
                    st.append((self.fn.bb[tgt], 0, p, b))
                else:
                    excl = f[1] if f and f[0] == 'ne' else frozenset()
                    for k, lab in cs:
                        if k in excl:
                            continue
                        q = p.copy()
                        q.facts[('val', v)] = ('eq', k)
                        q.decisions.append((t, v, k))
                        st.append((self.fn.bb[lab], 0, q, b))
                    q = p.copy()
                    q.facts[('val', v)] = ('ne', excl | frozenset(k for k, _ in cs))
                    q.decisions.append((t, v, 'default'))
                    st.append((self.fn.bb[t.extra[0]], 0, q, b))
            if len(self.done) > self.limit or self.steps > 4000000:
                raise TooMany('%s: too many paths' % self.fn.name)
        return self.done

    def _clobber(self, ins, p):
        """memory contents read before a write that may change them are re-read as new values"""
        if not p.lv:
            return
        if ins.op == 'store':
            a = self.val(ins.ops[1], p)
            bo = base_off(a)
            loc = bo[0] if bo and bo[0][0] in ('alloca', 'glob') else None
            sty = ins.tys[0]

            def hit(k):
                # k = (type, address): may the store change it?  Named objects (locals, globals) are
                # distinct from each other and from anything reached through a loaded pointer; values
                # of different scalar types do not alias (C effective types; char aliases all)
                if k[1] == a:
                    return True
                b2 = base_off(k[1])
                l2 = b2[0] if b2 and b2[0][0] in ('alloca', 'glob') else None
                if loc or l2:
                    return False
                return k[0] == sty or 'i8' in (k[0], sty)
        else:
            hit = lambda k: True
        for k, (e, ok, n) in list(p.lv.items()):
            if ok and hit(k):
                p.lv[k] = (e, False, n)

    def _load(self, ins, p):
        e = self.sem.ev(ins, lambda o: self.val(o, p))
        t = single(e)
        k = (t[3], t[2])
        if k in p.lv:
            o, ok, n = p.lv[k]
            if ok:
                return o
            e = atom(t[:4] + (n + 1,))
            p.lv[k] = (e, True, n + 1)
            return e
        p.lv[k] = (e, True, 0)
        return e

    def _phis(self, b, frm, p):
        new = {}
        for ins in b.ins:
            if ins.op != 'phi':
                break
            for v, l in ins.extra:
                if l == frm.name:
                    new[ins.res] = self.val(v, p)
                    break
        p.env.update(new)
