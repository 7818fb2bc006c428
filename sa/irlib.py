"""LLVM IR (text, LLVM 18, opaque pointers) reader used by every check.

The deciding steps of the checks work on the SSA form of /repo's *current*
sources: compiled by clang with the build's defines, helpers inlined, and then
parsed here into modules / functions / blocks / instructions with resolved
operands, source positions, debug-info field names and TBAA access tags.
"""
import re

# ---------------------------------------------------------------- values


class V(tuple):
    """Operand: ('reg',name) ('int',n) ('null',) ('glob',name) ('undef',)
    ('fp',text) ('cexpr',op,ops) ('meta',text) ('agg',text) ('bool' folded to int)"""
    __slots__ = ()


def reg(n):
    return V(('reg', n))


NULL = V(('null',))


class Instr:
    __slots__ = ('op', 'res', 'ty', 'ops', 'blk', 'idx', 'line', 'dbg', 'tbaa',
                 'extra', 'fn', 'text', 'tys', 'uid')

    def __init__(self):
        self.ops = []
        self.tys = []
        self.res = None
        self.ty = None
        self.line = 0
        self.dbg = None
        self.tbaa = None
        self.extra = None

    def __repr__(self):
        return '<%s %s @%s:%d>' % (self.op, self.res, self.fn.name, self.line)


class Block:
    __slots__ = ('name', 'ins', 'succ', 'pred', 'fn', 'i')

    def __init__(self, name):
        self.name = name
        self.ins = []
        self.succ = []
        self.pred = []

    @property
    def term(self):
        return self.ins[-1]

    def __repr__(self):
        return '<bb %s>' % self.name


_tok = re.compile(r'''
   \s*(?:
   (?P<str>c?"(?:[^"\\]|\\.)*")
  |(?P<reg>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))
  |(?P<glob>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))
  |(?P<meta>!(?:"[^"]*"|[-a-zA-Z$._0-9]+)?)
  |(?P<attr>\#\d+)
  |(?P<num>-?\d+\.\d+(?:e[+-]?\d+)?|0x[0-9A-Fa-fKLMHR]+|-?\d+)
  |(?P<word>[a-zA-Z_$.][-a-zA-Z$._0-9]*:?)
  |(?P<p>\.\.\.|[()\[\]{}<>,=*|])
   )''', re.X)


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = _tok.match(s, i)
        if not m:
            if s[i:].strip() == '' or s[i:].lstrip().startswith(';'):
                break
            raise ValueError('tokenize: %r' % s[i:i + 60])
        k = m.lastgroup
        out.append((k, m.group(k)))
        i = m.end()
    return out


_PARAM_ATTRS = {'noundef', 'nonnull', 'signext', 'zeroext', 'nocapture', 'readonly',
                'writeonly', 'immarg', 'noalias', 'returned', 'inreg', 'sret', 'byval',
                'align', 'dereferenceable', 'dereferenceable_or_null', 'nofree',
                'allocptr', 'allocalign', 'readnone', 'nest', 'range'}
_CC = {'fastcc', 'ccc', 'coldcc', 'tailcc'}
_FLAGS = {'nsw', 'nuw', 'exact', 'inbounds', 'volatile', 'tail', 'musttail', 'notail',
          'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'disjoint',
          'nneg', 'atomic', 'weak', 'syncscope'}


class P:
    """token cursor"""

    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self, k=0):
        j = self.i + k
        return self.t[j][1] if j < len(self.t) else None

    def kind(self):
        return self.t[self.i][0] if self.i < len(self.t) else None

    def next(self):
        v = self.t[self.i][1]
        self.i += 1
        return v

    def accept(self, s):
        if self.peek() == s:
            self.i += 1
            return True
        return False

    def expect(self, s):
        v = self.next()
        if v != s:
            raise ValueError('expected %s got %s near %r' % (
                s, v, ' '.join(x[1] for x in self.t[max(0, self.i - 8):self.i + 8])))

    def skip_balanced(self):
        op = self.next()
        cl = {'(': ')', '[': ']', '{': '}', '<': '>'}[op]
        txt = [op]
        while True:
            p = self.peek()
            if p in ('(', '[', '{', '<'):
                txt.append(self.skip_balanced())
                continue
            self.next()
            txt.append(p)
            if p == cl:
                return ' '.join(txt)

    def type(self):
        k, v = self.t[self.i]
        if v in ('[', '{', '<'):
            ty = self.skip_balanced()
        elif k == 'reg':
            ty = self.next()
        else:
            ty = self.next()
        while True:
            p = self.peek()
            if p == '*':
                self.next()
                ty += '*'
            elif p == '(' and ty not in ('ptr',) or (p == '(' and ty == 'ptr' and self._isfnty()):
                # function type
                ty += self.skip_balanced()
            else:
                return ty

    def _isfnty(self):
        # "ptr (ptr, i32)" function type returning ptr: distinguish from operand
        j = self.i + 1
        return j < len(self.t) and (self.t[j][1] in ('ptr', 'i32', 'i64', 'i8', '...', ')', 'i1', 'double', 'float', 'i16') )

    def value(self, ty):
        k, v = self.t[self.i]
        if k == 'reg':
            self.next()
            return V(('reg', v[1:].strip('"')))
        if k == 'glob':
            self.next()
            return V(('glob', v[1:].strip('"')))
        if k == 'num':
            self.next()
            if ty in ('double', 'float', 'x86_fp80', 'half') or '.' in v or v.startswith('0x'):
                return V(('fp', v))
            return V(('int', int(v)))
        if v in ('null', 'zeroinitializer', 'none'):
            self.next()
            return NULL if v == 'null' else V(('zero',))
        if v in ('undef', 'poison'):
            self.next()
            return V(('undef',))
        if v == 'true':
            self.next()
            return V(('int', 1))
        if v == 'false':
            self.next()
            return V(('int', 0))
        if k == 'meta':
            self.next()
            if self.peek() == '(':
                self.skip_balanced()
            elif v == '!' and self.peek() == '{':
                self.skip_balanced()
            return V(('meta', v))
        if k == 'str' or v in ('[', '{', '<'):
            if k == 'str':
                return V(('agg', self.next()))
            return V(('agg', self.skip_balanced()))
        # constant expression
        op = self.next()
        while self.peek() in _FLAGS:
            self.next()
        if self.peek() == '(':
            self.next()
            ops = []
            tys = []
            if op == 'getelementptr':
                tys.append(self.type())
                self.accept(',')
            while not self.accept(')'):
                t = self.type()
                tys.append(t)
                ops.append(self.value(t))
                if self.accept('to'):
                    tys.append(self.type())
                self.accept(',')
            return V(('cexpr', op, tuple(tys), tuple(ops)))
        raise ValueError('value? %s %s' % (op, self.t[self.i:self.i + 5]))


class Fn:
    def __init__(self, name, mod):
        self.name = name
        self.mod = mod
        self.params = []      # (type, name)
        self.blocks = []
        self.bb = {}
        self.defs = {}
        self.uses = {}
        self.ret = None
        self.dbg = None
        self.vararg = False

    def finish(self):
        for b in self.blocks:
            t = b.ins[-1]
            b.succ = []
            if t.op == 'br':
                for x in t.extra:
                    if x not in b.succ:
                        b.succ.append(x)
            elif t.op == 'switch':
                for x in [t.extra[0]] + [y for _, y in t.extra[1]]:
                    if x not in b.succ:
                        b.succ.append(x)
        for b in self.blocks:
            b.pred = []
        for b in self.blocks:
            b.succ = [self.bb[x] for x in b.succ]
            for s in b.succ:
                s.pred.append(b)
        k = 0
        for bi, b in enumerate(self.blocks):
            b.i = bi
            for i, ins in enumerate(b.ins):
                ins.blk = b
                ins.idx = i
                ins.fn = self
                ins.uid = k
                k += 1
                if ins.res is not None:
                    self.defs[ins.res] = ins
                for o in ins.ops:
                    self._use(o, ins)

    def _use(self, o, ins):
        if o[0] == 'reg':
            self.uses.setdefault(o[1], []).append(ins)
        elif o[0] == 'glob':
            self.uses.setdefault('@' + o[1], []).append(ins)
        elif o[0] == 'cexpr':
            for x in o[3]:
                self._use(x, ins)

    @property
    def entry(self):
        return self.blocks[0]

    def instrs(self):
        for b in self.blocks:
            for i in b.ins:
                yield i

    def calls(self, name=None):
        for i in self.instrs():
            if i.op == 'call':
                c = i.extra
                if name is None or c == name or (isinstance(name, (set, list, tuple, frozenset)) and c in name):
                    yield i

    def where(self, ins):
        return self.mod.where(self, ins)

    # dominators (iterative)
    def doms(self):
        if hasattr(self, '_dom'):
            return self._dom
        self._dom = _dominators(self.blocks, self.entry, lambda b: b.pred)
        return self._dom

    def dominates(self, a, b):
        return a in self.doms().get(b, ())

    def ins_dominates(self, a, b):
        if a.blk is b.blk:
            return a.idx < b.idx
        return self.dominates(a.blk, b.blk)

    def reach(self, start, avoid=()):
        avoid = set(avoid)
        seen = set()
        st = [start]
        while st:
            b = st.pop()
            if b in seen or b in avoid:
                continue
            seen.add(b)
            st.extend(b.succ)
        return seen

    def loops(self):
        """natural loops: list of (header, set(blocks))"""
        if hasattr(self, '_loops'):
            return self._loops
        res = {}
        dom = self.doms()
        for b in self.blocks:
            if b not in dom:
                continue
            for s in b.succ:
                if s in dom[b]:
                    body = {s}
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in body:
                            continue
                        body.add(x)
                        st.extend(x.pred)
                    res.setdefault(s, set()).update(body)
        self._loops = sorted(res.items(), key=lambda x: len(x[1]))
        return self._loops


def _dominators(blocks, entry, preds):
    # reachable only
    order = []
    seen = set()

    def dfs(b):
        st = [(b, iter(b.succ))]
        seen.add(b)
        while st:
            x, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(s.succ)))
                    break
            else:
                order.append(x)
                st.pop()
    dfs(entry)
    order.reverse()
    allb = set(order)
    dom = {b: allb for b in order}
    dom[entry] = {entry}
    ch = True
    while ch:
        ch = False
        for b in order:
            if b is entry:
                continue
            ps = [dom[p] for p in preds(b) if p in allb]
            n = set.intersection(*ps) if ps else set()
            n = n | {b}
            if n != dom[b]:
                dom[b] = n
                ch = True
    return dom


class Module:
    def __init__(self, path):
        self.path = path
        self.fns = {}
        self.decls = {}
        self.globs = {}
        self.structs = {}
        self.meta = {}
        self.src = None
        self._field = {}
        self._parse(path)

    # ---- parse
    def _parse(self, path):
        fn = None
        blk = None
        lines = open(path, errors='replace').read().split('\n')
        i = 0
        n = len(lines)
        rawmeta = self.meta
        while i < n:
            L = lines[i]
            i += 1
            if fn is None:
                if not L:
                    continue
                c = L[0]
                if c == '!':
                    k, _, v = L.partition(' = ')
                    rawmeta[k] = v
                elif L.startswith('define '):
                    fn = self._define(L)
                    blk = None
                elif L.startswith('declare '):
                    m = re.search(r'@("[^"]*"|[-\w$.]+)\(', L)
                    if m:
                        self.decls[m.group(1).strip('"')] = L
                elif c == '@':
                    m = re.match(r'@("[^"]*"|[-\w$.]+) = (.*)', L)
                    self.globs[m.group(1).strip('"')] = m.group(2)
                elif c == '%':
                    m = re.match(r'%("[^"]*"|[-\w$.]+) = type (.*)', L)
                    if m:
                        self.structs[m.group(1).strip('"')] = m.group(2)
                elif L.startswith('source_filename'):
                    self.src = L.split('"')[1]
                continue
            if L == '}':
                fn.finish()
                fn = None
                continue
            if not L.strip() or L.lstrip().startswith(';'):
                continue
            if L[0] != ' ':
                m = re.match(r'("[^"]*"|[-\w$.]+):', L)
                blk = Block(m.group(1).strip('"'))
                blk.fn = fn
                fn.blocks.append(blk)
                fn.bb[blk.name] = blk
                continue
            if blk is None:
                blk = Block('0')
                blk.fn = fn
                fn.blocks.append(blk)
                fn.bb[blk.name] = blk
            s = L.strip()
            if s.startswith('switch ') and s.endswith('['):
                while not lines[i].strip().startswith(']'):
                    s += ' ' + lines[i].strip()
                    i += 1
                s += ' ' + lines[i].strip()
                i += 1
            if '@llvm.dbg.' in s or '@llvm.lifetime.' in s:
                if '@llvm.dbg.' in s:
                    self._dbgval(fn, blk, s)
                continue
            if '@llvm.stacksave' in s or '@llvm.stackrestore' in s or '@llvm.experimental.noalias' in s:
                if not '= ' in s:
                    continue
            ins = self._instr(s, fn)
            ins.blk = blk
            blk.ins.append(ins)
        for f in self.fns.values():
            for ins in f.instrs():
                self._resolve_dbg(ins)

    def _dbgval(self, fn, blk, s):
        m = re.search(r'metadata (?:ptr|i\d+|double|float|\[[^\]]*\]|%[\w.]+|\S+) (%[-\w$."]+), metadata (!\d+)', s)
        if m:
            fn_names = getattr(fn, 'dbgnames', None)
            if fn_names is None:
                fn_names = fn.dbgnames = {}
            fn_names.setdefault(m.group(1)[1:].strip('"'), []).append(m.group(2))

    def varnames(self, fn, regname):
        out = []
        for md in getattr(fn, 'dbgnames', {}).get(regname, []):
            m = re.search(r'name: "([^"]*)"', self.meta.get(md, ''))
            if m and m.group(1) not in out:
                out.append(m.group(1))
        return out

    def _define(self, L):
        m = re.search(r'@("[^"]*"|[-\w$.]+)\(', L)
        name = m.group(1).strip('"')
        f = Fn(name, self)
        f.internal = ' internal ' in L[:m.start()]
        head = L[:m.start()].replace('define', '').split()
        f.ret = head[-1] if head else None
        # params
        d = 0
        j = m.end() - 1
        k = j
        while True:
            if L[k] == '(':
                d += 1
            elif L[k] == ')':
                d -= 1
                if d == 0:
                    break
            k += 1
        ps = L[j + 1:k]
        depth = 0
        cur = ''
        parts = []
        for ch in ps:
            if ch in '([{<':
                depth += 1
            if ch in ')]}>':
                depth -= 1
            if ch == ',' and depth == 0:
                parts.append(cur)
                cur = ''
            else:
                cur += ch
        if cur.strip():
            parts.append(cur)
        for p in parts:
            w = p.split()
            if w[0] == '...':
                f.vararg = True
                continue
            f.params.append((w[0], w[-1][1:].strip('"')))
        md = re.search(r'!dbg (!\d+)', L[k:])
        f.dbg = md.group(1) if md else None
        self.fns[name] = f
        return f

    def _instr(self, s, fn):
        ins = Instr()
        ins.fn = fn
        ins.text = s
        # trailing metadata
        m = re.search(r', !dbg (!\d+)', s)
        if m:
            ins.dbg = m.group(1)
        m = re.search(r', !tbaa (!\d+)', s)
        if m:
            ins.tbaa = m.group(1)
        body = re.split(r', ![a-zA-Z_.]+ ![0-9]', s, maxsplit=1)[0]
        p = P(tokenize(body))
        if p.kind() == 'reg' and p.peek(1) == '=':
            ins.res = p.next()[1:].strip('"')
            p.next()
        op = p.next()
        while op in _FLAGS:
            op = p.next()
        ins.op = op
        if op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr', 'ashr',
                  'and', 'or', 'xor', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            while p.peek() in _FLAGS:
                p.next()
            t = p.type()
            ins.ty = t
            a = p.value(t)
            p.expect(',')
            b = p.value(t)
            ins.ops = [a, b]
        elif op == 'fneg':
            while p.peek() in _FLAGS:
                p.next()
            ins.ty = p.type()
            ins.ops = [p.value(ins.ty)]
        elif op in ('icmp', 'fcmp'):
            while p.peek() in _FLAGS:
                p.next()
            ins.extra = p.next()
            t = p.type()
            a = p.value(t)
            p.expect(',')
            b = p.value(t)
            ins.ops = [a, b]
            ins.ty = 'i1'
            ins.tys = [t]
        elif op == 'load':
            ins.extra = False
            while p.peek() in _FLAGS:
                if p.next() == 'volatile':
                    ins.extra = True
            ins.ty = p.type()
            p.expect(',')
            t = p.type()
            ins.ops = [p.value(t)]
        elif op == 'store':
            ins.extra = False
            while p.peek() in _FLAGS:
                if p.next() == 'volatile':
                    ins.extra = True
            t = p.type()
            a = p.value(t)
            ins.tys = [t]
            p.expect(',')
            t2 = p.type()
            ins.ops = [a, p.value(t2)]
        elif op == 'getelementptr':
            while p.peek() in _FLAGS:
                p.next()
            ins.extra = p.type()
            ins.ty = 'ptr'
            while p.accept(','):
                t = p.type()
                ins.tys.append(t)
                ins.ops.append(p.value(t))
        elif op == 'alloca':
            ins.extra = p.type()
            ins.ty = 'ptr'
            if p.accept(',') and p.peek() != 'align':
                t = p.type()
                ins.tys = [t]
                ins.ops = [p.value(t)]
        elif op in ('sext', 'zext', 'trunc', 'bitcast', 'inttoptr', 'ptrtoint', 'sitofp', 'uitofp',
                    'fptosi', 'fptoui', 'fpext', 'fptrunc', 'addrspacecast'):
            while p.peek() in _FLAGS:
                p.next()
            t = p.type()
            ins.tys = [t]
            ins.ops = [p.value(t)]
            p.expect('to')
            ins.ty = p.type()
        elif op == 'freeze':
            t = p.type()
            ins.ty = t
            ins.ops = [p.value(t)]
        elif op == 'phi':
            while p.peek() in _FLAGS:
                p.next()
            ins.ty = p.type()
            inc = []
            while True:
                p.expect('[')
                v = p.value(ins.ty)
                p.expect(',')
                b = p.next()[1:].strip('"')
                p.expect(']')
                inc.append((v, b))
                if not p.accept(','):
                    break
            ins.extra = inc
            ins.ops = [v for v, _ in inc]
        elif op == 'select':
            while p.peek() in _FLAGS:
                p.next()
            for _ in range(3):
                t = p.type()
                ins.ty = t
                ins.ops.append(p.value(t))
                p.accept(',')
        elif op == 'call':
            while p.peek() in _FLAGS or p.peek() in _CC:
                p.next()
            while p.peek() in _PARAM_ATTRS:
                a = p.next()
                if p.peek() == '(':
                    p.skip_balanced()
                elif a == 'align':
                    p.next()
            rt = p.type()
            ins.ty = rt.split('(')[0].strip() if not rt.startswith(('[', '{', '<')) else rt
            if p.peek() == 'asm':
                ins.extra = 'asm'
                return ins
            callee = p.value('ptr')
            if callee[0] == 'glob':
                ins.extra = callee[1]
            else:
                ins.extra = callee
            p.expect('(')
            while not p.accept(')'):
                if p.peek() == 'metadata':
                    p.next()
                    d = 0
                    while True:
                        if p.peek() in ('(', '{', '['):
                            p.skip_balanced()
                            continue
                        if p.peek() in (',', ')'):
                            break
                        p.next()
                    ins.ops.append(V(('meta', '')))
                    p.accept(',')
                    continue
                t = p.type()
                while p.peek() in _PARAM_ATTRS:
                    a = p.next()
                    if p.peek() == '(':
                        p.skip_balanced()
                    elif a == 'align':
                        p.next()
                ins.tys.append(t)
                ins.ops.append(p.value(t))
                p.accept(',')
        elif op == 'br':
            if p.peek() == 'label':
                p.next()
                ins.extra = [p.next()[1:].strip('"')]
            else:
                t = p.type()
                ins.ops = [p.value(t)]
                p.expect(',')
                p.expect('label')
                a = p.next()[1:].strip('"')
                p.expect(',')
                p.expect('label')
                b = p.next()[1:].strip('"')
                ins.extra = [a, b]
        elif op == 'switch':
            t = p.type()
            ins.ops = [p.value(t)]
            p.expect(',')
            p.expect('label')
            d = p.next()[1:].strip('"')
            p.expect('[')
            cs = []
            while not p.accept(']'):
                t = p.type()
                v = p.value(t)
                p.expect(',')
                p.expect('label')
                cs.append((v[1], p.next()[1:].strip('"')))
            ins.extra = (d, cs)
        elif op == 'ret':
            t = p.type()
            if t != 'void':
                ins.ops = [p.value(t)]
        elif op == 'unreachable':
            pass
        elif op in ('extractvalue', 'insertvalue'):
            t = p.type()
            ins.ty = t
            ins.ops = [p.value(t)]
        elif op == 'va_arg':
            t = p.type()
            ins.ops = [p.value(t)]
            p.expect(',')
            ins.ty = p.type()
        elif op in ('cmpxchg', 'atomicrmw', 'fence'):
            ins.extra = s
            if op != 'fence':
                m = re.search(r'ptr (%[-\w.]+|@[-\w.]+)', s)
                if m:
                    x = m.group(1)
                    ins.ops = [V(('reg', x[1:])) if x[0] == '%' else V(('glob', x[1:]))]
        else:
            raise ValueError('unknown op %s in %s' % (op, s))
        return ins

    # ---- debug info
    def md(self, k):
        return self.meta.get(k, '')

    def mdfield(self, text, key):
        m = re.search(r'[( ]' + key + r': (?:"([^"]*)"|(![0-9]+)|([-\w.]+))', text)
        if not m:
            return None
        return m.group(1) if m.group(1) is not None else (m.group(2) or m.group(3))

    def _resolve_dbg(self, ins):
        if ins.dbg:
            m = re.search(r'line: (\d+)', self.meta.get(ins.dbg, ''))
            if m:
                ins.line = int(m.group(1))

    def scope_of(self, md):
        """(function name, file) of a DILocation"""
        t = self.meta.get(md, '')
        sc = self.mdfield(t, 'scope')
        f = None
        g = 0
        while sc and g < 60:
            g += 1
            t = self.meta.get(sc, '')
            if f is None:
                fm = self.mdfield(t, 'file')
                if fm:
                    f = self.mdfield(self.meta.get(fm, ''), 'filename')
            if 'DISubprogram' in t:
                return self.mdfield(t, 'name'), f
            sc = self.mdfield(t, 'scope')
        return None, f

    def where(self, fn, ins):
        if ins is None:
            return '%s (%s)' % (fn.name, self.src)
        if not ins.dbg:
            return '%s:%s' % (self.src, fn.name)
        name, f = self.scope_of(ins.dbg)
        s = '%s:%d (%s)' % (f or self.src, ins.line, name or fn.name)
        md, g = ins.dbg, 0
        while g < 12:
            g += 1
            at = self.mdfield(self.meta.get(md, ''), 'inlinedAt')
            if not at:
                break
            md = at
            name, f = self.scope_of(md)
            m = re.search(r'line: (\d+)', self.meta.get(md, ''))
            s += ' called at %s:%s (%s)' % (f or self.src, m.group(1) if m else '?', name or fn.name)
        return s

    def struct_fields(self, sname):
        """[(offset_bytes, field name, type md)] of a C struct from debug info"""
        if sname in self._field:
            return self._field[sname]
        if not hasattr(self, '_comp'):
            self._comp = {}
            for k, v in self.meta.items():
                if 'DICompositeType' in v and 'DW_TAG_structure_type' in v:
                    nm = self.mdfield(v, 'name')
                    if nm and 'elements:' in v:
                        self._comp[nm] = v
        out = []
        v = self._comp.get(sname)
        if v:
            el = self.mdfield(v, 'elements')
            for e in re.findall(r'![0-9]+', self.meta.get(el, '')):
                t = self.meta.get(e, '')
                off = int(self.mdfield(t, 'offset') or 0) // 8
                out.append((off, self.mdfield(t, 'name'), self.mdfield(t, 'baseType')))
        self._field[sname] = out
        return out

    def field_at(self, sname, off):
        for o, n, _ in self.struct_fields(sname):
            if o == off:
                return n
        return None

    def tbaa_field(self, ins):
        """(struct, field) accessed by a load/store, or None; scalar type name otherwise"""
        if not ins.tbaa:
            return None
        t = self.meta.get(ins.tbaa, '')
        m = re.match(r'!\{(!\d+), (!\d+), i64 (\d+)', t)
        if not m:
            return None
        base, acc, off = m.group(1), m.group(2), int(m.group(3))
        if base == acc:
            return None
        b = self.meta.get(base, '')
        m = re.match(r'!\{!"([^"]*)"', b)
        if not m:
            return None
        sn = m.group(1)
        return sn, self.field_at(sn, off) or ('+%d' % off)

    def tbaa_scalar(self, ins):
        if not ins.tbaa:
            return None
        t = self.meta.get(ins.tbaa, '')
        m = re.match(r'!\{(!\d+), (!\d+), i64 (\d+)', t)
        if not m:
            return None
        m = re.match(r'!\{!"([^"]*)"', self.meta.get(m.group(2), ''))
        return m.group(1) if m else None

    def cstring(self, g):
        t = self.globs.get(g, '')
        m = re.search(r'c"((?:[^"\\]|\\.)*)"', t)
        if not m:
            if 'zeroinitializer' in t:
                return ''
            return None
        s = re.sub(r'\\([0-9A-Fa-f]{2})', lambda x: chr(int(x.group(1), 16)), m.group(1))
        return s.split('\0')[0]

    def struct_layout(self, sname):
        """IR struct element count -> DI field by index (non-packed C structs)"""
        f = self.struct_fields(sname)
        return [x[1] for x in f]
