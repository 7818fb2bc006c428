"""P10 all ranks set up the same operation: uniformity (divergence) analysis of the configuration and of the plan parameters."""
import os
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
import driver  # noqa: E402

RULE = ('Divergence analysis (data and control) over the LLVM IR of the set-up code, interprocedural and flow sensitive: values that can differ between '
        'ranks come from MPI_Comm_rank, getenv, MPI_Wtime, node-local communicators and the per-rank arguments; only collective calls over a uniform '
        'communicator make them uniform. No collective call depends on a divergent condition or root; every parameter of a plan builder and every '
        'configuration variable after the start-up is uniform.')

U = (False, frozenset())

COLL = re.compile(r'^P?MPI_(Bcast|Allreduce|Allgather|Allgatherv|Alltoall|Reduce|Gather|Gatherv|Scatter|Scatterv|Reduce_scatter|Barrier|Scan|'
                  r'Comm_split|Comm_split_type|Comm_dup|Comm_create)$')
# values that differ between processes
DIVERGENT = re.compile(r'^(getenv|secure_getenv|P?MPI_Wtime|gethostname|P?MPI_Get_processor_name|getpid|gettid|time|clock|clock_gettime|gettimeofday|'
                       r'rand|random|drand48|sched_getcpu|gethostid|pthread_self|shmget|shmat|malloc_usable_size)$')
NATIVE = re.compile(r'^EXT_MPI_\w+_native$')
NORETURN = ('exit', 'abort', '_exit', '__assert_fail', 'MPI_Abort', 'PMPI_Abort')

# parameters of the plan builders that have to agree on all ranks (the counts and buffers of a rank are its own)
PLAN = {
    'EXT_MPI_Allreduce_init_native': ('count:2 datatype:3 op:4 cores_row:6 cores_col:8 num_ports:9 groups:10 copyin:11 copyin_factors:12 alternating:13 '
                                      'bit_identical:14 waitany:15 not_recursive:16 blocking:17 num_sockets:18 shmem_zero:19'),
    'EXT_MPI_Reduce_init_native': ('count:2 datatype:3 op:4 root:5 cores_row:7 cores_col:9 num_ports:10 groups:11 copyin:12 copyin_factors:13 '
                                   'alternating:14 bit_identical:15 waitany:16 not_recursive:17 blocking:18 num_sockets:19 shmem_zero:20'),
    'EXT_MPI_Bcast_init_native': ('count:1 datatype:2 root:3 cores_row:5 cores_col:7 num_ports:8 groups:9 copyin:10 copyin_factors:11 alternating:12 '
                                  'not_recursive:13 blocking:14 num_sockets:15 shmem_zero:16'),
    'EXT_MPI_Gatherv_init_native': ('counts:4 displs:5 root:7 cores_row:9 cores_col:11 num_ports:12 groups:13 alternating:14 not_recursive:15 blocking:16 '
                                    'num_sockets:17 shmem_zero:18'),
    'EXT_MPI_Allgatherv_init_native': ('counts:4 displs:5 cores_row:8 cores_col:10 num_ports:11 groups:12 alternating:13 not_recursive:14 blocking:15 '
                                       'num_sockets:16 shmem_zero:17'),
    'EXT_MPI_Scatterv_init_native': ('counts:1 displs:2 root:7 cores_row:9 cores_col:11 num_ports:12 groups:13 copyin:14 alternating:15 not_recursive:16 '
                                     'blocking:17 num_sockets:18 shmem_zero:19'),
    'EXT_MPI_Reduce_scatter_init_native': ('counts:2 datatype:3 op:4 cores_row:6 cores_col:8 num_ports:9 groups:10 copyin:11 copyin_factors:12 alternating:13 '
                                           'not_recursive:14 blocking:15 num_sockets:16 shmem_zero:17'),
}
PLAN = {k: [(p.split(':')[0], int(p.split(':')[1])) for p in v.split()] for k, v in PLAN.items()}
# per-rank arguments of the MPI calls (everything else has to agree by the MPI standard; the library expects the counts arrays on all ranks)
OWN = {'Allreduce': (0, 1), 'Reduce': (0, 1), 'Bcast': (0,), 'Allgather': (0, 3), 'Allgatherv': (0, 1, 3), 'Gather': (0, 3), 'Gatherv': (0, 1, 3),
       'Scatter': (0, 3), 'Scatterv': (0, 4, 5), 'Reduce_scatter': (0, 1), 'Reduce_scatter_block': (0, 1)}


def join(a, b):
    return (a[0] or b[0], a[1] | b[1])


def joinst(a, b):
    if a is None:
        return dict(b), True
    ch = False
    for k, v in b.items():
        o = a.get(k, U)
        n = join(o, v)
        if n != o:
            a[k] = n
            ch = True
    return a, ch


class Shape:
    """control structure of a function: post-dominators ignoring paths that abort"""

    def __init__(self, fn):
        self.fn = fn
        B = fn.blocks
        dead = set()
        ch = True
        while ch:
            ch = False
            for b in B:
                if b in dead:
                    continue
                t = b.ins[-1]
                if t.op == 'unreachable' or any(i.op == 'call' and i.extra in NORETURN for i in b.ins) or b.succ and all(s in dead for s in b.succ):
                    dead.add(b)
                    ch = True
        self.dead = dead
        self.succ = {b: [s for s in b.succ if s not in dead and not nomem(fn, b, s)] for b in B}
        EXIT = None
        pd = {b: None for b in B if b not in dead}    # None = all
        order = list(pd)
        ch = True
        while ch:
            ch = False
            for b in reversed(order):
                ss = self.succ[b]
                if not ss:
                    n = {b, EXIT}
                else:
                    n = None
                    for s in ss:
                        if pd[s] is None:
                            continue
                        n = set(pd[s]) if n is None else n & pd[s]
                    if n is None:
                        continue
                    n = n | {b}
                if n != pd[b]:
                    pd[b] = n
                    ch = True
        self.pd = pd

    def region(self, b):
        """(blocks controlled by the branch ending b, blocks where its sides join)"""
        pd = (self.pd.get(b) or set()) - {b}
        reg = set()
        side = []
        for s in self.succ[b]:
            seen, w = set(), [s]
            while w:
                x = w.pop()
                if x in pd or x in seen:
                    continue
                seen.add(x)
                w += self.succ[x]
            side.append((s, seen))
            reg |= seen
        joins = set()
        for x in self.fn.blocks:
            if x in reg or x in pd:
                n = [p for p in x.pred if p in reg or p is b]
                if len(n) >= 2 or (len(x.pred) >= 2 and n and x in reg):
                    joins.add(x)
                elif n and b in reg:      # loop exit
                    joins.add(x)
        return reg, joins


def nomem(fn, b, s):
    """the edge b -> s is only taken when an allocation failed"""
    t = b.ins[-1]
    if t.op != 'br' or not t.ops or t.extra[0] == t.extra[-1]:
        return False
    v = allocated(fn, t.ops[0])
    return v is not None and fn.bb[t.extra[1 if v else 0]] is s


def forward(fn, i):
    """the value a load returns when it was stored shortly before"""
    if i is None or i.op != 'load':
        return i
    b, k = i.blk, i.idx
    while True:
        for x in reversed(b.ins[:k]):
            if x.op == 'store' and x.ops[1] == i.ops[0]:
                return fn.defs.get(x.ops[0][1]) if x.ops[0][0] == 'reg' else None
            if x.op == 'call' and not (isinstance(x.extra, str) and x.extra.startswith(('malloc', 'calloc', 'llvm.'))):
                return None
        if len(b.pred) != 1:
            return None
        b = b.pred[0]
        k = len(b.ins)


def allocated(fn, o, d=0):
    """truth value of a condition when every allocation succeeds, None when it does not follow"""
    if o[0] == 'int':
        return bool(o[1])
    if o[0] != 'reg' or d > 10:
        return None
    i = fn.defs.get(o[1])
    if i is None:
        return None
    if i.op == 'icmp' and i.extra in ('eq', 'ne') and any(x[0] == 'null' for x in i.ops):
        for x in i.ops:
            a = forward(fn, fn.defs.get(x[1])) if x[0] == 'reg' else None
            if a is not None and a.op == 'call' and a.extra in ('malloc', 'calloc', 'realloc'):
                return i.extra == 'ne'
        return None
    if i.op in ('select', 'or', 'and', 'xor'):
        v = [allocated(fn, x, d + 1) for x in i.ops]
        if i.op == 'select':
            if v[0] is not None:
                return v[1] if v[0] else v[2]
            return v[1] if v[1] == v[2] else None
        if i.op == 'xor':
            return None if None in v else v[0] != v[1]
        z = i.op == 'or'
        if z in v:
            return z
        return None if None in v else not z
    if i.op == 'phi':
        v = {allocated(fn, x, d + 1) for x in i.ops}
        return v.pop() if len(v) == 1 else None
    return None


class Div:
    def __init__(self, c, mods):
        self.c = c
        self.fns, self.mod = {}, {}
        for m in mods.values():
            for f in m.fns.values():
                if f.blocks and f.name not in self.fns:
                    self.fns[f.name] = f
        self.shapes = {}
        self.memo = {}
        self.stack = []
        self.sites = set()
        self.deep = {}
        self.match = {}
        self.mods_ = {}
        self.ptrglobs = {'G:' + g for m in mods.values() for g in m.globs if isptr(m, g)}
        self.um = False

    # ---- which functions have to be looked into
    def isdeep(self, n):
        if n not in self.deep:
            seen, w = set(), [n]
            r = False
            while w and not r:
                x = w.pop()
                if x in seen or x not in self.fns:
                    continue
                seen.add(x)
                for b in self.fns[x].blocks:
                    for i in b.ins:
                        if i.op == 'call' and isinstance(i.extra, str):
                            e = i.extra
                            if e.startswith(('MPI_', 'PMPI_')) or DIVERGENT.match(e):
                                r = True
                            w.append(e)
            self.deep[n] = r
        return self.deep[n]

    def where(self, fn, ins):
        return fn.mod.where(fn, ins)

    def exec(self, name, args, state, ctl):
        key = (name, tuple(args), ctl, frozenset(state.items()))
        if key in self.memo:
            r, s = self.memo[key]
            return r, dict(s)
        self.stack.append(name)
        try:
            r, s = self.run(self.fns[name], args, state, ctl)
        finally:
            self.stack.pop()
        self.memo[key] = (r, dict(s))
        return r, s

    def run(self, fn, args, state, ctl):
        self.c.fn(fn.name)
        sh = self.shapes.setdefault(fn.name, None) or Shape(fn)
        self.shapes[fn.name] = sh
        regs = {}
        for (ty, n), v in zip(fn.params, args):
            regs[n] = v
        ins_st = {fn.blocks[0]: dict(state)}
        out_st = {}
        divreg, divjoin, divbr, unm = set(), set(), set(), set()
        ret = [U]
        outs = None
        for rnd in range(60):
            changed = False
            outs = None
            for b in fn.blocks:
                if b is not fn.blocks[0]:
                    st = None
                    for p in b.pred:
                        if p in out_st and b in sh.succ[p]:
                            st, _ = joinst(st, out_st[p])
                    if st is None:
                        continue
                else:
                    st = dict(state)
                dv = ctl or b in divreg
                self.um = ctl or b in unm
                for i in b.ins:
                    um = self.um
                    v = self.step(fn, i, regs, st, dv, divjoin)
                    self.um = um
                    if v is not None and i.res:
                        o = regs.get(i.res)
                        n = v if o is None else join(o, v)
                        if n != o:
                            regs[i.res] = n
                            changed = True
                    if i.op == 'ret':
                        if i.ops:
                            ret[0] = join(ret[0], self.val(i.ops[0], regs))
                        if dv and not ctl:
                            ret[0] = (True, ret[0][1])
                        outs, _ = joinst(outs, st)
                    if i.op in ('br', 'switch') and i.ops and len(sh.succ[b]) > 1 and b not in divbr and self.val(i.ops[0], regs)[0]:
                        divbr.add(b)
                        r, j = sh.region(b)
                        divreg |= r
                        for x in r if not self.matched(fn, sh, b) else ():
                            unm.add(x)
                        divjoin |= j
                        changed = True
                if out_st.get(b) != st:
                    out_st[b] = st
                    changed = True
            if not changed:
                break
        else:
            self.c.error('no fixpoint in %s' % fn.name)
        # a return block reached by joins of a divergent branch
        return ret[0], outs if outs is not None else dict(state)

    def val(self, o, regs):
        if o[0] == 'reg':
            return regs.get(o[1], U)
        if o[0] == 'glob':
            return (False, frozenset(['G:' + o[1]]))
        if o[0] == 'expr' or o[0] == 'gep' or o[0] == 'cexpr':
            g = [x for x in flat(o)]
            return (False, frozenset('G:' + x for x in g))
        return U

    def reach(self, st, v):
        seen, w = set(), list(v[1])
        while w:
            x = w.pop()
            if x in seen:
                continue
            seen.add(x)
            w += st.get(x, U)[1]
        return seen

    def content(self, st, v):
        """does the value, or the memory it points to, differ between ranks"""
        return v[0] or any(st.get(x, U)[0] for x in self.reach(st, v))

    def event(self, i):
        n = i.extra
        if i.op != 'call' or not isinstance(n, str):
            return None
        if COLL.match(n):
            k = n.split('MPI_', 1)[1]
            a = {'Bcast': (1, 2, 3, 4), 'Allreduce': (2, 3, 4, 5), 'Reduce': (2, 3, 4, 5, 6), 'Allgather': (1, 2, 4, 5, 6), 'Barrier': (0,)}.get(k)
            return (k,) + tuple(i.ops[x] for x in a) if a else (k,) + tuple(i.ops)
        if n in PLAN or NATIVE.match(n) or n in ('EXT_MPI_Start', 'EXT_MPI_Wait', 'EXT_MPI_Done'):
            return (n,)
        if n in self.fns and self.isdeep(n) and self.iscoll(n):
            return (n,)
        return None

    def iscoll(self, n, seen=None):
        seen = seen if seen is not None else set()
        if n in seen or n not in self.fns:
            return False
        seen.add(n)
        for b in self.fns[n].blocks:
            for i in b.ins:
                if i.op == 'call' and isinstance(i.extra, str) and (COLL.match(i.extra) or NATIVE.match(i.extra) or self.iscoll(i.extra, seen)):
                    return True
        return False

    def matched(self, fn, sh, b):
        """all sides of a branch run the same collective calls"""
        key = (fn.name, b.name)
        if key in self.match:
            return self.match[key]
        reg, _ = sh.region(b)
        ev = {x: tuple(e for e in (self.event(i) for i in x.ins) if e) for x in reg}
        if not any(ev.values()):
            r = True
        else:
            seqs = set()

            def walk(x, seq, path, n=[0]):
                n[0] += 1
                if n[0] > 3000:
                    seqs.add('?')
                    seqs.add('??')
                    return
                if x not in reg:
                    seqs.add(seq)
                    return
                if x in path:
                    seqs.add(('loop', x) if any(ev.get(y) for y in path) else seq)
                    return
                seq = seq + ev[x]
                if not sh.succ[x]:
                    seqs.add(seq)
                for s in sh.succ[x]:
                    walk(s, seq, path | {x})
            for s in sh.succ[b]:
                walk(s, (), frozenset([b]))
            r = len(seqs) <= 1
        self.match[key] = r
        return r

    def put(self, st, objs, val, strong):
        for o in objs:
            st[o] = val if strong else join(st.get(o, U), val)

    def step(self, fn, i, regs, st, dv, divjoin):
        op = i.op
        V = [self.val(o, regs) for o in i.ops] if op != 'call' else None
        if op == 'alloca':
            return (False, frozenset(['A:%s:%s' % (fn.name, i.res)]))
        if op == 'load':
            p = V[0]
            r = (p[0], frozenset())
            for o in p[1]:
                x = st.get(o, U)
                r = join(r, x)
                if i.ty == 'ptr' and not x[1]:
                    r = join(r, (False, frozenset([o + '*']) if o.count('*') < 3 else frozenset()))
            return r
        if op == 'store':
            v, p = V
            d = v[0] or p[0] or dv
            if v[1] and heapy(v[1]) and dv and not v[0] and not p[0]:
                # which object is taken differs: what the objects hold may differ until they are broadcast
                d = False
                for o in v[1]:
                    st[o] = (True, st.get(o, U)[1])
            strong = len(p[1]) == 1 and i.ops[1][0] in ('glob', 'reg') and self.scalar(fn, i.ops[1])
            self.put(st, p[1], (d, v[1]), strong)
            return None
        if op == 'phi':
            r = U
            vals = set()
            for o, b in i.extra:
                if o[0] == 'undef':
                    continue
                vals.add(o)
                r = join(r, self.val(o, regs))
            if i.blk in divjoin and len(vals) > 1:
                if i.ty == 'ptr' and not r[0] and heapy(r[1]):
                    for o in r[1]:
                        st[o] = (True, st.get(o, U)[1])
                else:
                    r = (True, r[1])
            return r
        if op == 'select':
            r = join(V[1], V[2])
            return (r[0] or V[0][0] and i.ops[1] != i.ops[2], r[1])
        if op == 'icmp' and any(o[0] == 'null' for o in i.ops):
            # success of an allocation does not differ between ranks
            k = V[0] if i.ops[1][0] == 'null' else V[1]
            if k[1] and any(o.startswith(('H:', 'A:')) for o in k[1]):
                return U
            return (k[0], frozenset())
        if op == 'call':
            return self.call(fn, i, regs, st, dv)
        if op in ('br', 'switch', 'ret', 'unreachable', 'fence'):
            return None
        if i.res:
            r = U
            for v in V:
                r = join(r, v)
            if op in ('icmp', 'fcmp'):
                r = (r[0], frozenset())
            return r
        return None

    def scalar(self, fn, o):
        if o[0] == 'glob':
            return True
        d = fn.defs.get(o[1])
        return d is not None and d.op == 'alloca' and not str(d.extra).startswith(('[', '%', '{'))

    def call(self, fn, i, regs, st, dv):
        A = [self.val(o, regs) for o in i.ops]
        n = i.extra if isinstance(i.extra, str) else None
        if n is None:
            return join_all(A)
        if n.startswith('llvm.'):
            if n.startswith(('llvm.memcpy', 'llvm.memmove')):
                d = self.content(st, A[1]) or A[2][0] or A[0][0] or dv
                pts = frozenset()
                for o in A[1][1]:
                    pts |= st.get(o, U)[1]
                self.put(st, A[0][1], (d, pts), False)
            elif n.startswith('llvm.memset'):
                self.put(st, A[0][1], (A[1][0] or A[2][0] or dv, frozenset()), False)
            return join_all(A) if i.res else None
        if COLL.match(n):
            return self.coll(fn, i, n[1:] if n[0] == 'P' else n, A, st, dv)
        m = re.match(r'^P?(MPI_Comm_(rank|size)|MPI_Type_size)$', n)
        if m:
            d = A[0][0] or dv or m.group(2) == 'rank'
            self.put(st, A[1][1], (d, frozenset()), len(A[1][1]) == 1)
            return U
        if DIVERGENT.match(n):
            return (True, frozenset(['G:%s()' % n])) if i.ty == 'ptr' else (True, frozenset())
        if n in ('malloc', 'calloc', 'realloc'):
            if n == 'realloc' and A[0][1]:
                return A[0]
            o = 'H:%s:%d' % (fn.name, i.line)
            return (False, frozenset([o]))
        if n in ('free', 'printf', 'puts', 'putchar', 'fprintf', 'fflush') or n in NORETURN:
            return U
        if n in PLAN:
            self.c.count('plan builder calls')
            for lab, k in PLAN[n]:
                if k >= len(A):
                    self.c.error('%s has no argument %d' % (n, k))
                    continue
                d = self.content(st, A[k])
                self.ob(fn, i, not d, 'plan:%s:%s:%s' % (fn.name, n, lab), 'the %s given to %s can differ between ranks' % (lab, n))
            self.ob(fn, i, not self.um, 'ctl:%s:%s' % (fn.name, n), '%s is called depending on a value that can differ between ranks' % n)
            return U
        if NATIVE.match(n) or n in ('EXT_MPI_Start', 'EXT_MPI_Wait', 'EXT_MPI_Done'):
            self.ob(fn, i, not self.um, 'ctl:%s:%s' % (fn.name, n), '%s is called depending on a value that can differ between ranks' % n)
            for a in A:
                self.put(st, a[1], (dv, frozenset()), False)
            return U
        if n in self.fns and self.isdeep(n):
            if n in self.stack:
                self.ob(fn, i, not self.um, 'ctl:%s:%s' % (fn.name, n), '%s is called depending on a value that can differ between ranks' % n)
                return U
            r, s = self.exec(n, A, st, dv)
            st.clear()
            st.update(s)
            if dv:
                r = (True, r[1])
            return r
        # functions without MPI: the results depend on the arguments only
        rd = any(self.content(st, a) for a in A)
        d = dv or rd
        outs, cells = set(), set()
        for k, a in enumerate(A):
            if self.modifies(n, k):
                outs |= self.reach(st, a)
                cells |= {o for o in a[1] if self.ptrcell(o)}
        new = 'H:%s:%d' % (fn.name, i.line)
        for o in outs:
            x = st.get(o, U)
            if o in cells:
                st[o] = (x[0], x[1] | {new})
                if d:
                    st[new] = (True, frozenset())
            else:
                st[o] = (x[0] or d, x[1])
        if i.ty == 'ptr':
            if n in self.fns:
                if d:
                    st[new] = (True, frozenset())
                return (False, frozenset([new]))
            return (rd, frozenset().union(*[a[1] for a in A]) if A else frozenset())
        return (rd, frozenset())

    def ptrcell(self, o):
        k = o.split(':')
        if k[0] == 'A':
            f = self.fns.get(k[1])
            d = f and f.defs.get(k[2])
            return d is not None and d.op == 'alloca' and str(d.extra) == 'ptr'
        return k[0] == 'G' and o in self.ptrglobs

    def modifies(self, n, k):
        """may the function write to memory reached from its argument k"""
        key = (n, k)
        if key in self.mods_:
            return self.mods_[key]
        if n not in self.fns:
            if n.startswith('llvm.mem') or n in ('memcpy', 'memmove', 'memset', 'strcpy', 'strncpy', 'strcat', 'sprintf', 'snprintf', 'fgets', 'qsort'):
                return k == 0
            if 'scanf' in n:
                return k >= (1 if n == 'scanf' else 2)
            return n in ('strtol', 'strtod', 'strtoul') and k == 1
        self.mods_[key] = False
        f = self.fns[n]
        if k >= len(f.params):
            return True
        T = {f.params[k][1]}
        r, ch = False, True
        while ch and not r:
            ch = False
            for b in f.blocks:
                for i in b.ins:
                    h = [o for o in i.ops if o[0] == 'reg' and o[1] in T]
                    if not h:
                        continue
                    if i.op == 'store':
                        if i.ops[1][0] == 'reg' and i.ops[1][1] in T:
                            r = True
                        elif i.ops[1][0] == 'reg' and i.ops[1][1] not in T:
                            T.add(i.ops[1][1])
                            ch = True
                    elif i.op == 'call':
                        if isinstance(i.extra, str) and any(o[0] == 'reg' and o[1] in T and self.modifies(i.extra, j) for j, o in enumerate(i.ops)):
                            r = True
                    elif i.res and i.ty != 'i1' and i.op in ('getelementptr', 'phi', 'select', 'bitcast', 'load') and i.res not in T and (
                            i.op != 'load' or i.ty == 'ptr'):
                        T.add(i.res)
                        ch = True
        self.mods_[key] = r
        return r

    def ob(self, fn, i, ok, key, msg):
        s = (fn.name, i.line, key)
        if s not in self.sites:
            self.sites.add(s)
            self.c.oblig += 1
        if not ok:
            self.c.violation(key, '%s: %s' % (self.where(fn, i), msg))

    def coll(self, fn, i, n, A, st, dv):
        if fn.name + str(i.line) + n not in self.sites:
            self.sites.add(fn.name + str(i.line) + n)
            self.c.count('collective calls')
        self.ob(fn, i, not self.um, 'ctl:%s:%s' % (fn.name, n), '%s is called depending on a value that can differ between ranks' % n)
        pos = {'Bcast': 4, 'Allreduce': 5, 'Allgather': 6, 'Reduce': 6, 'Barrier': 0, 'Comm_split': 0, 'Comm_split_type': 0, 'Comm_dup': 0, 'Allgatherv': 7,
               'Comm_create': 0, 'Alltoall': 6, 'Gather': 7, 'Gatherv': 8, 'Scatter': 7, 'Scatterv': 8, 'Reduce_scatter': 5, 'Scan': 5}
        k = n[4:]
        local = A[pos[k]][0]
        dv = self.um
        if k in ('Comm_split', 'Comm_split_type', 'Comm_create', 'Comm_dup'):
            out = A[-1]
            self.put(st, out[1], (k != 'Comm_dup' or local, frozenset()), False)
            return U
        if k == 'Barrier':
            return U
        rootpos = {'Bcast': 3, 'Reduce': 5, 'Gather': 6, 'Gatherv': 7, 'Scatter': 6, 'Scatterv': 7}.get(k)
        if rootpos is not None:
            self.ob(fn, i, not A[rootpos][0], 'root:%s:%s' % (fn.name, n), 'the root of %s can differ between ranks' % n)
        if k in ('Bcast', 'Allreduce', 'Allgather') and not local:
            cnt = {'Bcast': 1, 'Allreduce': 2, 'Allgather': 1}[k]
            self.ob(fn, i, not A[cnt][0], 'count:%s:%s' % (fn.name, n), 'the count of %s can differ between ranks' % n)
        if k == 'Bcast':
            for o in A[0][1]:
                st[o] = (local or dv, st.get(o, U)[1])
        elif k in ('Allreduce', 'Allgather', 'Allgatherv'):
            for o in A[{'Allreduce': 1}.get(k, 3)][1]:
                st[o] = (local or dv, st.get(o, U)[1])
        else:
            for o in A[{'Reduce': 1, 'Reduce_scatter': 1, 'Scan': 1, 'Scatterv': 4}.get(k, 3)][1]:
                st[o] = (True, st.get(o, U)[1])
        return U


def isptr(m, g):
    for f in m.fns.values():
        for b in f.blocks:
            for i in b.ins:
                if i.op == 'load' and i.ops[0] == ('glob', g) and i.ty == 'ptr':
                    return True
    return False


def heapy(pts):
    return all(o.startswith(('H:', 'A:', 'G:')) for o in pts)


def flat(o):
    for x in o[1:]:
        if isinstance(x, tuple):
            if x and x[0] == 'glob':
                yield x[1]
            else:
                yield from flat(x)
        elif isinstance(x, list):
            yield from flat([None] + x)


def join_all(A):
    r = U
    for a in A:
        r = join(r, a)
    return r


def main(c):
    srcs = [s for s in driver.all_sources() if s.startswith(('src/core/', 'src/mpi/', 'src/noopt/'))]
    mods = driver.modules(srcs)
    D = Div(c, mods)
    # start-up: after it the configuration agrees on all ranks
    if 'EXT_MPI_Init' in D.fns:
        r, st = D.exec('EXT_MPI_Init', [], {}, False)
        m = mods['src/mpi/ext_mpi.c']
        conf = sorted(g for g in written_globals(D.fns['EXT_MPI_Init']))
        for g in conf:
            c.count('configuration variables')
            d = D.content(st, (False, frozenset(['G:' + g])))
            c.ob(not d, 'config:%s' % g, 'the configuration variable %s can differ between ranks after the start-up' % g)
        c.notes.append('configuration variables: ' + ', '.join(conf))
    else:
        c.error('EXT_MPI_Init is gone')
    c.need('configuration variables', 8)
    for n, own in OWN.items():
        f = D.fns.get('MPI_%s_init' % n)
        if not f:
            continue
        c.count('entry points')
        args, st = [], {}
        for k, (ty, nm) in enumerate(f.params):
            o = 'P:%s:%d' % (n, k)
            args.append((k in own, frozenset([o]) if ty == 'ptr' else frozenset()))
            if k in own and ty == 'ptr':
                st[o] = (True, frozenset())
        D.exec(f.name, args, st, False)
    c.need('entry points', 10)
    c.need('plan builder calls', 7)
    c.need('collective calls', 20)


def written_globals(fn):
    out = set()
    for b in fn.blocks:
        for i in b.ins:
            if i.op == 'store' and i.ops[1][0] == 'glob':
                out.add(i.ops[1][1])
            if i.op == 'call' and isinstance(i.extra, str):
                for o in i.ops:
                    if o[0] == 'glob' and not o[1].startswith('.str'):
                        out.add(o[1])
    return {g for g in out if g in fn.mod.globs and g.startswith('ext_mpi_')}


if __name__ == '__main__':
    driver.run(main, 'P10', RULE)
