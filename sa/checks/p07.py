"""P07 the plan header written by the plan builders and the reduction tables."""
import re
from confwalk import *
import p08

RULE = ('Value analysis of the plan header: for every PARAMETER line the four plan builders print, the closed form of each printed value (over the MPI '
        'queries, the caller\'s arguments and the summarised count loops) equals the reference formula of the collective on a grid of configurations; '
        'flags are printed exactly in the configurations that ask for them; data type and operation select the matching DATA_TYPE and reduction opcode.')

N = p08.N
B = p08.B
ELEM = 4


class Unknown(Exception):
    pass


class Arr:
    """input array of the caller with sample contents"""

    def __init__(self, base, vals):
        self.base, self.vals = base, vals


class Val:
    """valuation used when closed forms are compared: Conf plus memory contents described by the summaries"""

    def __init__(self, cf, arrays, rank_col, cols, comm_col, R):
        self.cf = cf
        self.mem = {}
        self.iv = {}
        self.arrays = arrays
        self.cols, self.own, self.comm_col = cols, rank_col, comm_col
        self.R = R
        self.why = None

    def atom(self, a):
        if a[0] == 'iv':
            return self.iv.get(a)
        if a[0] == 'ld':
            ad = ev(a[2], self)
            if ad is None:
                return None
            if ad in self.mem:
                return self.mem[ad]
            for r in self.arrays:
                i = ad - r.base
                if i >= 0 and i % ELEM == 0 and i // ELEM < len(r.vals):
                    return r.vals[i // ELEM]
            return None
        if a[0] == 'call' and a in self.mem:
            return self.mem[a]
        return self.cf.atom(a)

    def factor(self, q):
        return 1 if q == self.own else 3 + 2 * q


def strval(m, e, V=None):
    s = single(e)
    while V is not None and s and s[0] == 'select':
        v = ev(s[1], V)
        if v is None:
            return None
        s = single(s[2] if v else s[3])
    if s and s[0] == 'glob':
        return m.cstring(s[1])
    return None


class Header:
    def __init__(self, m, V, bufs):
        self.m, self.V, self.bufs = m, V, bufs
        self.out = []        # ('txt', s) | ('val', int|None, expr, ins) | ('str', expr)

    def run(self, trace):
        for t in trace:
            if t[0] == 'loop':
                self.loop(t[1])
            elif t[0] == 'mst':
                self.store(t)
            elif t[0] == 'call':
                if p08.PASS.match(t[1]):
                    return True
                self.call(t)
        return False

    def store(self, t):
        V = self.V
        a = ev(t[1], V)
        if a is not None:
            V.mem[a] = ev(t[2], V)

    def call(self, t):
        V = self.V
        nm, args = t[1], t[2]
        if nm in ('sprintf', 'snprintf'):
            if p08.root_of(args[0]) not in self.bufs:
                return
            k = 1 if nm == 'sprintf' else 2
            f = strval(self.m, args[k], V)
            if f is None:
                raise Unknown('%s with a computed format' % nm)
            rest = list(args[k + 1:])
            for p in re.split(r'(%[a-z]+)', f):
                if p.startswith('%') and len(p) > 1:
                    x = rest.pop(0)
                    if p == '%s':
                        sv = strval(self.m, x, V)
                        self.out.append(('txt', sv) if sv is not None else ('str', x, t[4]))
                    else:
                        self.out.append(('val', ev(x, V), x, t[4]))
                elif p:
                    self.out.append(('txt', p))
        elif nm in ('strcpy', 'strcat', 'memcpy') or nm.startswith('llvm.memcpy'):
            if p08.root_of(args[0]) in self.bufs:
                f = strval(self.m, args[1], V)
                if f is not None:
                    self.out.append(('txt', f))
            elif nm == 'memcpy' or nm.startswith('llvm.memcpy'):
                self.copy(ev(args[0], V), ev(args[1], V), ev(args[2], V), lambda v: v)
        elif nm.startswith('llvm.memset'):
            a, n = ev(args[0], V), ev(args[2], V)
            if a is not None and n is not None and ev(args[1], V) == 0:
                for i in range(0, n, ELEM):
                    V.mem[a + i] = 0
        elif nm in ('PMPI_Allgather', 'MPI_Allgather') and ev(args[6], V) == V.comm_col:
            s, n, r, m2 = (ev(args[i], V) for i in (0, 1, 3, 4))
            if None in (s, n, r, m2):
                return
            vals = [self.rd(s + ELEM * i) for i in range(n)]
            for q in range(V.cols):
                for i in range(m2):
                    v = vals[i] if i < n else None
                    V.mem[r + ELEM * (q * m2 + i)] = None if v is None else v * V.factor(q)
        elif nm in ('PMPI_Allreduce', 'MPI_Allreduce') and ev(args[5], V) == V.comm_col:
            s, r, n = (ev(args[i], V) for i in (0, 1, 2))
            if None in (r, n):
                return
            if s is None or s < 1 << 30:
                s = r
            op = single(args[4])
            sm = bool(op) and op == ('glob', 'ompi_mpi_op_sum')
            for i in range(n):
                v = self.rd(s + ELEM * i)
                fs = [V.factor(q) for q in range(V.cols)]
                V.mem[r + ELEM * i] = None if v is None else v * (sum(fs) if sm else max(fs))

    def rd(self, a):
        V = self.V
        if a in V.mem:
            return V.mem[a]
        for r in V.arrays:
            i = a - r.base
            if i >= 0 and i % ELEM == 0 and i // ELEM < len(r.vals):
                return r.vals[i // ELEM]
        return None

    def copy(self, d, s, n, f):
        if None in (d, s, n):
            return
        tmp = [self.rd(s + i) for i in range(0, n, ELEM)]
        for i, v in enumerate(tmp):
            self.V.mem[d + ELEM * i] = v

    def loop(self, L):
        """evaluates the summary of a counted loop: closed forms of the induction variables, recurrences of the others"""
        V = self.V
        cur = {a: ev(x, V) for a, x in L.init.items()}
        its = L.iters
        n = ev(L.trip, V) if L.trip is not None else None
        saved = dict(V.iv)
        if n is None:
            # a search loop (terminated by the contents): printed values keep their symbolic form
            for a in L.init:
                V.iv[a] = None
            for y, tr, nw in its:
                for t in tr:
                    if t[0] == 'call' and t[1] == 'sprintf' and p08.root_of(t[2][0]) in self.bufs:
                        self.out.append(('scan', L, t))
            return
        n = max(0, n)
        if n > 4096:
            raise Unknown('trip count')
        for k in range(n):
            V.iv = dict(saved)
            V.iv.update(cur)
            pick = []
            for y, tr, nw in its:
                ok = True
                for t, cnd, truth in y.decisions[L.ndec:]:
                    v = ev(cnd, V)
                    if v is not None and t.op != 'switch' and bool(v) != bool(truth):
                        ok = False
                        break
                if ok:
                    pick.append((y, tr, nw))
            if len(pick) != 1:
                bufw = any(t[0] == 'call' and t[1] == 'sprintf' for _, tr, _ in pick for t in tr)
                if bufw:
                    raise Unknown('conditional output in a loop')
                for _, tr, nw in pick:
                    for t in tr:
                        if t[0] == 'mst':
                            a = ev(t[1], V)
                            if a is not None:
                                V.mem[a] = None
                cur = {a: None for a in cur}
                continue
            y, tr, nw = pick[0]
            self.run(tr)
            keep = {a: v for a, v in V.iv.items()}
            cur = {a: ev(nw[a], V) for a in cur}
        V.iv = dict(saved)
        V.iv.update(cur)


def parse(out):
    """[(name, values, instr)] of the PARAMETER lines"""
    lines, cur = [], []
    for o in out:
        if o[0] == 'txt':
            parts = o[1].split('\n')
            for i, p in enumerate(parts):
                if i:
                    lines.append(cur)
                    cur = []
                cur += [('w', x) for x in p.split()]
        else:
            cur.append(o)
    if cur:
        lines.append(cur)
    res = []
    for L in lines:
        if not L:
            continue
        if len(L) >= 2 and L[0] == ('w', 'PARAMETER') and L[1][0] == 'w':
            res.append((L[1][1], L[2:]))
        else:
            res.append((None, L))
    return res


TYPES = {'ompi_mpi_double': ('DOUBLE', 'OPCODE_REDUCE_SUM_DOUBLE', 8), 'ompi_mpi_long': ('LONG_INT', 'OPCODE_REDUCE_SUM_LONG_INT', 8),
         'ompi_mpi_float': ('FLOAT', 'OPCODE_REDUCE_SUM_FLOAT', 4), 'ompi_mpi_int': ('INT', 'OPCODE_REDUCE_SUM_INT', 4)}


def confs(name, deep):
    red = name == 'EXT_MPI_Reduce_init_native'
    shapes = []
    for r, c in ((1, 1), (2, 1), (1, 2), (3, 1), (2, 2), (2, 3)):
        for n in (1, 2, 3):
            shapes.append((r, c, n))
    if not deep:
        shapes = [s for s in shapes if s[2] != 2 or s[:2] in ((2, 1), (2, 2))]
    tys = list(TYPES)
    i = 0
    for r, c, n in shapes:
        for rank in sorted({0, r * n - 1, (r * n) // 2, min(1, r * n - 1)}):
            for crank in sorted({0, c - 1}):
                roots = (-1, 0, 2, -10, -12) if red else (-1, 0, 2) if 'Gatherv' in name else (0, 2) if 'Scatterv' in name else (None,)
                for root in roots:
                    for col in ((True, False) if c == 1 else (True,)):
                        i += 1
                        k = dict(rows=r, cols=c, nodes=n, rank=rank, colrank=crank, notrec=i % 2, alt=0, bit=i // 2 % 2, waitany=0,
                                 blocking=i // 3 % 2, nsock=1 + i % 3, padding=0, locmem=0, shmem_zero=1, copyin=3 + i % 4,
                                 factors=(1 << 46) if i % 5 else 0, root=root, datatype=tys[i % 4], column=col, inplace=i // 4 % 2, count=(17, 24, 1, 100)[i // 2 % 4])
                        if root is None:
                            del k['root']
                        yield k


def reference(name, k, counts, tsize, V):
    """expected header: name -> list of values ([] for a flag), None: must be absent"""
    r, c, n = k['rows'], k['cols'], k['nodes']
    node = k['rank'] // r
    red = name == 'EXT_MPI_Reduce_init_native'
    root = k.get('root')
    E = {'SOCKET': [node], 'NUM_SOCKETS': [n], 'SOCKET_RANK': [(k['rank'] % r) * c + k['colrank'] % c], 'SOCKET_ROW_SIZE': [r],
         'SOCKET_COLUMN_SIZE': [c], 'NODE_SOCKETS': [k['nsock']], 'BLOCKING': [] if k['blocking'] else None}
    if 'Gatherv' not in name:
        E['COPYIN_METHOD'] = [k['copyin']]
    fac = [V.factor(q) for q in range(c)] if k['column'] else [1]
    if red:
        E['ROOT'] = [root] if root >= 0 or root <= -10 else None
        E['COUNTS'] = [k['count'] * tsize * f for f in fac]
        E['BIT_IDENTICAL'] = [] if k['bit'] else None
        E['IN_PLACE'] = [] if k['inplace'] else None
    else:
        if 'Gatherv' in name:
            E['ROOT'] = [root] if root >= 0 else None
        elif 'Scatterv' in name:
            E['ROOT'] = [root]
        else:
            E['ROOT'] = None
        mine = [counts[node * r + j] for j in range(r)]
        E['IOCOUNTS'] = [mine[j] * f * tsize for j in range(r) for f in fac]
        E['MESSAGE_SIZE'] = [sum(counts[x * r:(x + 1) * r]) * tsize * sum(fac) for x in range(n)]
        E['COUNTS'] = [sum(counts[:n * r]) * tsize * f for f in fac]
        E['BIT_IDENTICAL'] = None
        E['IN_PLACE'] = None
    return E


COLL = {'EXT_MPI_Reduce_init_native': 'ALLREDUCE', 'EXT_MPI_Gatherv_init_native': 'ALLGATHERV', 'EXT_MPI_Scatterv_init_native': 'REDUCE_SCATTER',
        'EXT_MPI_Reduce_scatter_init_native': 'REDUCE_SCATTER'}
MOD = []
UNSUPPORTED = (('ompi_mpi_op_max', 'ompi_mpi_double'), ('ompi_mpi_op_prod', 'ompi_mpi_long'), ('ompi_mpi_op_min', 'ompi_mpi_int'),
               ('ompi_mpi_op_sum', 'ompi_mpi_char'), ('ompi_mpi_op_sum', 'ompi_mpi_short'), ('ompi_mpi_op_band', 'ompi_mpi_float'))


def refuse(c, m, name):
    """no plan is built for an operation that has no opcode"""
    short = name.replace('_init_native', '').replace('EXT_MPI_', '')
    for op, ty in UNSUPPORTED:
        for r, n in ((1, 2), (2, 2)):
            k = dict(rows=r, cols=1, nodes=n, rank=0, colrank=0, notrec=0, alt=0, bit=0, waitany=0, blocking=0, nsock=1, padding=0, locmem=0, shmem_zero=1,
                     copyin=3, factors=0, root=-1, datatype=ty, op=op, column=False)
            cf = p08.conf(name, k)
            for pt in CWalk(m.fns[name], cf).paths:
                bc = [t for t in pt['trace'] if t[0] == 'call' and t[1] == 'ext_mpi_generate_byte_code']
                c.ob(not bc, '%s:unsupported:%s:%s' % (short, op, ty), '%s: a plan is built for %s of %s, which has no reduction opcode (opcode given: %s)' % (
                    name, op, ty, show(bc[0][2][9]) if bc else ''))
            c.count('refusals')


def opcodes():
    """values of the reduction opcodes, from the header of the byte code"""
    out = {}
    import glob as G
    import os
    for h in G.glob(os.path.join(driver.REPO, 'include/*/*.h')):
        for L in open(h, errors='replace'):
            q = re.match(r'\s*#\s*define\s+(OPCODE_REDUCE_\w+)\s+(\d+)', L)
            if q:
                out[q.group(1)] = int(q.group(2))
    return out


def one(job):
    name, ks = job
    c = driver.Check('P07', RULE)
    m = MOD[0]
    fn = m.fns[name]
    R = B[name]
    short = name.replace('_init_native', '').replace('EXT_MPI_', '')
    ops = MOD[1]
    base_counts = [3, 5, 2, 7, 11, 4, 6, 9, 1, 8]

    def w(ins):
        return '%s:%s in %s' % (N, ins.line or 0, name)
    for k in ks:
        tsize = TYPES[k['datatype']][2]
        cf = p08.conf(name, k)
        for r in ('datatype', 'datatype2'):
            if r in R:
                cf.tsizes[R[r]] = tsize
        if k['inplace']:
            cf.params[R['sendbuf']] = cf.params[R['recvbuf']]
        counts = base_counts[:k['rows'] * k['nodes']]
        if 'count' in R:
            cf.params[R['count']] = k['count'] if name == 'EXT_MPI_Reduce_init_native' else counts[k['rank']]
        arrays = []
        if 'counts' in R:
            arrays.append(Arr(cf.params[R['counts']], counts))
        if R.get('factors') is not None:
            cf.params[R['factors']] = k['factors']
        if R['comm_col'] in cf.params and k['column']:
            cf.params[R['comm_col']] = 1 << 48
            cf.comms[R['comm_col']] = (k['cols'], k['colrank'])
        cf.params[R['groups']] = 1 << 47
        W = CWalk(fn, cf)
        ok = 0
        desc = ','.join('%s=%s' % (a, k[a]) for a in ('rows', 'cols', 'nodes', 'rank', 'colrank', 'root', 'inplace', 'blocking', 'bit') if a in k)
        for pt in W.paths:
            if pt['kind'] == 'exit':
                continue
            rv = ev(pt['ret'], cf) if pt['ret'] is not None else None
            if rv is not None and rv < 0:
                continue
            bufs = {p08.root_of(t[2][0]) for t in pt['trace'] if t[0] == 'call' and p08.PASS.match(t[1])} | {
                p08.root_of(t[2][1]) for t in pt['trace'] if t[0] == 'call' and p08.PASS.match(t[1])}
            V = Val(cf, arrays, k['colrank'], k['cols'], 1 << 48 if k['column'] else -5, R)
            H = Header(m, V, bufs)
            H.run(pt['trace'])
            ok += 1
            c.count('headers')
            got = {}
            for nm, vals in parse(H.out):
                if nm is None:
                    c.ob(False, short + ':text', '%s: the plan header contains a line that is no PARAMETER line' % name)
                    continue
                c.ob(nm not in got or nm == 'ASCII', short + ':' + nm + ':twice', '%s: PARAMETER %s is printed twice' % (name, nm))
                got[nm] = vals
            E = reference(name, k, counts, tsize, V)
            for nm, ex in sorted(E.items()):
                key = short + ':' + nm
                if ex is None:
                    c.ob(nm not in got, key + ':extra', '%s: PARAMETER %s is printed for a configuration that does not ask for it (%s)' % (name, nm, desc))
                    continue
                if not c.ob(nm in got, key + ':missing', '%s: PARAMETER %s is not printed (%s)' % (name, nm, desc)):
                    continue
                vals = [v[1] if v[0] == 'val' else v for v in got[nm]]
                lines = sorted({v[3].line for v in got[nm] if v[0] == 'val'})
                c.ob(vals == ex, key + ':value', '%s:%s in %s: PARAMETER %s is not what the collective asks for: %s instead of %s (%s)' % (
                    N, lines[0] if lines else 0, name, nm, vals, ex, desc))
                c.count('values', len(ex))
            # collective, data type
            t = [x[1] for x in got.get('COLLECTIVE_TYPE', []) if x[0] == 'w']
            c.ob(t == [COLL[name]], short + ':COLLECTIVE_TYPE', '%s: COLLECTIVE_TYPE is %s' % (name, t))
            t = [x[1] for x in got.get('DATA_TYPE', []) if x[0] == 'w']
            c.ob(t == [TYPES[k['datatype']][0]], short + ':DATA_TYPE', '%s: DATA_TYPE is %s for %s' % (name, t, k['datatype']))
            t = got.get('NUM_PORTS', [])
            okp = False
            if len(t) == 1 and t[0][0] == 'str':
                s = single(t[0][1])
                for x in pt['trace']:
                    if x[0] == 'call' and x[1] == 'ext_mpi_print_ports_groups' and x[3] == t[0][1]:
                        okp = [single(a)[1] if single(a) and single(a)[0] == 'param' else None for a in x[2]] == [R['ports'], R['groups']]
            c.ob(okp, short + ':NUM_PORTS', '%s: NUM_PORTS is not the text of the ports and groups given' % name)
            if R.get('factors') is not None:
                f = got.get('COPYIN_FACTORS')
                if not k['factors']:
                    c.ob(f is None, short + ':COPYIN_FACTORS:extra', '%s: COPYIN_FACTORS printed without factors' % name)
                else:
                    okf = False
                    if f and len(f) == 1 and f[0][0] == 'scan':
                        L, t = f[0][1], f[0][2]
                        x = single(t[2][-1])
                        if x and x[0] == 'ld':
                            kk = L.coef(x[2])
                            okf = kk is not None and kk[1] == 4 and ev(kk[0], cf) == k['factors']
                        okf = okf and strval(m, t[2][1]) == ' %d' and len(L.iters) == 1
                    c.ob(okf, short + ':COPYIN_FACTORS:value', '%s: COPYIN_FACTORS is not the list of factors given' % name)
            if name == 'EXT_MPI_Reduce_init_native':
                ms = [v[1] if v[0] == 'val' else None for v in got.get('MESSAGE_SIZE', [])]
                tot = sum(E['COUNTS'])
                key = short + ':MESSAGE_SIZE'
                c.ob(len(ms) == k['nodes'], key + ':count', '%s: MESSAGE_SIZE has %d entries for %d nodes' % (name, len(ms), k['nodes']))
                c.ob(None not in ms and sum(ms) == tot, key + ':sum', '%s: the message sizes %s do not add up to the %d bytes of the operation (%s)' % (name, ms, tot, desc))
                c.ob(None in ms or all(v >= 0 and v % tsize == 0 for v in ms), key + ':unit', '%s: message sizes %s split an element of %d bytes' % (name, ms, tsize))
                c.count('values', len(ms))
            # reduction opcode
            want = None
            if 'op' in R:
                want = ops.get(TYPES[k['datatype']][1])
            if want is not None:
                for x in pt['trace']:
                    if x[0] == 'call' and x[1] == 'ext_mpi_generate_byte_code':
                        v = ev(x[2][9], cf)
                        c.ob(v == want, short + ':opcode:' + k['datatype'], '%s: reduction opcode %s instead of %s (%s) for MPI_SUM of %s' % (
                            w(x[4]), v, want, TYPES[k['datatype']][1], k['datatype']))
                        c.count('opcodes')
        c.ob(ok > 0, short + ':none', '%s: no configuration path builds a plan (%s)' % (name, desc))
        c.count('configurations')
    return c.viol, c.counts, c.oblig


def main(c):
    deep = c.tier == 'thorough'
    m = driver.compile_one(N, tag='p07')
    MOD.append(m)
    MOD.append(opcodes())
    jobs = []
    for name in B:
        if name not in m.fns:
            raise AnalysisError('%s: plan builder %s is gone' % (N, name))
        c.fn(name)
        if 'op' in B[name]:
            refuse(c, m, name)
        ks = list(confs(name, deep))
        n = max(1, len(ks) // 8 + 1)
        jobs += [(name, ks[i:i + n]) for i in range(0, len(ks), n)]
    seen = set()
    import multiprocessing as mp
    with mp.get_context('fork').Pool(8) as pool:
        for viol, counts, ob in pool.imap(one, jobs):
            for k, v in viol:
                if k not in seen:
                    seen.add(k)
                    c.violation(k, v)
            for k, v in counts.items():
                c.count(k, v)
            c.oblig += ob
    c.need('headers', 100)
    c.need('values', 1000)
    c.need('opcodes', 50)
    c.samples.append('%d configurations of %d plan builders' % (c.counts.get('configurations', 0), len(B)))


if __name__ == '__main__':
    driver.run(main, 'P07', RULE)
