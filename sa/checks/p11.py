"""P11 the shared memory barriers separate what is before them from what is behind them."""
import sys
import os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
import driver  # noqa: E402
from driver import AnalysisError  # noqa: E402
from protocol import *  # noqa: E402
from paths import FP  # noqa: E402

RULE = ('The loops that implement the socket and node barriers are summarised as recurrences over the LLVM IR (own store, partner slot, passing '
        'condition, counter); the summaries are evaluated for every number of partners up to 33 and every member: arrival of every member is known '
        'to every member when it leaves, nobody waits for a value that is never stored, values of earlier barriers never satisfy a later one, also '
        'across the wrap-around of the counter; members store only to their own slot, through volatile accesses; set-up gives all of them the same '
        'counters, zeroed and disjoint slot areas.')

EXEC = 'src/mpi/ext_mpi_native_exec.c'
BYTE = 'src/core/byte_code.c'
SHM = 'src/mpi/shmem.c'
NAT = 'src/mpi/ext_mpi_native.c'
SIZES = [1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 13, 16, 17, 24, 32, 33]
COUNTERS = [1, 6, 0x7ffffffd, 0x7fffffff, -2]
H, NODEPTR, CODE, IPX = 0x1000, 0x8000, 0x20000, 0x30000
SHMEMPTR = 0x9000
AREA = 1 << 20


class Machine:
    def __init__(self, c):
        self.mx = driver.compile_one(EXEC)
        self.I = Interp(self.mx, 'ext_mpi_exec_native')
        self.fn = self.I.fn
        if len(self.fn.params) != 3:
            raise AnalysisError('executor signature changed')
        self.outer = [f for f in self.I.fetch if 0 in self.I.opcodes(f)][0]
        self.F = {n: o for o, n, _ in self.mx.struct_fields('header_byte_code')}
        for k in ('barrier_counter_socket', 'barrier_counter_node', 'num_cores', 'num_sockets_per_node', 'socket_rank',
                  'barrier_shmem_socket', 'barrier_shmem_size', 'barrier_shmem_node'):
            if k not in self.F:
                raise AnalysisError('plan header has no field %s' % k)
        self.cache = {}
        self.plain = []

    def paths(self, op, mode):
        if (op, mode) not in self.cache:
            self.cache[op, mode] = opcode_paths(self.I, self.outer, op, mode, self.fn.params[2][1])
        return self.cache[op, mode]

    def run(self, op, mode, kind, n, r, c0, areas, arg=0, order=None):
        """(events, counter afterwards, other counter afterwards) of one member"""
        ps, A = self.paths(op, mode)
        F = self.F
        out = []
        for q, last in ps:
            mem = {H + F['barrier_counter_socket']: c0 if kind != 'node' else 77, H + F['barrier_counter_node']: c0 if kind == 'node' else 77,
                   H + F['num_cores']: n if kind != 'node' else 3, H + F['num_sockets_per_node']: n if kind == 'node' else 3,
                   H + F['socket_rank']: r if kind != 'node' else 2,
                   H + F['barrier_shmem_socket']: SLOT0, H + F['barrier_shmem_size']: AREA, H + F['barrier_shmem_node']: NODEPTR,
                   H + F.get('node_num_cores_row', 1 << 16): 5, H + F.get('node_num_cores_column', 1 << 16): 4, H + F.get('node_sockets', 1 << 16): 4,
                   CODE: op, CODE + 1: arg}
            for i in range(n):
                mem[NODEPTR + 8 * i] = (SLOT0 << 1) + areas(i, r, n) * (AREA << 4) + 2 * AREA
            X = Expander(mem, c0)
            X.env[('param', 0, self.fn.params[0][1])] = H
            X.env[('param', 1, self.fn.params[1][1])] = IPX
            at = single(A)
            X.env[at] = CODE
            try:
                X.run(q.trace)
            except Undecided:
                if X.contradicted(q.decisions):
                    continue
                raise
            ok, per = X.decide(q.decisions)
            if not ok:
                continue
            X.attach(per, 0)
            self.plain += X.plain
            out.append((X.events, X.mem[H + F['barrier_counter_node' if kind == 'node' else 'barrier_counter_socket']],
                        X.mem[H + F['barrier_counter_socket' if kind == 'node' else 'barrier_counter_node']]))
        return out


def know(seqs, c0):
    """seqs[r] = [('st', addr, rel value, barrier) | ('wait', addr, threshold, barrier)]: knowledge of arrivals.
    returns (set of (rank, barrier, missing ranks), stuck rank or None, stores)"""
    n = len(seqs)
    pos = [0] * n
    K = [{(r, 0)} for r in range(n)]         # (rank, barrier) arrivals known
    hist = {}                                # addr -> [(value, knowledge)]
    miss = set()
    final = {}
    progress = True
    nb = 1 + max([e[3] for s in seqs for e in s], default=0)
    cur = [0] * n

    def leave(r, b):
        m = {x for x in range(n) if (x, b) not in K[r]}
        if m:
            miss.add((r, b, tuple(sorted(m))))
        K[r].add((r, b + 1))
    while progress:
        progress = False
        for r in range(n):
            while pos[r] < len(seqs[r]):
                e = seqs[r][pos[r]]
                while cur[r] < e[3]:
                    leave(r, cur[r])
                    cur[r] += 1
                if e[0] == 'st':
                    hist.setdefault(e[1], []).append((e[2], frozenset(K[r])))
                    final[e[1]] = e[2]
                else:
                    # the least that is known: the first store of a sufficient value
                    got = None
                    for v, k in hist.get(e[1], ()):
                        if v >= e[2]:
                            got = k
                            break
                    if got is None:
                        break
                    K[r] |= got
                pos[r] += 1
                progress = True
    stuck = [r for r in range(n) if pos[r] < len(seqs[r])]
    if not stuck:
        for r in range(n):
            while cur[r] < nb:
                leave(r, cur[r])
                cur[r] += 1
    return miss, stuck, final, hist


def build(c, M, op, mode, kind, n, c0, areas, where, nbar=2):
    """two consecutive barriers of all members"""
    seqs = []
    ctr = []
    own = {}
    for r in range(n):
        seq = []
        cc = c0
        for b in range(nbar):
            res = M.run(op, mode, kind, n, r, s32(cc), areas)
            if len(res) != 1:
                c.ob(False, '%s:paths' % kind, '%s: %s barrier of %d members: %s' % (where, kind, n, 'a member never passes it' if not res else 'what a member does is not determined'))
                return None
            evs, after, other = res[0]
            base = cc - c0
            if other != 77:
                c.ob(False, '%s:counter' % kind, '%s: the %s barrier changes the counter of the other barrier' % (where, kind))
                return None
            for e in evs:
                if e[0] == 'st':
                    seq.append(('st', e[1], base + s32(e[2] - s32(cc)), b))
                    own.setdefault(r, set()).add(e[1])
                elif e[0] == 'wait':
                    ok = sorted(e[2])
                    lo = min(ok)
                    mono = ok == list(range(lo, NEAR + 1)) and lo > -NEAR
                    if not c.ob(mono, '%s:condition' % kind,
                                '%s: wait of the %s barrier (%d members, counter %d) lets slot values pass that are %s ahead of the own counter; it must '
                                'pass for all values not behind it, also when the counter wraps around' % (where, kind, n, c0, brief(ok))):
                        return None
                    seq.append(('wait', e[1], base + lo, b))
            d = s32(after - s32(cc))
            cc += d
        seqs.append(seq)
        ctr.append(cc - c0)
    return seqs, ctr, own


def brief(ok):
    if not ok:
        return 'never'
    out = []
    s = p = ok[0]
    for x in ok[1:] + [None]:
        if x is None or x != p + 1:
            out.append('%d..%d' % (s, p) if s != p else '%d' % s)
            s = x
        p = x
    return ','.join(out)


def barrier(c, M, op, kind, areas, where):
    for mode in (2, 1, 0, 3):
        for n in SIZES:
            for c0 in (COUNTERS if n in (2, 3, 5, 8, 17) else COUNTERS[:1]):
                try:
                    z = build(c, M, op, mode, kind, n, c0, areas, where)
                except Undecided as e:
                    raise AnalysisError('%s barrier, mode %d: %s' % (kind, mode, e))
                c.count('valuations')
                if z is None:
                    return
                seqs, ctr, own = z
                c.count('events', sum(map(len, seqs)))
                miss, stuck, final, hist = know(seqs, c0)
                c.ob(not stuck, '%s:progress' % kind, '%s: %s barrier of %d members: member %s waits for a value nobody stores' % (where, kind, n, stuck[:1]))
                if not stuck:
                    ms = sorted(miss)[:1]
                    c.ob(not miss, '%s:arrival' % kind, '%s: %s barrier of %d members: %s' % (
                        where, kind, n, 'member %d leaves barrier %d without knowing that members %s have arrived' % (ms[0][0], ms[0][1] + 1, list(ms[0][2])) if ms else ''),
                        sample='%s barrier mode %d, %d members, counter %d: every member knows of every arrival' % (kind, mode, n, c0))
                c.ob(len(set(ctr)) == 1, '%s:counters' % kind, '%s: %s barrier of %d members: the counters of the members differ afterwards' % (where, kind, n))
                # the value last stored is the highest: a partner that still waits sees it
                for a, v in final.items():
                    c.ob(v == max(x for x, _ in hist[a]), '%s:final' % kind, '%s: %s barrier of %d members: a slot ends with a lower value than was stored before' % (where, kind, n))
                # first barrier on a zeroed slot: no threshold is met by the initial contents
                if c0 == 1:
                    t = [e[2] + c0 for s in seqs for e in s if e[0] == 'wait']
                    c.ob(not t or min(t) >= 1, '%s:initial' % kind, '%s: %s barrier of %d members: a wait is satisfied by a slot nobody has stored to' % (where, kind, n))
                seen = {}
                for r, s in own.items():
                    c.ob(len(s) == 1, '%s:own' % kind, '%s: %s barrier of %d members: member %d stores to %d different slots' % (where, kind, n, r, len(s)))
                    for a in s:
                        hit = [x for x in seen if abs(x - a) < 4 and seen[x] != r]
                        c.ob(not hit, '%s:slots' % kind, '%s: %s barrier of %d members: members %s and %d store to the same slot' % (where, kind, n, [seen[x] for x in hit[:1]], r))
                        seen[a] = r
                        lo = (a - SLOT0) if kind != 'node' else (a - (SLOT0 << 1)) % (AREA << 4)
                        want = AREA if kind != 'node' else 2 * AREA
                        c.ob(want <= lo < want + 64 * max(n, 3), '%s:area' % kind, '%s: %s barrier of %d members: member %d stores outside the area of the barrier' % (where, kind, n, r))


def atomic(c, M):
    """set stores the counter to a slot and leaves the counter, wait waits for it and advances the counter by one"""
    F = M.F
    for n in (2, 3, 8):
        for arg in range(n):
            for c0 in COUNTERS:
                for r in (0, n - 1):
                    for mode in (0, 1, 2, 3):
                        slot = SLOT0 + AREA + 64 * arg
                        for op in (7, 8):
                            res = M.run(op, mode, 'socket', n, r, c0, lambda i, r, n: i, arg)
                            if not c.ob(len(res) == 1, 'op%d:paths' % op, '%s: what instruction %d does is not determined' % (EXEC, op)):
                                return
                            evs, after, other = res[0]
                            st = [e for e in evs if e[0] == 'st']
                            wt = [e for e in evs if e[0] == 'wait']
                            c.ob(other == 77, 'op%d:other' % op, '%s: instruction %d changes the counter of the node barrier' % (EXEC, op))
                            if op == 7:
                                ok = len(st) >= 1 and all(e[1] == slot and e[2] == s32(c0) for e in st) and not wt and after == s32(c0)
                                c.ob(ok, 'op7:set', '%s: setting slot %d with counter %d stores %s and leaves the counter at %d' % (
                                    EXEC, arg, c0, [(e[1] - SLOT0 - AREA, e[2]) for e in st], after))
                            else:
                                ok = bool(wt) and all(e[1] == slot and e[2] == frozenset(range(0, NEAR + 1)) for e in wt) and not st and after == s32(c0 + 1)
                                c.ob(ok, 'op8:wait', '%s: waiting for slot %d with counter %d: looks at %s, leaves the counter at %d' % (
                                    EXEC, arg, c0, [(e[1] - SLOT0 - AREA, brief(sorted(e[2]))) for e in wt], after))
                            c.count('atomic_valuations')


class Atoms:
    def __init__(self, f):
        self.f = f

    def atom(self, a):
        return self.f(a)


def header_setup(c):
    """offsets of the slot areas and start values of the counters, as functions of M (start of the barrier region) and B"""
    mb = driver.compile_one(BYTE)
    fn = mb.fns.get('ext_mpi_generate_byte_code')
    if fn is None or len(fn.params) < 9:
        raise AnalysisError('ext_mpi_generate_byte_code is gone')
    c.fn('ext_mpi_generate_byte_code')
    S = Sem(fn)
    shm, mp, bp = (('param', k, fn.params[k][1]) for k in (0, 6, 7))
    got = {}

    def val(e):
        seg = [None]

        def f(a):
            if a == mp:
                return 10 ** 9
            if a == bp:
                return 10 ** 5
            if a[0] == 'ld':
                d = add(a[2], atom(shm), -1)
                if is_c(d):
                    seg[0] = d[1]
                    return 0
                if any(x == shm for x in subterms(a[2]) if isinstance(x, tuple)):
                    seg[0] = d
                    return 0
            return None
        v = cev(aslin(e), Atoms(f))
        return v, seg[0]
    for i in fn.instrs():
        if i.op != 'store':
            continue
        t = mb.tbaa_field(i)
        e = aslin(S.val(i.ops[0]))
        if t and t[0] == 'header_byte_code':
            got.setdefault(t[1], []).append((e, i))
            continue
        v, seg = val(e)
        if v is not None and seg is not None and not is_c(e):
            got.setdefault('[]', []).append((e, i))
    out = {}
    for k in ('barrier_counter_socket', 'barrier_counter_node'):
        for e, i in got.get(k, []):
            c.ob(is_c(e) and 1 <= e[1] < 1 << 30, k, '%s: the counter starts at %s, not at a positive constant' % (fn.where(i), show(e)))
            out.setdefault(k, set()).add(e[1] if is_c(e) else None)
        c.ob(len(out.get(k, ())) == 1, k + ':set', '%s: %s is not initialised to one value' % (BYTE, k))
    sz = got.get('barrier_shmem_size', [])
    sizes = {val(e)[0] for e, i in sz}
    if None in sizes or len(sizes) != 1:
        raise AnalysisError('barrier_shmem_size is not determined')
    sz = sizes.pop()
    soc = [(val(e), i) for e, i in got.get('barrier_shmem_socket', []) if not is_c(e)]
    nod = [(val(e), i, aslin(S.val(i.ops[1]))) for e, i in got.get('[]', [])]
    if not soc or not nod or any(v[0] is None for v, i in soc):
        raise AnalysisError('the slot areas are not derived from the shared memory segments')
    for (v, seg), i in soc:
        c.ob(seg == 0, 'socket:segment', '%s: the socket barrier does not use the own shared memory segment' % fn.where(i))
    for (v, seg), i, ad in nod:
        # entry k of the pointer array belongs to entry k of the segment array
        d = add(ad, aslin(seg) if isinstance(seg, tuple) else C(seg), -1)
        same = single(d) is not None
        c.ob(same, 'node:segments', '%s: entry of the node barrier does not belong to the shared memory segment of the same index' % fn.where(i))
    M, B = 10 ** 9, 10 ** 5
    so = {v[0] + sz - M for v, i in soc}
    no = {v[0] - M for v, i, ad in nod}
    c.count('area_definitions', len(soc) + len(nod))
    if len(so) != 1 or len(no) != 1:
        c.ob(False, 'areas', '%s: the slot areas are not the same on all paths' % BYTE)
        return None
    so, no = so.pop(), no.pop()
    # as multiples of B
    return so / B, no / B


def init_setup(c, areas):
    """the caller reserves, zeroes and passes on one region that holds both areas"""
    mods = driver.compile_one(NAT)
    ncalls = 0
    for fn in mods.fns.values():
        cs = [i for i in fn.instrs() if i.op == 'call' and i.extra in ('ext_mpi_setup_shared_memory', 'ext_mpi_generate_byte_code')]
        gen = [i for i in cs if i.extra.endswith('byte_code')]
        setup = [i for i in cs if i.extra.endswith('memory')]
        if not gen:
            continue
        c.fn(fn.name)
        S = Sem(fn)
        if not setup:
            raise AnalysisError('%s builds a program without shared memory' % fn.name)
        for g in gen:
            for q in setup:
                ncalls += 1
                eB, eM, eZ, fill = (aslin(S.val(o)) for o in (g.ops[7], g.ops[6], q.ops[11], q.ops[10]))
                size = q.ops[6]
                c.ob(fill == C(0), 'zero', '%s: the barrier slots are filled with %s instead of zero' % (fn.where(q), show(fill)))
                leaves = set()

                def coll(e):
                    if e[0] == 'lin':
                        for a, k in e[2]:
                            coll(a)
                    elif e[0] in ('select', 'cmp', 'mul', 'sdiv', 'srem', 'and', 'or', 'not', 'shl', 'udiv', 'urem', 'ashr', 'lshr', 'xor'):
                        for x in e[1:]:
                            if isinstance(x, tuple):
                                coll(x)
                    else:
                        leaves.add(e)
                for e in (eB, eM, eZ):
                    coll(e)
                xa = [a for a in leaves if a[0] == 'ld' and a[2] == aslin(S.val(size))]
                if len(xa) != 1:
                    raise AnalysisError('%s: the start of the barrier region is not derived from the size of the segment' % fn.name)
                prm = {('param', k, n): n for k, (t, n) in enumerate(fn.params)}
                for n, cr, cc in ((1, 1, 1), (1, 4, 1), (2, 4, 1), (4, 2, 1), (1, 2, 3), (2, 3, 2), (7, 1, 1), (16, 4, 1), (2, 64, 1), (16, 1, 2)):
                    free = {}
                    cores = [q.ops[3], q.ops[5], q.ops[7]]
                    m = {single(aslin(S.val(o))): v for o, v in zip(cores, (cr, cc, n))}
                    X = 10 ** 8

                    def f(a):
                        if a in m:
                            return m[a]
                        if a == xa[0]:
                            return X
                        return free.setdefault(a, 5) if a in leaves else None
                    B, M, Z = (cev(e, Atoms(f)) for e in (eB, eM, eZ))
                    if None in (B, M, Z):
                        raise AnalysisError('%s: size of the barrier region is not determined' % fn.name)
                    so, no = areas[0] * B, areas[1] * B
                    need = 64 * cr * cc
                    w = fn.where(g)
                    c.count('region_valuations')
                    c.ob(X - Z <= M, 'region:zeroed', '%s: %d sockets with %dx%d cores: the barrier region starts %d bytes before the zeroed part of the segment' % (w, n, cr, cc, X - Z - M))
                    for nm, o in (('socket', so), ('node', no)):
                        c.ob(o >= 0 and M + o + need <= X, 'region:%s' % nm, '%s: %d sockets with %dx%d cores: slots of the %s barrier lie outside the barrier region' % (w, n, cr, cc, nm))
                    c.ob(abs(so - no) >= need, 'region:overlap', '%s: %d sockets with %dx%d cores: the slots of the two barriers overlap' % (w, n, cr, cc))
    c.need('region_valuations', 10)


def segments(c):
    """set-up of the shared memory segments; returns areas(k, s, n): segment that member s of n reaches as entry k"""
    ms = driver.compile_one(SHM)
    fn = ms.fns.get('ext_mpi_setup_shared_memory')
    if fn is None or len(fn.params) < 12:
        raise AnalysisError('ext_mpi_setup_shared_memory is gone')
    c.fn('ext_mpi_setup_shared_memory')
    P = FP(fn, limit=60000)
    pr = [('param', k, n) for k, (t, n) in enumerate(fn.params)]
    comm_row, cores, comm_col, ccores, size, nseg, pids, pshm, pfill, pnum = (pr[k] for k in (2, 3, 4, 5, 6, 7, 8, 9, 10, 11))
    good = [p for p in P.paths if p['kind'] == 'ret' and p['ret'] is not None and is_c(p['ret']) and p['ret'][1] >= 0]
    if not good:
        raise AnalysisError('ext_mpi_setup_shared_memory never succeeds')
    S = P.W.sem
    w0 = SHM
    # rank variables
    rv = {}
    for i in fn.instrs():
        if i.op == 'call' and i.extra in ('MPI_Comm_rank', 'PMPI_Comm_rank'):
            cm = single(aslin(S.val(i.ops[0])))
            rv[aslin(S.val(i.ops[1]))] = 'row' if cm == comm_row else 'col'
    MAP = {}
    done = set()
    for p in good:
        Ls = [k for k, t in enumerate(p['trace']) if t[0] == 'loop']
        key = tuple((p['trace'][k][1].header.name) for k in Ls)
        for withcol in (True, False):
            for n, cr, cc in ((1, 2, 1), (2, 1, 1), (2, 2, 1), (3, 1, 1), (3, 2, 1), (4, 3, 1), (2, 2, 2), (8, 1, 1)):
                if not withcol and cc != 1:
                    continue
                creators = {}
                for row in range(cr * n):
                    for col in range(cc):
                        base = {cores: cr, ccores: cc, nseg: n, comm_row: 100, comm_col: 101 if withcol else 0}

                        def mk(i, iv):
                            def f(a):
                                if a in base:
                                    return base[a]
                                if a in iv:
                                    return i
                                if a[0] == 'ld' and a[2] in rv:
                                    # another node before this one
                                    return row + cr * n if rv[a[2]] == 'row' else col
                                if a[0] == 'glob' and 'comm_null' in str(a):
                                    return 0
                                return None
                            return f
                        feas = True
                        for t, cnd, truth in p['path'].decisions:
                            if not isinstance(truth, bool):
                                continue
                            v = cev(cnd, Atoms(mk(0, {})))
                            if v is not None and bool(v) != truth:
                                feas = False
                                break
                        if not feas:
                            continue
                        kmap = {}
                        for pos in Ls:
                            L = p['trace'][pos][1]
                            ivs = {a for a, s in L.step.items() if s == 1 and L.init[a] == C(0)}
                            if not ivs:
                                continue
                            after = any(t[0] == 'call' and t[1] in ('ext_mpi_node_barrier_mpi', 'MPI_Barrier', 'PMPI_Barrier') for t in p['trace'][pos + 1:])
                            for i in range(n):
                                f = Atoms(mk(i, ivs))
                                for x, tr, nw in L.iters:
                                    bad = False
                                    for t, cnd, truth in x.decisions[L.ndec:]:
                                        if isinstance(truth, bool):
                                            v = cev(cnd, f)
                                            if v is not None and bool(v) != truth:
                                                bad = True
                                                break
                                    if bad:
                                        continue
                                    c.count('segment_iterations')
                                    iteration(c, fn, tr, f, i, n, cr, cc, row, col, (size, pids, pshm, pfill, pnum), kmap, creators, after, w0)
                        if kmap:
                            s = row // cr
                            for i in range(n):
                                ks = kmap.get(i, set())
                                if not c.ob(len(ks) == 1 and 0 <= min(ks) < n, 'segment:entry', '%s: segment %d of %d is attached as entries %s by a process of socket %d' % (w0, i, n, sorted(ks), s)):
                                    return None
                            inv = {min(v): k for k, v in kmap.items()}
                            if not c.ob(len(inv) == n, 'segment:distinct', '%s: two segments of %d are attached as the same entry' % (w0, n)):
                                return None
                            c.ob(inv.get(0) == s, 'segment:own', '%s: entry 0 of a process of socket %d of %d is segment %s' % (w0, s, n, inv.get(0)))
                            for k, i in inv.items():
                                o = MAP.setdefault((k, s, n), i)
                                c.ob(o == i, 'segment:same', '%s: entry %d of socket %d of %d is segment %d or %d' % (w0, k, s, n, o, i))
                for i, who in creators.items():
                    fl = isinstance(i, tuple)
                    c.ob(len(who) == 1, 'segment:filler' if fl else 'segment:creator', '%s: segment %s of %d (%d cores per socket) is %s by the processes %s of the node' % (
                        w0, i[1] if fl else i, n, cr * cc, 'initialised' if fl else 'created', sorted(who)))
    c.need('segment_iterations', 20)
    if not MAP:
        raise AnalysisError('the attachment of the shared memory segments was not found')
    # closed form: entry k of socket s is segment s + k or s - k
    up = all(i == (s + k) % n for (k, s, n), i in MAP.items())
    down = all(i == (s - k) % n for (k, s, n), i in MAP.items())
    if up:
        return lambda k, s, n: (s + k) % n
    if down:
        return lambda k, s, n: (s - k) % n
    return lambda k, s, n: MAP.get((k, s, n), 0)


def iteration(c, fn, tr, f, i, n, cr, cc, row, col, par, kmap, creators, after, w0):
    size, pids, pshm, pfill, pnum = par
    created = None
    attach = None
    bc = []
    for k, t in enumerate(tr):
        if t[0] == 'call':
            if t[1] == 'shmget':
                created = k
                creators.setdefault(i, set()).add((row, col))
            elif t[1] in ('MPI_Bcast', 'PMPI_Bcast'):
                r = cev(aslin(t[2][3]), f)
                bc.append((k, r, t))
            elif t[1] == 'shmat':
                fl = cev(aslin(t[2][2]), f)
                attach = (k, t[3], fl, t)
                if created is not None and n * cr * cc > 1:
                    c.ob(any(b[0] > created for b in bc if b[0] < k), 'segment:announce', '%s: the identifier of a new segment is not passed on before it is attached' % fn.where(t[4]))
                if attach and not bc and cr * n > 1:
                    c.ob(False, 'segment:announce', '%s: a segment is attached without its identifier having been received' % fn.where(t[4]))
            elif 'memset' in t[1]:
                a, v, ln = (aslin(x) for x in t[2][:3])
                ld = [x for x, kk in a[2] if kk == 1 and x[0] == 'ld' and any(y == pshm for y in subterms(x) if isinstance(y, tuple))] if a[0] == 'lin' else []
                szl = [x for x, kk in a[2] if kk == 1 and x[0] == 'ld' and x[2] == atom(size)] if a[0] == 'lin' else []
                rest = add(add(a, atom(ld[0]), -1), atom(szl[0]), -1) if ld and szl else None
                c.ob(rest is not None and add(rest, ln) == C(0) and ln == atom(pnum), 'segment:fill-range',
                     '%s: the part of the segment that is initialised is not its last numfill bytes' % fn.where(t[4]))
                c.ob(v == atom(pfill), 'segment:fill', '%s: the segment is not initialised with the requested value' % fn.where(t[4]))
                c.ob(after or any(u[0] == 'call' and u[1] in ('ext_mpi_node_barrier_mpi', 'MPI_Barrier', 'PMPI_Barrier') for u in tr[k + 1:]),
                     'segment:fill-published', '%s: processes may use the segment before it is initialised' % fn.where(t[4]))
                c.ob((row // cr) == i, 'segment:fill-own', '%s: a process of socket %d initialises segment %d, which it may only read' % (fn.where(t[4]), row // cr, i))
                creators.setdefault(('fill', i), set()).add((row, col))
    for t in tr:
        if t[0] == 'mst':
            a = t[1]
            ld = [x for x, kk in a[2] if kk == 1 and x[0] == 'ld' and x[2] == atom(pshm)] if a[0] == 'lin' else []
            if not ld or is_c(aslin(t[2])):
                continue
            off = cev(add(a, atom(ld[0]), -1), f)
            if off is None:
                raise AnalysisError('entry of a shared memory segment is not determined')
            kmap.setdefault(i, set()).add(off // 8)
            v = single(aslin(t[2]))
            if attach is not None and aslin(t[2]) == aslin(attach[1]):
                if off == 0:
                    c.ob(attach[2] == 0, 'segment:writable', '%s: the own segment is attached read-only' % fn.where(t[3]))
    if created is not None:
        for k, r, t in bc:
            if k > created and r is not None:
                c.ob(r in (row % (cr * n), col), 'segment:root', '%s: the identifier created by process %d of the node is broadcast from process %d' % (fn.where(t[4]), row, r))


def main(c):
    M = Machine(c)
    c.fn('ext_mpi_exec_native')
    ops = M.I.opcodes(M.outer)
    for o in (5, 6, 7, 8):
        if o not in ops:
            raise AnalysisError('executor has no case for instruction %d' % o)

    def where(o):
        ps, _ = M.paths(o, 2)
        for q, last in ps:
            for t in q.trace:
                if t[0] == 'pst':
                    return M.fn.where(t[3])
                if t[0] == 'loop':
                    for x, tr, nw in t[1].iters:
                        for u in tr:
                            if u[0] in ('pst', 'pld'):
                                return M.fn.where(u[3])
        return EXEC
    areas = segments(c) or (lambda k, s, n: (s - k) % n)
    barrier(c, M, 5, 'socket', areas, where(5))
    barrier(c, M, 6, 'node', areas, where(6))
    atomic(c, M)
    seen = set()
    for i in M.plain:
        if i not in seen:
            seen.add(i)
            c.ob(False, 'volatile', '%s: barrier memory is accessed by an ordinary load or store, which the compiler may hoist out of the waiting loop' % M.fn.where(i))
    c.ob(not M.plain, 'volatile-all', 'ordinary accesses of barrier memory')
    ar = header_setup(c)
    if ar:
        init_setup(c, ar)
    generator(c)


def generator(c):
    """barriers among a part of the members, composed of set and wait instructions by the plan generator"""
    mr = driver.compile_one('src/core/reduce_copyin.c', keep=('local_barrier',), tag='lb')
    fn = mr.fns.get('local_barrier')
    if fn is None or len(fn.params) != 5:
        c.notes.append('no separate partial barrier in reduce_copyin.c')
        return
    en = enum_values(mr, 'eassembler_type')
    SET, WAIT = en['eset_socket_barrier'], en['ewait_socket_barrier']
    c.fn('local_barrier')
    ps = function_paths(fn)
    R = 0x4000

    def run(al, busy, ranks):
        out = []
        for q, last, kind in ps:
            if kind != 'ret':
                continue
            X = Expander({R + 4 * k: v for k, v in enumerate(ranks)}, 1)
            for k, v in ((0, al), (1, busy), (2, R), (3, 0x5000), (4, 0)):
                X.env[('param', k, fn.params[k][1])] = v
            try:
                X.run(q.trace)
            except Undecided:
                if X.contradicted(q.decisions):
                    continue
                raise
            ok, per = X.decide(q.decisions)
            if ok:
                out.append([e for e in X.events if e[0] == 'call'])
        if len(out) != 1:
            raise AnalysisError('local_barrier: %d paths for one configuration' % len(out))
        seq = []
        k = 0
        for e in out[0]:
            if not e[1].startswith('ext_mpi_write_assembler_line'):
                continue
            a = e[2]
            if SET not in a[3:4] and WAIT not in a[3:4]:
                raise AnalysisError('local_barrier emits another instruction')
            if a[3] == SET:
                seq.append(('st', a[4], k, 0))
            else:
                seq.append(('wait', a[4], k, 0))
                k += 1
        return seq, k
    w = fn.where(next(iter(fn.calls('ext_mpi_write_assembler_line'))))
    for final in (False, True):
        for m in (1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17):
            for al in {m, m + 1, 2 * m, m + 3, 20}:
                if al < m:
                    continue
                seqs, ks = [], set()
                for r in range(m):
                    z, k = run(-al if final else al, m, [(i + r) % m for i in range(m)])
                    seqs.append(z)
                    ks.add(k)
                    c.ob(all(e[1] == r for e in z if e[0] == 'st'), 'partial:own', '%s: member %d of %d sets the slot of another member' % (w, r, m))
                idle, k = run(-al, -m, [99] * 20) if final else run(al, 0, [99] * 20)
                ks.add(k)
                c.count('partial_valuations')
                c.ob(all(e[1] == 99 for e in idle), 'partial:idle', '%s: a process that does not take part waits for another one' % w)
                c.ob(len(ks) == 1, 'partial:counters', '%s: partial barrier of %d out of %d: processes wait %s times, their counters drift apart' % (w, m, al, sorted(ks)))
                miss, stuck, fin, hist = know(seqs, 1)
                c.ob(not stuck, 'partial:progress', '%s: partial barrier of %d out of %d: member %s waits for a value nobody stores' % (w, m, al, stuck[:1]))
                ms = sorted(miss)[:1]
                c.ob(not miss, 'partial:arrival', '%s: partial barrier of %d out of %d: %s' % (
                    w, m, al, 'member %d leaves without knowing that members %s have arrived' % (ms[0][0], list(ms[0][2])) if ms else ''))


if __name__ == '__main__':
    driver.run(main, "P11", RULE)
