"""P08 the pass pipeline of the plan builders."""
import re
from confwalk import *

RULE = ('Typestate over the plan buffers of the four plan builders, per configuration (constants of the configuration propagated along all paths): every '
        'pass and every reader takes the buffer written last, writes another one, and is followed by a failing return when it reports failure; the '
        'passes a configuration needs all run, in order, and the passes that are only valid in other configurations do not.')

N = 'src/mpi/ext_mpi_native.c'
PASS = re.compile(r'^ext_mpi_(generate_(?!byte_code)\w+|clean_barriers|messages_shared_memory)$')
G = 'ext_mpi_generate_'
# positions of the roles in the builders' parameter lists
B = {
    'EXT_MPI_Reduce_init_native': dict(sendbuf=0, recvbuf=1, count=2, datatype=3, op=4, root=5, comm_row=6, cores_row=7, comm_col=8, cores_col=9,
                                       ports=10, groups=11, copyin=12, factors=13, alt=14, bit=15, waitany=16, notrec=17, blocking=18, nsock=19,
                                       shmem_zero=20, locmem=21, padding=22),
    'EXT_MPI_Gatherv_init_native': dict(sendbuf=0, count=1, datatype=2, recvbuf=3, counts=4, displs=5, datatype2=6, root=7, comm_row=8, cores_row=9,
                                        comm_col=10, cores_col=11, ports=12, groups=13, alt=14, notrec=15, blocking=16, nsock=17, shmem_zero=18,
                                        locmem=19),
    'EXT_MPI_Scatterv_init_native': dict(sendbuf=0, counts=1, displs=2, datatype=3, recvbuf=4, count=5, datatype2=6, root=7, comm_row=8, cores_row=9,
                                         comm_col=10, cores_col=11, ports=12, groups=13, copyin=14, alt=15, notrec=16, blocking=17, nsock=18,
                                         shmem_zero=19, locmem=20),
    'EXT_MPI_Reduce_scatter_init_native': dict(sendbuf=0, recvbuf=1, counts=2, datatype=3, op=4, comm_row=5, cores_row=6, comm_col=7, cores_col=8,
                                               ports=9, groups=10, copyin=11, factors=12, alt=13, notrec=14, blocking=15, nsock=16, shmem_zero=17,
                                               locmem=18, padding=19),
}
PTRS = ('sendbuf', 'recvbuf', 'counts', 'displs', 'ports', 'groups', 'comm_row')


def conf(name, k):
    """k: role -> value; nodes, cols"""
    R = B[name]
    P, comms = {}, {}
    for i, r in enumerate(PTRS):
        if r in R:
            P[R[r]] = (1 << 41) + (i << 20)
    P.setdefault(R['count'] if 'count' in R else -1, 8)
    P[R['cores_row']], P[R['cores_col']] = k['rows'], k['cols']
    rank = k.get('rank', 0)
    comms[R['comm_row']] = (k['rows'] * k['nodes'], rank)
    for r in ('root', 'alt', 'bit', 'waitany', 'notrec', 'blocking', 'nsock', 'shmem_zero', 'copyin', 'locmem', 'factors', 'padding'):
        if r in R and r in k:
            P[R[r]] = k[r]
    cf = Conf(P, comms, {R['datatype']: 8})
    if 'datatype2' in R:
        cf.tsizes[R['datatype2']] = 8
    P[R['datatype']] = cf.gl(k.get('datatype', 'ompi_mpi_double'))
    if 'datatype2' in R:
        P[R['datatype2']] = P[R['datatype']]
    if 'op' in R:
        P[R['op']] = cf.gl(k.get('op', 'ompi_mpi_op_sum'))
    if k.get('column', k['cols'] > 1):
        P[R['comm_col']] = 1 << 48
        comms[R['comm_col']] = (k['cols'], k.get('colrank', 0))
    else:
        P[R['comm_col']] = cf.gl('ompi_mpi_comm_null')
    return cf


def confs(name, deep):
    shapes = [(r, c, n) for r, c in ((1, 1), (2, 1), (1, 2)) for n in (1, 2, 3)]
    for (r, c, n) in shapes:
        for notrec in (0, 1):
            for root in ((-1, 0, 1, -10, -11) if name == 'EXT_MPI_Reduce_init_native' else (-1, 0, 1) if 'Gatherv' in name else (0, 1) if 'Scatterv' in name
                         else (None,)):
                opts = [(alt, 0, 0, 0, sock, 0, 0, 0) for alt in (0, 1) for sock in (1, 2)]
                opts += [(0, 1, 0, 0, 1, 0, 0, 0), (0, 0, 1, 0, 1, 0, 0, 0), (0, 0, 0, 1, 1, 0, 0, 0), (1, 0, 1, 0, 2, 1 << 44, 0, 0),
                         (0, 0, 0, 0, 1, 0, 1 << 45, 1), (1, 0, 0, 0, 2, 0, 0, 1)]
                if not deep:
                    opts = opts[:4] + opts[5:6] + opts[7:9]
                for alt, bit, wa, blk, sock, pad, loc, shz in opts:
                    k = dict(rows=r, cols=c, nodes=n, notrec=notrec, alt=alt, bit=bit, waitany=wa, blocking=blk, nsock=sock, padding=pad, locmem=loc,
                             shmem_zero=shz, copyin=1, factors=1 << 46, root=root)
                    if root is None:
                        del k['root']
                    yield k


def expected(name, k):
    """(mandatory passes in order, optional passes, groups that run together)"""
    red = name == 'EXT_MPI_Reduce_init_native'
    gat = 'Gatherv' in name
    sca = 'Scatterv' in name
    rs = 'Reduce_scatter' in name
    root = k.get('root', -1)
    cores = k['rows'] * k['cols']
    many = k['nodes'] > 1
    m = []
    opt = {G + 'dummy', 'ext_mpi_clean_barriers', G + 'parallel_memcpy', G + 'raw_code_merge'}
    pairs = [(G + 'rank_permutation_forward', G + 'rank_permutation_backward')]
    opt |= set(pairs[0])
    m.append(G + ('allreduce' if k['notrec'] or sca else 'allreduce_recursive'))
    if red and many and root >= 0 or gat and root >= 0:
        m.append(G + 'backward_interpreter')
    if red and many and root <= -10 or sca:
        m.append(G + 'forward_interpreter')
    if cores > 1:
        m.append(G + 'raw_code_tasks_node')
    elif gat or sca:
        opt.add(G + 'raw_code_tasks_node')
    if rs and not many:
        m.append(G + 'reduce_scatter_single_node')
    else:
        m.append(G + 'reduce_copyin')
        if many:
            m.append(G + 'raw_code')
        elif gat or sca:
            opt.add(G + 'raw_code')
        m.append(G + 'reduce_copyout')
    m += [G + 'buffer_offset', G + 'no_offset']
    if root > -10:
        opt |= {G + 'optimise_buffers', G + 'optimise_buffers2'}
    if red and k['nsock'] > 1:
        m += ['ext_mpi_messages_shared_memory', G + 'optimise_multi_socket']
    if red and k['waitany'] and not k['notrec']:
        opt.add(G + 'waitany')
    if k['alt']:
        opt.add(G + 'no_first_barrier')
    if cores == 1:
        opt.add(G + 'no_socket_barriers')
        if root > -10 and not k['notrec']:
            if red and k['nsock'] == 1 or rs:
                opt.add(G + 'use_sendbuf_recvbuf')
            if gat and root < 0:
                opt |= {G + 'use_recvbuf', G + 'swap_copyin'}
                pairs.append((G + 'use_recvbuf', G + 'swap_copyin'))
    return m, opt, pairs


PREC = [('rank_permutation_forward', 'GEN'), ('GEN', 'rank_permutation_backward'), ('rank_permutation_backward', 'backward_interpreter'),
        ('rank_permutation_backward', 'forward_interpreter'), ('rank_permutation_backward', 'raw_code_tasks_node'),
        ('rank_permutation_backward', 'reduce_copyin'), ('rank_permutation_backward', 'reduce_scatter_single_node')]
AFTER = ('optimise_buffers', 'optimise_buffers2', 'waitany', 'parallel_memcpy', 'raw_code_merge', 'clean_barriers', 'no_first_barrier',
         'no_socket_barriers', 'use_sendbuf_recvbuf', 'use_recvbuf', 'swap_copyin', 'messages_shared_memory')


def short(n):
    return n.replace(G, '').replace('ext_mpi_', '')


def root_of(e):
    """the allocation an address points into"""
    for x, k in aslin(e)[2]:
        if k == 1 and x[0] == 'call' and x[1] in ('malloc', 'calloc', 'realloc'):
            return x
    return None


class WithRes:
    def __init__(self, cf, r, v):
        self.cf, self.r, self.v = cf, r, v

    def atom(self, a):
        if a == self.r:
            return self.v
        return self.cf.atom(a)


_ca = {}


def call_atoms(cnd):
    x = _ca.get(id(cnd))
    if x is None or x[0] is not cnd:
        x = (cnd, frozenset(t for t in subterms(cnd) if t[0] == 'call'))
        _ca[id(cnd)] = x
    return x[1]


def decisions_on(path):
    """result of a call -> the decisions of the path that depend on it"""
    ix = {}
    for d in path.decisions:
        if d[0].op != 'switch':
            for x in call_atoms(d[1]):
                ix.setdefault(x, []).append(d)
    return ix


def infeasible_with(ix, cf, r, v):
    m = WithRes(cf, r, v)
    for t, cnd, truth in ix.get(r, ()):
        z = ev(cnd, m)
        if z is not None and bool(z) != bool(truth):
            return True
    return False


def check_path(c, name, k, cf, pt, w):
    R = B[name]
    latest, bufs = set(), set()
    tr = pt['trace']
    ix = decisions_on(pt['path'])
    for t in tr:
        if t[0] == 'call' and PASS.match(t[1]) and len(t[2]) >= 2:
            for a in t[2][:2]:
                r = root_of(a)
                if r is not None:
                    bufs.add(r)
    seq = []
    failed = None
    key = name.replace('_init_native', '').replace('EXT_MPI_', '')

    def step(evs, inloop):
        nonlocal latest, failed
        for t in evs:
            if t[0] == 'loop':
                L = t[1]
                for y, tr2, nw in L.iters:
                    step(tr2, True)
                continue
            if t[0] != 'call':
                continue
            nm, args, r, ins = t[1], t[2], t[3], t[4]
            if nm in ('sprintf', 'snprintf', 'strcpy', 'memcpy', 'strcat', 'memmove') or nm.startswith('llvm.mem'):
                d = root_of(args[0])
                if d in bufs:
                    s = root_of(args[1]) if len(args) > 1 else None
                    if s in bufs and s != d:
                        if s in latest:
                            latest.add(d)
                        else:
                            latest.discard(d)
                    else:
                        c.ob(not seq, key + ':late-header', '%s: the plan text is overwritten after passes have run' % w(ins))
                        latest = {d}
                continue
            if nm in ('ext_mpi_read_parameters',):
                s = root_of(args[0])
                c.ob(s in latest, key + ':read', '%s: %s reads a plan buffer that does not hold the current plan' % (w(ins), nm))
                c.count('readers')
                continue
            if nm == 'ext_mpi_generate_byte_code':
                c.ob(root_of(args[3]) in latest, key + ':install', '%s: the byte code is generated from a buffer that does not hold the final plan' % w(ins))
                c.count('readers')
                if failed is not None:
                    c.ob(False, key + ':' + short(failed) + ':ignored', '%s: a plan is installed although %s failed' % (w(ins), failed))
                seq.append(nm)
                continue
            if not PASS.match(nm):
                continue
            c.count('pass_calls')
            if failed is not None:
                c.ob(False, key + ':' + short(failed) + ':ignored', '%s: %s runs although %s failed' % (w(ins), nm, failed))
                failed = None
            seq.append(nm)
            c.ob(not inloop, key + ':' + short(nm) + ':loop', '%s: pass repeated in a loop' % w(ins))
            a, b = root_of(args[0]), root_of(args[1])
            c.ob(a is not None and args[0] == atom(a) and a in latest, key + ':' + short(nm) + ':input',
                 '%s: %s does not read the output of the preceding pass' % (w(ins), nm))
            c.ob(b is not None and args[1] == atom(b) and b != a, key + ':' + short(nm) + ':output', '%s: %s overwrites its own input' % (w(ins), nm))
            latest = {b}
            want = {G + 'forward_interpreter': ['comm_row'], G + 'backward_interpreter': ['comm_row'], 'ext_mpi_clean_barriers': ['comm_row', 'comm_col'],
                    'ext_mpi_messages_shared_memory': ['comm_row', 'cores_row', 'comm_col', 'cores_col']}.get(nm, [])
            for x, role in zip(args[2:], want):
                s = single(x)
                c.ob(bool(s) and s[0] == 'param' and s[1] == R[role], key + ':' + short(nm) + ':arg', '%s: %s is not given the caller\'s %s' % (w(ins), nm, role))
            rs = single(r) if r is not None else None
            if rs is not None:
                bad = [v for v in (-1, -2, -3, -10, -(1 << 31)) if not infeasible_with(ix, cf, rs, v)]
                good = [v for v in (0, 1, 1000, 1 << 20) if not infeasible_with(ix, cf, rs, v)]
                if bad and good:
                    c.ob(False, key + ':' + short(nm) + ':result', '%s: a failure of %s is not distinguished from success' % (w(ins), nm))
                elif bad:
                    failed = nm
            else:
                c.ob(False, key + ':' + short(nm) + ':result', '%s: the result of %s is dropped' % (w(ins), nm))
    step(tr, False)
    if failed is not None:
        rv = pt['ret']
        v = ev(rv, cf) if rv is not None else None
        c.ob(pt['kind'] == 'exit' or v is not None and v < 0, key + ':' + short(failed) + ':return', '%s: the builder does not fail although %s failed' % (
            name, failed))
        c.count('failing_paths')
        return False
    return seq


def check_seq(c, name, k, seq, cfs):
    key = name.replace('_init_native', '').replace('EXT_MPI_', '')
    m, opt, pairs = expected(name, k)
    names = [s for s in seq if s != 'ext_mpi_generate_byte_code']
    desc = ','.join('%s=%s' % (a, k[a]) for a in ('rows', 'cols', 'nodes', 'root', 'alt', 'waitany', 'notrec', 'nsock') if a in k)
    for s in m:
        c.ob(names.count(s) == 1, key + ':missing:' + short(s), '%s: pass %s runs %d times instead of once for configuration %s' % (name, s, names.count(s), desc))
    for s in sorted(set(names)):
        c.ob(s in m or s in opt, key + ':extra:' + short(s), '%s: pass %s runs for configuration %s where it is not valid' % (name, s, desc))
    for a, b in pairs:
        c.ob((a in names) == (b in names), key + ':pair:' + short(a), '%s: %s and %s do not run together for configuration %s' % (name, a, b, desc))
    pos = {}
    for i, s in enumerate(names):
        pos.setdefault(s, i)
    for a, b in zip(m, m[1:]):
        if a in pos and b in pos:
            c.ob(pos[a] < pos[b], key + ':order:' + short(b), '%s: %s runs before %s' % (name, b, a))
    gen = pos.get(m[0])
    for a, b in PREC:
        x = gen if a == 'GEN' else pos.get(G + a)
        y = gen if b == 'GEN' else pos.get(G + b)
        if x is not None and y is not None:
            c.ob(x < y, key + ':order:' + a, '%s: %s runs before %s' % (name, b, a))
    x = pos.get(G + 'no_offset')
    for b in AFTER:
        y = pos.get(G + b, pos.get('ext_mpi_' + b))
        if x is not None and y is not None:
            c.ob(x < y, key + ':order:' + b, '%s: %s runs before the buffer offsets are resolved' % (name, b))
    c.ob(seq[-1] == 'ext_mpi_generate_byte_code' if seq else False, key + ':noplan', '%s: no byte code is generated from the plan' % name)
    c.count('sequences')


# passes whose layout argument needs equal counts on all ranks
EQUAL = {'EXT_MPI_Gatherv_init_native': [G + 'use_recvbuf', G + 'swap_copyin'], 'EXT_MPI_Reduce_scatter_init_native': [G + 'use_sendbuf_recvbuf']}
MOD = []


def one(job):
    name, ks = job
    c = driver.Check('P08', RULE)
    fn = MOD[0].fns[name]

    def w(ins):
        return '%s:%s in %s' % (N, ins.line or 0, name)
    for k in ks:
        cf = conf(name, k)
        W = CWalk(fn, cf)
        ok = 0
        ran = {}
        for pt in W.paths:
            if pt['kind'] == 'exit':
                continue
            s = check_path(c, name, k, cf, pt, w)
            if s is False:
                continue
            rv = ev(pt['ret'], cf) if pt['ret'] is not None else None
            if rv is not None and rv < 0:
                continue
            check_seq(c, name, k, s, cf)
            ok += 1
            for x in EQUAL.get(name, ()):
                ran.setdefault(x, set()).add(x in s)
        if k['nodes'] > 1:
            for x, r in sorted(ran.items()):
                # the counts are unknown here: a pass that is valid for equal counts only may not run on every path
                c.ob(False in r, '%s:counts:%s' % (name.replace('_init_native', '').replace('EXT_MPI_', ''), short(x)),
                     '%s: %s runs whatever the counts are; it is valid only where every rank\'s count is the same' % (name, x))
                c.count('equal_count_passes')
        c.ob(ok > 0, name + ':none', '%s: no configuration path installs a plan (%s)' % (name, k))
        c.count('configurations')
    return c.viol, c.counts, c.oblig


def main(c):
    deep = c.tier == 'thorough'
    m = driver.compile_one(N, tag='p08')
    MOD.append(m)
    jobs = []
    for name in B:
        if name not in m.fns:
            raise AnalysisError('%s: plan builder %s is gone' % (N, name))
        c.fn(name)
        ks = list(confs(name, deep))
        n = max(1, len(ks) // 8 + 1)
        jobs += [(name, ks[i:i + n]) for i in range(0, len(ks), n)]
    seen = set()
    import multiprocessing as mp
    with mp.get_context('fork').Pool(8) as pool:
        for viol, counts, ob in pool.imap(one, jobs):
            for k, v in viol:
                if k not in seen:
                    seen.add(k)
                    c.violation(k, v)
            for k, v in counts.items():
                c.count(k, v)
            c.oblig += ob
    c.need('pass_calls', 1000)
    c.need('failing_paths', 500)
    c.need('sequences', 100)
    c.samples.append('%d configurations of %d plan builders' % (c.counts.get('configurations', 0), len(B)))


if __name__ == '__main__':
    driver.run(main, 'P08', RULE)
