"""P06 forwarding of the caller's arguments through all layers."""
from paths import *
import p04

RULE = ('Argument-role rule on the resolved call graph: every layer (interface, general layer, native layer, Fortran wrappers) passes each MPI '
        'argument of the caller in the position of the same role of the next layer, unchanged; regular collectives expand to irregular ones with '
        'count[i] = count and displacement[i] = i*count for every rank; MPI_IN_PLACE is replaced by the receive buffer; the native layer uses every role.')

G = 'src/mpi/ext_mpi.c'
N = 'src/mpi/ext_mpi_native.c'
IF = p04.IF


def comm_sizes(trace, comm, F):
    """expressions holding the size of the communicator on this path (recursively through loops)"""
    out = set()
    for t in trace:
        if t[0] == 'call' and t[1] in ('MPI_Comm_size', 'PMPI_Comm_size') and t[2][0] == comm:
            out.add(t[2][1])
    return out


def is_size(e, ptrs):
    s = single(e)
    return bool(s) and s[0] == 'ld' and s[2] in ptrs


def is_malloc(e):
    s = single(e)
    return bool(s) and s[0] == 'call' and s[1] in ('malloc', 'calloc')


def stores_to(L, base):
    """stores into the array 'base' per iteration: list of (path, new, address, value, ins)"""
    out = []
    for y, tr, nw in L.iters:
        for t in tr:
            if t[0] == 'mst' and base_is(t[1], base):
                out.append((y, nw, t[1], t[2], t[3]))
    return out


def base_is(a, base):
    s = single(base)
    return any(x == s and k == 1 for x, k in aslin(a)[2])


def covers(L, k, arr):
    """the entries arr[0..trip) are visited, in either direction"""
    if k is None:
        return False
    if k[1] == 4:
        return k[0] == arr
    return k[1] == -4 and L.trip is not None and add(add(k[0], scale(L.trip, -4)), C(4)) == arr


def check_counts(c, key, w, trace, arr, cnt, sizes):
    """arr[i] = cnt for i in [0,size)"""
    for t in trace:
        if t[0] != 'loop':
            continue
        L = t[1]
        for y, nw, a, v, ins in stores_to(L, arr):
            k = L.coef(a)
            c.ob(v == cnt, key + ':value', '%s: an entry is set to something else than the caller\'s count' % w(ins))
            c.ob(covers(L, k, arr), key + ':index', '%s: entries are not set one after the other from the first' % w(ins))
            c.ob(L.trip is not None and is_size(L.trip, sizes), key + ':range', '%s: not exactly the entries of all ranks are set' % w(ins))
            c.count('arrays')
            return True
    return False


def check_displs(c, key, w, trace, arr, cnt, counts, sizes):
    first = None
    for t in trace:
        if t[0] == 'mst' and t[1] == arr:
            first = t[2]
        if t[0] != 'loop':
            continue
        L = t[1]
        for y, nw, a, v, ins in stores_to(L, arr):
            k = L.coef(a)
            c.count('arrays')
            down = k is not None and k[1] == -4 and covers(L, k, arr)
            if not c.ob(k is not None and (k[1] == 4 or down), key + ':index', '%s: displacements are not set one after the other' % w(ins)):
                return True
            off = C(0) if down else add(k[0], arr, -1)
            s = single(v)
            if off == C(0):
                ok = False
                if s and s[0] == 'mul':
                    o = [z for z in s[1:] if z != cnt]
                    if len(o) == 1:
                        ki = L.coef(o[0])
                        ok = ki is not None and (ki == (C(0), 1) or down and ki == (add(L.trip, C(-1)), -1))
                if s and s[0] == 'iv' and s in L.init and L.init[s] == C(0):
                    ok = all(add(n2[s], atom(s), -1) == cnt for _, _, n2 in L.iters)
                c.ob(ok, key + ':value', '%s: displacement i is not i times the caller\'s count' % w(ins))
                c.ob(L.trip is not None and is_size(L.trip, sizes), key + ':range', '%s: not exactly the displacements of all ranks are set' % w(ins))
            elif off == C(4):
                # recurrence d[i+1] = d[i] + c[i]
                prev = add(a, C(-4))
                v = aslin(v)
                parts = [atom(x) for x, m in v[2] if m == 1]
                okp = v[1] == 0 and len(parts) == 2 and all(m == 1 for _, m in v[2])
                is_prev = [p for p in parts if single(p)[0] == 'ld' and single(p)[2] == prev]
                rest = [p for p in parts if p not in is_prev]
                okc = False
                if len(rest) == 1:
                    r = single(rest[0])
                    okc = rest[0] == cnt or (r[0] == 'ld' and counts is not None and add(add(r[2], counts, -1), add(prev, arr, -1), -1) == C(0))
                c.ob(okp and len(is_prev) == 1 and okc, key + ':value', '%s: displacement i+1 is not displacement i plus the count' % w(ins))
                c.ob(first == C(0), key + ':first', '%s: the first displacement is not zero' % w(ins))
                c.ob(L.trip is not None and is_size(add(L.trip, C(1)), sizes), key + ':range', '%s: not exactly the displacements of all ranks are set' % w(ins))
            else:
                c.ob(False, key + ':index', '%s: the first displacement set is not that of rank 0' % w(ins))
            return True
    return False


def expand(c, mod, name, callees, amap, counts, displs, cname, comm='comm', tag=''):
    """name calls one of callees; amap: callee arg index -> parameter name or 'counts'/'displs'"""
    fn = mod.fns.get(name)
    if fn is None:
        raise AnalysisError('%s is not defined' % name)
    c.fn(name)
    c.count('expanders')
    F = FP(fn)
    pn = [n for t, n in fn.params]
    w = fn.where
    cnt = F.param(pn.index(cname)) if cname in pn else None
    n = 0
    for x in F.paths:
        if x['kind'] != 'ret':
            continue
        k = [t for t in calls(x['trace']) if t[1] in callees]
        if not k:
            # only the failure of an allocation may prevent the call
            c.ob(alloc_failed(F, x), name + ':dropped', '%s: %s returns without building the collective' % (w(x['last']), name))
            continue
        if not c.ob(len(k) == 1, name + ':once', '%s: %s builds the collective %d times' % (w(x['last']), name, len(k))):
            continue
        n += 1
        t = k[0]
        # events before the call
        pre = x['trace'][:x['trace'].index(t)]
        sizes = comm_sizes(pre, F.param(pn.index(comm)), F)
        arr = t[2][counts] if counts is not None else None
        for i, a in enumerate(t[2]):
            key = '%s:arg%d' % (name, i)
            if i == counts:
                f = check_counts(c, key, w, pre, a, cnt, sizes)
                c.ob(f or skipped(F, x, sizes), key + ':unset', '%s: %s does not fill the counts it passes on' % (w(t[4]), name))
            elif i == displs:
                f = check_displs(c, key, w, pre, a, cnt, arr, sizes)
                c.ob(f or skipped(F, x, sizes), key + ':unset', '%s: %s does not fill the displacements it passes on' % (w(t[4]), name))
            else:
                p = amap[i]
                c.ob(a == F.param(pn.index(p)), key, '%s: %s passes something else than "%s" as argument %d of %s' % (w(t[4]), name, p, i + 1, t[1]))
        r = x['ret']
        c.ob(r == t[3], name + ':ret', '%s: %s does not return the result of %s' % (w(x['last']), name, t[1]))
    c.ob(n > 0, name + ':never', '%s never builds the collective' % name)


def skipped(F, x, sizes):
    """the path found a communicator of size <= 0"""
    return False


def alloc_failed(F, x):
    """the path is only taken when an allocation fails"""
    m = {}
    for t in calls(x['trace']):
        if t[1] in ('malloc', 'calloc'):
            m[single(t[3])] = 4096
    return bool(m) and not feasible(x['path'], m)


def native_callee(c, mod, name, callee, roles, extra=(), args=None):
    """flow-insensitive: arguments of the calls of `callee` in `name` (helpers inlined)"""
    fn = mod.fns.get(name)
    if fn is None:
        raise AnalysisError('%s is not defined' % name)
    c.fn(name)
    sem = Sem(fn)
    pn = [n for t, n in fn.params]
    ks = list(fn.calls(callee))
    if not c.ob(len(ks) >= 1, '%s:%s' % (name, callee), '%s does not call %s' % (name, callee)):
        return
    par = lambda p: atom(('param', pn.index(p), p))
    for ins in ks:
        c.count('call_sites')
        for i, p in roles.items():
            key = '%s:%s:%d' % (name, callee, i)
            e = sem.val(ins.ops[i])
            if p == 'in_place':
                sb, rb = par('sendbuf'), par('recvbuf')
                s = single(e)
                ok = s and s[0] == 'select' and s[1] in (mkcmp('eq', sb, C(1)), ) and s[2] == rb and s[3] == sb
                ok = ok or (s and s[0] == 'select' and s[1] == neg(mkcmp('eq', sb, C(1))) and s[2] == sb and s[3] == rb)
                if not ok and s and s[0] == 'phi':
                    ok = sem.options(ins.ops[i]) == {sb, rb} and in_place_phi(fn, sem, s[1], sb, rb)
                c.ob(bool(ok), key, '%s: %s does not pass the send buffer (or the receive buffer for MPI_IN_PLACE) to %s' % (fn.where(ins), name, callee))
            elif isinstance(p, tuple):
                c.ob(p[0](e, par, sem, ins), key, '%s: %s passes a wrong %s to %s' % (fn.where(ins), name, p[1], callee))
            else:
                if e != par(p) and local_copy(fn, sem, e) == par(p):
                    e = par(p)
                c.ob(e == par(p), key, '%s: %s passes %s instead of its argument "%s" as argument %d of %s' % (fn.where(ins), name, show(e)[:60], p, i + 1, callee))


SEND_ARG = {'PMPI_Allreduce': (0,), 'MPI_Allreduce': (0,), 'PMPI_Reduce': (0,), 'PMPI_Bcast': ()}


def local_copy(fn, sem, e):
    """value of a load of a local variable that is stored to exactly once and otherwise only read"""
    s = single(e)
    if not s or s[0] != 'ld':
        return None
    b = single(s[2])
    if not b or b[0] != 'alloca':
        return None
    vals = set()
    for i in fn.instrs():
        for k, o in enumerate(i.ops):
            if o[0] == 'reg' and single(sem.val(o)) == b:
                if i.op == 'load':
                    continue
                if i.op == 'store' and k == 1:
                    vals.add(sem.val(i.ops[0]))
                elif i.op in ('call', 'invoke') and isinstance(i.extra, str) and (i.extra.startswith('llvm.') or k in SEND_ARG.get(i.extra, ())):
                    continue
                elif i.op in ('gep', 'getelementptr', 'bitcast'):
                    return None
                else:
                    return None
    return vals.pop() if len(vals) == 1 else None


def in_place_phi(fn, sem, reg, sb, rb):
    """phi whose recvbuf value arrives only over the edge where sendbuf == MPI_IN_PLACE"""
    ph = fn.defs[reg]
    for v, lab in ph.extra:
        b = fn.bb[lab]
        if sem.val(v) == rb:
            ok = False
            for p in b.preds if b.preds else []:
                t = p.ins[-1]
                if t.op == 'br' and len(t.extra) == 2:
                    cnd = sem.val(t.ops[0])
                    want = cnd == mkcmp('eq', sb, C(1)) and fn.bb[t.extra[0]] is b or cnd == neg(mkcmp('eq', sb, C(1))) and fn.bb[t.extra[1]] is b
                    ok = ok or want
            if not ok:
                return False
    return True


NATIVE = {
    'Allgatherv': ['sendbuf', 'sendcount', 'sendtype', 'recvbuf', 'recvcounts', 'displs', 'recvtype', 'comm'],
    'Gatherv': ['sendbuf', 'sendcount', 'sendtype', 'recvbuf', 'recvcounts', 'displs', 'recvtype', 'root', 'comm'],
    'Scatterv': ['sendbuf', 'sendcounts', 'displs', 'sendtype', 'recvbuf', 'recvcount', 'recvtype', 'root', 'comm'],
    'Reduce_scatter': ['sendbuf', 'recvbuf', 'recvcounts', 'datatype', 'op', 'comm'],
    'Allreduce': ['in_place', 'recvbuf', 'count', 'datatype', 'op', 'comm'],
    'Reduce': ['in_place', 'recvbuf', 'count', 'datatype', 'op', 'root', 'comm'],
    'Bcast': ['buffer', 'count', 'datatype', 'root', 'comm'],
}


def fixed(n, text):
    return (lambda e, par, sem, ins: e == n, text)


def wraps(c, m2):
    # Allreduce/Bcast/Allgatherv are built by the reduce/gatherv builders
    def minus_one(e, par, sem, ins):
        return e == C(-1)

    def bcast_root(e, par, sem, ins):
        return e == add(C(-10), par('root'), -1)
    for name, callee, roles in (
        ('EXT_MPI_Allreduce_init_native', 'EXT_MPI_Reduce_init_native',
         ['sendbuf', 'recvbuf', 'count', 'datatype', 'op', (minus_one, 'root'), 'comm_row', 'my_cores_per_node_row', 'comm_column', 'my_cores_per_node_column',
          'num_ports', 'groups', 'copyin', 'copyin_factors', 'alt', 'bit', 'waitany', 'not_recursive', 'blocking', 'num_sockets_per_node', 'shmem_zero', 'locmem', 'padding_factor']),
        ('EXT_MPI_Bcast_init_native', 'EXT_MPI_Reduce_init_native',
         ['buffer', 'buffer', 'count', 'datatype', None, (bcast_root, 'root'), 'comm_row', 'my_cores_per_node_row', 'comm_column', 'my_cores_per_node_column',
          'num_ports', 'groups', 'copyin', 'copyin_factors', 'alt', None, None, 'not_recursive', 'blocking', 'num_sockets_per_node', 'shmem_zero', 'locmem', None]),
        ('EXT_MPI_Allgatherv_init_native', 'EXT_MPI_Gatherv_init_native',
         ['sendbuf', 'sendcount', 'sendtype', 'recvbuf', 'recvcounts', 'displs', 'recvtype', (minus_one, 'root'), 'comm_row', 'my_cores_per_node_row', 'comm_column',
          'my_cores_per_node_column', 'num_ports', 'groups', 'alt', 'not_recursive', 'blocking', 'num_sockets_per_node', 'shmem_zero', 'locmem'])):
        fn = m2.fns.get(name)
        if fn is None:
            raise AnalysisError('%s is not defined' % name)
        native_callee(c, m2, name, callee, {i: r for i, r in enumerate(roles) if r is not None})
    # every role is used by the builder
    for name, roles in (('Reduce', ['sendbuf', 'recvbuf', 'count', 'datatype', 'op', 'root', 'comm_row']),
                        ('Gatherv', ['sendbuf', 'sendcount', 'sendtype', 'recvbuf', 'recvcounts', 'displs', 'recvtype', 'root', 'comm_row']),
                        ('Scatterv', ['sendbuf', 'sendcounts', 'displs', 'sendtype', 'recvbuf', 'root', 'comm_row']),
                        ('Reduce_scatter', ['sendbuf', 'recvbuf', 'recvcounts', 'datatype', 'op', 'comm_row'])):
        f = 'EXT_MPI_%s_init_native' % name
        fn = m2.fns.get(f)
        if fn is None:
            raise AnalysisError('%s is not defined' % f)
        c.fn(f)
        pn = [n for t, n in fn.params]
        for r in roles:
            if r not in pn:
                # renamed parameter: roles are positional
                continue
            used = any(o == ('reg', r) for ins in fn.instrs() for o in list(ins.ops) + [v for v, _ in (ins.extra if ins.op == 'phi' else ())])
            c.count('roles')
            c.ob(used, '%s:unused:%s' % (f, r), '%s ignores its argument "%s"' % (f, r))


FT = 'src/fortran/ext_mpi_f.c'


def fortran(c):
    m = driver.compile_one(FT, extra_inline=['mpi_allreduce_init_f08_'])
    m0 = driver.compile_one(FT)

    def ld(fn, i):
        n = fn.params[i][1]
        return atom(('param', i, n))
    for name, callee, roles in (
        ('mpi_allreduce_init_f08_', 'MPI_Allreduce_init', ['inplace', 0 + 1, '*2', 'type', '*4', '*5', '*6', 7]),
        ('mpi_allreduce_init_', 'MPI_Allreduce_init', ['inplace', 1, '*2', 'type', '*4', '*5', '*6', 7]),
        ('mpi_allreduce_f08_', 'MPI_Allreduce', ['inplace', 1, '*2', 'type', '*4', '*5']),
        ('mpi_request_free_f08_', 'MPI_Request_free', [0]),
        ('mpi_start_f08_', 'MPI_Start', [0]),
        ('mpi_wait_f08_', 'MPI_Wait', [0, 1]),
        ('mpi_comm_dup_f08_', 'MPI_Comm_dup', ['*0', 1]),
        ('mpi_comm_create_f08_', 'MPI_Comm_create', ['*0', '*1', 2]),
        ('mpi_comm_split_f08_', 'MPI_Comm_split', ['*0', '*1', '*2', 3]),
        ('mpi_comm_split_type_f08_', 'MPI_Comm_split_type', ['*0', '*1', '*2', '*3', 4]),
        ('mpi_comm_free_f08_', 'MPI_Comm_free', [0]),
    ):
        mod = m if name == 'mpi_allreduce_init_' else m0
        fn = mod.fns.get(name)
        if fn is None:
            raise AnalysisError('%s is not defined' % name)
        c.fn(name)
        c.count('fortran')
        F = FP(fn)
        par = lambda i: F.param(i)

        def deref(e, i):
            s = single(e)
            return bool(s) and s[0] == 'ld' and s[2] == par(i) and len(s) == 4
        for x in F.paths:
            w = fn.where(x['last'])
            k = calls(x['trace'], (callee,))
            if not c.ob(x['kind'] == 'ret' and len(k) == 1, name + ':once', '%s: %s does not call %s exactly once' % (w, name, callee)):
                continue
            t = k[0]
            er = [s for s in x['trace'] if s[0] == 'mst' and s[1] == par(len(fn.params) - 1)]
            c.ob(bool(er) and er[-1][2] == t[3], name + ':ierr', '%s: %s does not deliver the result of %s in ierr' % (w, name, callee))
            for i, r in enumerate(roles):
                a = t[2][i]
                key = '%s:arg%d' % (name, i)
                if isinstance(r, int):
                    c.ob(a == par(r), key, '%s: %s passes a wrong argument %d to %s' % (w, name, i + 1, callee))
                elif r[0] == '*':
                    c.ob(deref(a, int(r[1:])), key, '%s: %s passes a wrong argument %d to %s' % (w, name, i + 1, callee))
                elif r == 'inplace':
                    g = atom(('glob', 'MPIR_F08_MPI_IN_PLACE'))
                    isip = F.truth(mkcmp('eq', par(0), g), x['path'])
                    s = single(a)
                    ok = (isip is True and a == C(1)) or (isip is False and a == par(0)) or \
                        (bool(s) and s[0] == 'select' and {s[2], s[3]} == {C(1), par(0)} and
                         (s[1] == mkcmp('eq', par(0), g) and s[2] == C(1) or s[1] == neg(mkcmp('eq', par(0), g)) and s[3] == C(1)))
                    c.ob(ok, key, '%s: %s does not pass the send buffer (MPI_IN_PLACE for the Fortran constant)' % (w, name))
                elif r == 'type':
                    ftype(c, F, fn, x, a, par(3), key, name)


FTYPES = {'ompi_mpi_real': 'ompi_mpi_float', 'ompi_mpi_dblprec': 'ompi_mpi_double', 'ompi_mpi_real4': 'ompi_mpi_float', 'ompi_mpi_real8': 'ompi_mpi_double',
          'ompi_mpi_integer': 'ompi_mpi_int', 'ompi_mpi_integer4': 'ompi_mpi_int', 'ompi_mpi_integer8': 'ompi_mpi_long'}


def ftype(c, F, fn, x, a, par, key, name):
    """the type handed on is the C type of the Fortran type, for every Fortran type that can take this path"""
    w = fn.where(x['last'])
    isdt = lambda t: t[0] == 'ld' and t[2] == par
    isg = lambda t: t[0] == 'glob' and t[1] in FTYPES
    dts = atoms_in(x['path'], isdt) | {t for t in subterms(a) if isdt(t)}
    num = {('glob', g): 1000 + i for i, g in enumerate(sorted(FTYPES))}
    for g in sorted(FTYPES) + [None]:
        m = dict(num)
        for d in dts:
            m[d] = num[('glob', g)] if g else 5
        if not feasible(x['path'], m):
            continue
        c.count('fortran_type_paths')
        sv = single(resolve(a, m))
        if g:
            c.ob(sv == ('glob', FTYPES[g]), key + ':' + g, '%s: %s maps %s to %s instead of %s' % (w, name, g, show(atom(sv)) if sv else '?', FTYPES[g]))
        else:
            c.ob(bool(sv) and sv[0] == 'ld' and sv[2] == par, key + ':other', '%s: %s changes a type that needs no translation' % (w, name))


def main(c):
    m = driver.compile_one(IF)
    g = driver.compile_one(G, keep=())
    inits = ['MPI_%s_init' % n for n in p04.INITS]
    ext = ['EXT_MPI_%s_init' % n for n in p04.INITS]
    I = lambda *v: dict(enumerate(v))
    expand(c, m, 'MPI_Allgather_init', ('MPI_Allgatherv_init',),
           I('sendbuf', 'sendcount', 'sendtype', 'recvbuf', None, None, 'recvtype', 'comm', 'info', 'request'), 4, 5, 'recvcount')
    expand(c, m, 'MPI_Gather_init', ('MPI_Gatherv_init',),
           I('sendbuf', 'sendcount', 'sendtype', 'recvbuf', None, None, 'recvtype', 'root', 'comm', 'info', 'request'), 4, 5, 'recvcount')
    expand(c, m, 'MPI_Scatter_init', ('MPI_Scatterv_init',),
           I('sendbuf', None, None, 'sendtype', 'recvbuf', 'recvcount', 'recvtype', 'root', 'comm', 'info', 'request'), 1, 2, 'sendcount')
    expand(c, m, 'MPI_Reduce_scatter_block_init', ('MPI_Reduce_scatter_init',),
           I('sendbuf', 'recvbuf', None, 'datatype', 'op', 'comm', 'info', 'request'), 2, None, 'recvcount')
    gi = driver.compile_one(G, tag='e06', extra_inline=['ext_mpi_allgather_init_general', 'ext_mpi_reduce_scatter_block_init_general'])
    expand(c, gi, 'EXT_MPI_Allgather_init', ('ext_mpi_allgatherv_init_general', 'EXT_MPI_Allgatherv_init'),
           I('sendbuf', 'sendcount', 'sendtype', 'recvbuf', None, None, 'recvtype', 'comm', 'info', 'handle'), 4, 5, 'recvcount')
    expand(c, gi, 'EXT_MPI_Reduce_scatter_block_init', ('ext_mpi_reduce_scatter_init_general', 'EXT_MPI_Reduce_scatter_init'),
           I('sendbuf', 'recvbuf', None, 'datatype', 'op', 'comm', 'info', 'handle'), 2, None, 'recvcount')
    # general layer -> native layer (the *_init_general functions inlined into EXT_MPI_*_init)
    for n in p04.INITS:
        gn = 'ext_mpi_%s_init_general' % n.lower()
        g2 = driver.compile_one(G, tag='g' + n, extra_inline=[gn])
        name = 'EXT_MPI_%s_init' % n
        fn = g2.fns.get(name)
        if fn is None:
            raise AnalysisError('%s is not defined' % name)
        pn = [x for t, x in fn.params]
        roles = list(NATIVE[n])
        if n == 'Bcast':
            roles = [pn[0] if r == 'buffer' else r for r in roles]
        native_callee(c, g2, name, 'EXT_MPI_%s_init_native' % n, dict(enumerate(roles)))
        # the self check sees the same collective
        dbg = 'ext_mpi_%s_init_debug' % n.lower()
        if list(fn.calls(dbg)):
            droles = [r if r != 'in_place' else 'sendbuf' for r in roles] + ['info', 'handle']
            native_callee(c, g2, name, dbg, dict(enumerate(droles)))
        # *handle is the handle of the native collective, and only errors are returned as such
        handle_out(c, g2, name, 'EXT_MPI_%s_init_native' % n)
    wraps(c, driver.compile_one(N))
    fortran(c)
    c.need('arrays', 8)
    c.need('call_sites', 14)
    c.need('fortran', 11)


def ishandle(z, hp):
    s = single(z)
    return bool(s) and s[0] == 'ld' and s[2] == hp


def handle_out(c, mod, name, callee):
    fn = mod.fns[name]
    sem = Sem(fn)
    pn = [n for t, n in fn.params]
    hp = atom(('param', len(pn) - 1, pn[-1]))
    ks = list(fn.calls(callee))
    st = [i for i in fn.instrs() if i.op == 'store' and sem.val(i.ops[1]) == hp]
    res = {sem.val(('reg', k.res)) for k in ks}
    c.ob(any(sem.val(i.ops[0]) in res for i in st), name + ':handle', '%s does not deliver the handle of the new collective' % name)
    for i in fn.instrs():
        if i.op == 'icmp':
            e = sem.val(('reg', i.res))
            for t in subterms(e):
                if len(t) == 4 and t[0] == 'cmp' and (t[2] in res or t[3] in res or any(ishandle(z, hp) for z in t[2:4])):
                    v = [z for z in t[2:4] if is_c(aslin(z))]
                    x = t[2] if v and v[0] == t[3] else t[3]
                    ok = bool(v) and all(ev01(e, {single(x): k}) is not None and (ev01(e, {single(x): k}) == ev01(e, {single(x): 0})) == (k >= 0) for k in (-2, -1, 1, 5))
                    c.ob(ok, name + ':handle-test', '%s: %s mistakes a valid handle for an error or the reverse' % (fn.where(i), name))
    for i in st:
        c.ob(sem.val(i.ops[0]) in res, name + ':handle-other', '%s: %s delivers something else than the handle of the new collective' % (fn.where(i), name))


if __name__ == '__main__':
    driver.run(main, 'P06', RULE)
