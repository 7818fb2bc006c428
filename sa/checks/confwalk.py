"""Specialisation of a plan builder to a configuration: constants of the configuration are propagated through the
function's paths (branch conditions that depend on nothing else are decided); everything else stays symbolic."""
from paths import *

MPIQ = {'MPI_Comm_size': 'size', 'PMPI_Comm_size': 'size', 'MPI_Comm_rank': 'rank', 'PMPI_Comm_rank': 'rank',
        'MPI_Type_size': 'tsize', 'PMPI_Type_size': 'tsize'}


def ev(e, m):
    """integer value of an expression under the valuation m (a Conf), None when it depends on something else"""
    if e[0] == 'lin':
        z = e[1]
        for a, k in e[2]:
            v = ev(a, m)
            if v is None:
                return None
            z += k * v
        return z
    v = m.atom(e)
    if v is not None:
        return v
    k = e[0]
    if k == 'cmp':
        a, b = ev(e[2], m), ev(e[3], m)
        if a is None or b is None:
            return None
        try:
            return int(cmp_const(e[1], a, b, 64 if e[1][0] == 'u' else 32))
        except KeyError:
            return None
    if k == 'not':
        v = ev(e[1], m)
        return None if v is None else int(not v)
    if k == 'select':
        c = ev(e[1], m)
        if c is None:
            a, b = ev(e[2], m), ev(e[3], m)
            return a if a == b else None
        return ev(e[2] if c else e[3], m)
    if k in ('and', 'or', 'xor', 'mul', 'sdiv', 'srem', 'udiv', 'urem', 'shl', 'ashr', 'lshr') and len(e) == 3:
        a, b = ev(e[1], m), ev(e[2], m)
        if a is None or b is None:
            if k in ('and', 'mul') and 0 in (a, b):
                return 0
            if k == 'or' and 1 in (a, b) and Walker._bool(e[1]) and Walker._bool(e[2]):
                return 1
            return None
        if k in ('sdiv', 'srem', 'udiv', 'urem'):
            if b == 0:
                return None
            q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
            return q if k[1:] == 'div' else a - q * b
        return {'and': a & b, 'or': a | b, 'xor': a ^ b, 'mul': a * b, 'shl': a << b if 0 <= b < 64 else None,
                'ashr': a >> b if 0 <= b < 64 else None, 'lshr': a >> b if 0 <= b < 64 else None}[k]
    return None


def resid(e, m, memo):
    """the expression with everything the valuation decides folded away"""
    k0 = id(e)
    hit = memo.get(k0)
    if hit is not None and hit[0] is e:
        return hit[1]
    r = _resid(e, m, memo)
    memo[k0] = (e, r)
    return r


def _resid(e, m, memo):
    v = ev(e, m)
    if v is not None:
        return C(v)
    k = e[0]
    if k == 'lin':
        z = C(e[1])
        for a, f in e[2]:
            z = add(z, aslin(resid(a, m, memo)), f)
        return z
    if k == 'cmp':
        return mkcmp(e[1], resid(e[2], m, memo), resid(e[3], m, memo))
    if k == 'not':
        x = resid(e[1], m, memo)
        return neg(single(x) or x)
    if k == 'select':
        c = ev(e[1], m)
        if c is not None:
            return resid(e[2] if c else e[3], m, memo)
        a, b = resid(e[2], m, memo), resid(e[3], m, memo)
        c = resid(e[1], m, memo)
        if (a, b) == (C(1), C(0)):
            return c
        if (a, b) == (C(0), C(1)):
            return neg(single(c) or c)
        return ('select', c, a, b)
    if k in ('and', 'or') and len(e) == 3 and Walker._bool(e[1]) and Walker._bool(e[2]):
        a, b = resid(e[1], m, memo), resid(e[2], m, memo)
        one = C(1) if k == 'and' else C(0)
        if a == one:
            return b
        if b == one:
            return a
        return (k, a, b)
    return e


class Conf:
    """valuation of atoms: params by position, MPI queries, MPI handles; heap blocks are non-null"""

    def __init__(self, params, comms=None, tsizes=None, extra=None):
        self.params = params          # index -> int
        self.comms = comms or {}      # param index -> (size, rank)
        self.tsizes = tsizes or {}
        self.glob = {}
        self.extra = extra or (lambda a: None)

    def gl(self, name):
        if name not in self.glob:
            self.glob[name] = 1 << 40 | (hash_(name) & 0xffffff) << 8
        return self.glob[name]

    def atom(self, a):
        k = a[0]
        if k == 'param':
            return self.params.get(a[1])
        if k == 'glob':
            return self.gl(a[1])
        if k == 'mpiq':
            s = single(a[2])
            if s and s[0] == 'param':
                if a[1] == 'tsize':
                    return self.tsizes.get(s[1])
                if s[1] in self.comms:
                    return self.comms[s[1]][a[1] == 'rank']
            return None
        if k == 'call' and a[1] in ('malloc', 'calloc', 'realloc', 'strdup', 'ext_mpi_print_ports_groups'):
            return 1 << 50 | (hash_(repr(a)) & 0xffffff) << 12
        if k == 'alloca':
            return 1 << 55 | (hash_(repr(a)) & 0xffffff) << 12
        return self.extra(a)


def hash_(s):
    import zlib
    return zlib.crc32(s.encode())


class CWalk(FP):
    """FP specialised to a configuration"""

    def __init__(self, fn, conf, limit=4000, inq=None):
        self.fn = fn
        self.conf = conf

        def visit(ins, p, W):
            if ins.op == 'store':
                a = W.val(ins.ops[1], p)
                p.trace.append(('mst', a, W.val(ins.ops[0], p), ins))
            elif ins.op == 'call':
                nm = ins.extra if isinstance(ins.extra, str) else 'indirect'
                if nm.startswith('llvm.') and 'mem' not in nm:
                    return None
                args = [W.val(o, p) for o in ins.ops]
                r = W.val(('reg', ins.res), p) if ins.res is not None else None
                p.trace.append(('call', nm, args, r, ins))
                if nm in MPIQ and len(args) == 2:
                    bo = base_off(args[1])
                    if bo and bo[0][0] == 'alloca':
                        p.mem[args[1]] = atom(('mpiq', MPIQ[nm], args[0]))
                if nm in NORET:
                    return 'stop'
            return None

        def assume(cond):
            v = ev(cond, conf)
            return None if v is None else bool(v)
        memo = {}
        assume.simp = lambda c: resid(c, conf, memo)
        W = LoopWalker(fn, visit, assume=assume, limit=limit)
        self.W = W
        W.run()
        self.paths = []
        for r, q, last in W.done:
            if r == 'loop':
                continue
            k = 'exit' if r in ('stop', 'unreachable') else r
            rv = W.val(last.ops[0], q) if r == 'ret' and last.ops else None
            self.paths.append({'kind': k, 'trace': q.trace, 'ret': rv, 'path': q, 'last': last})
