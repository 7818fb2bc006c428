"""P03 element-wise reduction kernels of the executors."""
from bytecode import *
from loops import *
import driver

RULE = ('Loop-summary rule on every accumulation loop of the executors: the loop runs exactly n times (n = the element '
        'count operand), iteration k adds source element k to destination element k (no element skipped, repeated or '
        'combined with another), with the element type of the requested reduction; the selection of the kernel covers '
        'all supported element types and nothing else is written.')

TYPES = {'DOUBLE': 'double', 'LONG_INT': 'i64', 'FLOAT': 'float', 'INT': 'i32'}
SZ = {'double': 8, 'i64': 8, 'float': 4, 'i32': 4}


def opcode_consts():
    """reduction type codes from the sources (macro definitions)"""
    import re, os
    out = {}
    for d in ('include/core', 'include/mpi'):
        p = os.path.join(driver.REPO, d)
        for f in sorted(os.listdir(p)):
            for L in open(os.path.join(p, f), errors='replace'):
                m = re.match(r'\s*#\s*define\s+OPCODE_REDUCE_SUM_(\w+)\s+\(?(-?\w+)\)?', L)
                if m:
                    out[m.group(1)] = int(m.group(2), 0)
    return out


def kernels(L):
    """accumulating stores of a loop's iterations: (type, dst, src, ins, facts)"""
    for x, tr, nw in L.iters:
        for t in tr:
            if t[0] in ('mst', 'st'):
                if t[0] == 'st':
                    continue
                a, v, ins = t[1], t[2], t[3]
                ty = ins.tys[0]
                bo = base_off(a)
                if bo and bo[0][0] == 'alloca':
                    continue
                if ty in SZ and has(a, lambda y: y in L.init):
                    yield ty, a, v, ins, x


def operands(ty, v):
    """the two operands of an addition (type-specific) or None"""
    if ty in ('double', 'float'):
        s = single(v)
        if s and s[0] == 'fadd' and s[1] == ty:
            return s[2], s[3]
        return None
    v = aslin(v)
    if v[1] == 0 and len(v[2]) == 2 and all(k == 1 for _, k in v[2]):
        return atom(v[2][0][0]), atom(v[2][1][0])
    if v[1] == 0 and len(v[2]) == 1 and v[2][0][1] == 2:
        return atom(v[2][0][0]), atom(v[2][0][0])
    return None


def unver(e):
    return ('ld', e[1], e[2], e[3]) if e and e[0] == 'ld' else e


def check_kernel(c, name, L, ty, a, v, ins, code2ty, x, opval):
    w = L.fn.where(ins)
    c.count('kernels')
    key = '%s:%s' % (name, ty)
    ops = operands(ty, v)
    if ops is None:
        c.ob(False, key + ':op', '%s: the accumulation does not add the source element to the destination element' % w)
        return None
    lds = [single(o) for o in ops]
    if any(not l or l[0] != 'ld' for l in lds):
        c.ob(False, key + ':op', '%s: the accumulation combines something else than two elements' % w)
        return None
    dst = [l for l in lds if l[2] == a]
    src = [l for l in lds if l[2] != a]
    ok = len(dst) == 1 and len(src) == 1
    c.ob(ok, key + ':op', '%s: the destination element is not accumulated with one source element' % w)
    if not ok:
        return None
    c.ob(all(l[3] == ty for l in lds), key + ':width', '%s: elements are read with another type than they are written' % w)
    ca, cs = L.coef(a), L.coef(src[0][2])
    good = ca is not None and cs is not None and abs(ca[1]) == SZ[ty] and ca[1] == cs[1]
    c.ob(good, key + ':stride', '%s: consecutive iterations do not move to the next element of destination and source together' % w)
    if not good:
        return None
    n = L.trip
    if n is None:
        c.ob(False, key + ':trip', '%s: the number of accumulated elements is not the element count' % w)
        return None
    if ca[1] < 0:
        ca = (add(ca[0], scale(add(n, C(-1)), ca[1])), -ca[1])
        cs = (add(cs[0], scale(add(n, C(-1)), cs[1])), -cs[1])
    # exactly one store per iteration
    for y, tr, nw in L.iters:
        st = [t for t in tr if t[0] == 'mst' and not (base_off(t[1]) and base_off(t[1])[0][0] == 'alloca')]
        c.ob(len(st) == 1, key + ':single', '%s: an iteration of the accumulation writes %d elements' % (w, len(st)))
    c.ob(True, key, '', sample='%s %s: %s iterations, *(%s) += *(%s)' % (name, ty, show(n), show(ca[0]), show(cs[0])))
    if opval is not None:
        c.ob(code2ty.get(opval) == ty, key + ':type%s' % opval,
             '%s: reduction type code %s is accumulated as %s' % (w, opval, ty))
    return n, ca[0], cs[0]


def reg_of(e, w):
    return has(e, lambda t: t[0] == 'ld' and t[2] == w)


def main(c):
    mx = driver.compile_one(EXEC)
    codes = opcode_consts()
    if set(TYPES) - set(codes):
        raise AnalysisError('reduction type codes not found')
    code2ty = {codes[k]: v for k, v in TYPES.items()}
    for name in ('ext_mpi_exec_native', 'ext_mpi_exec_blocking'):
        I = Interp(mx, name)
        c.fn(name)
        fn = I.fn
        outer = [f for f in I.fetch if 0 in I.opcodes(f)][0]
        A = I.sem.val(outer.ops[0])
        p1, p2, nn = add(A, C(2)), add(A, C(10)), add(A, C(18))
        if name.endswith('native'):
            def sel(facts):
                for k, f in facts.items():
                    if k[0] == 'val' and f[0] == 'eq':
                        s = single(k[1])
                        if s and s[0] == 'ld' and s[2] == add(A, C(1)):
                            return f[1]
                return None
        else:
            opn = [i for i, (t, n) in enumerate(fn.params) if n == 'reduction_op']
            def sel(facts):
                for k, f in facts.items():
                    if k[0] == 'val' and f[0] == 'eq':
                        s = single(k[1])
                        if s and s[0] == 'param' and s[2] == 'reduction_op':
                            return f[1]
                return None
        seen = set()
        for x in I.run_opcode(outer, 9, loops=True):
            if x['kind'] != 'next':
                if x['kind'] in ('ret', 'exit'):
                    c.ob(False, name + ':reduce-ends', '%s: a reduction instruction ends the program' % name)
                continue
            c.count('reduce_paths')
            ks = []
            for t in x['trace']:
                if t[0] == 'loop':
                    for k in kernels(t[1]):
                        ks.append((t[1], k))
                elif t[0] == 'mst' and not (base_off(t[1]) and base_off(t[1])[0][0] == 'alloca'):
                    c.ob(False, name + ':extra', '%s: reduction writes outside the accumulation loop' % fn.where(t[3]))
                elif t[0] == 'call' and not t[1].startswith('llvm.'):
                    c.ob(False, name + ':call', '%s: reduction instruction calls %s' % (fn.where(t[3]), t[1]))
            op = sel(x['path'].facts)
            if not ks:
                if op in code2ty:
                    # zero-trip path of a rotated loop is fine only if the count is known to be <= 0
                    z = any(truth is not None and reg_of(cc, nn) for t, cc, truth in x['path'].decisions if t.op == 'br')
                    c.ob(z, '%s:none%d' % (name, op), '%s: reduction of type code %d does nothing' % (name, op))
                continue
            if len(ks) != 1:
                c.ob(False, name + ':many', '%s: a reduction instruction runs %d accumulation loops' % (name, len(ks)))
                continue
            L, (ty, a, v, ins, xx) = ks[0]
            if op is None:
                c.ob(False, name + ':untyped', '%s: accumulation as %s does not depend on the requested type' % (fn.where(ins), ty))
                continue
            r = check_kernel(c, name, L, ty, a, v, ins, code2ty, xx, op)
            seen.add(op)
            if r is None:
                continue
            n, d, s = r
            w = fn.where(ins)
            if name.endswith('native'):
                c.ob(isld(n, nn), '%s:%s:count' % (name, ty), '%s: accumulates %s elements instead of the count operand' % (w, show(n)))
                c.ob(isld(d, p1), '%s:%s:dst' % (name, ty), '%s: destination starts at %s instead of the first operand' % (w, show(d)))
                c.ob(isld(s, p2), '%s:%s:src' % (name, ty), '%s: source starts at %s instead of the second operand' % (w, show(s)))
            else:
                c.ob(reg_of(d, p1) and not reg_of(d, p2), '%s:%s:dst' % (name, ty), '%s: destination is not the first operand' % w)
                c.ob(reg_of(s, p2) and not reg_of(s, p1), '%s:%s:src' % (name, ty), '%s: source is not the second operand' % w)
                q = single(n)
                okn = bool(q) and (q[0] == 'sdiv' and q[2] == C(SZ[ty]) or q[0] == 'ashr' and q[2] == C({8: 3, 4: 2}[SZ[ty]])) and reg_of(q[1], nn)
                c.ob(okn, '%s:%s:count' % (name, ty), '%s: accumulates %s elements; the byte count divided by the element size is expected' % (w, show(n)))
        for k, ty in code2ty.items():
            c.ob(k in seen, '%s:missing:%s' % (name, ty), '%s has no accumulation for element type %s' % (name, ty))
    # wait-any: pointer and size tables filled by the same instruction, reduction table driven
    I = Interp(mx, 'ext_mpi_exec_native')
    outer = [f for f in I.fetch if 0 in I.opcodes(f)][0]
    aw = I.fn.params[2][1]
    I.run_opcode(outer, 14, env={aw: C(2)}, loops=True)
    done = set()
    got = set()
    for L in I.last.loops:
        for ty, a, v, ins, x in kernels(L):
            # stores into the tables are not accumulations
            if not any(l and l[0] == 'ld' and l[2] == a for l in [single(v)] + [single(o) for o in (operands(ty, v) or ())]):
                continue
            ops = {f[1] for k, f in x.facts.items() if k[0] == 'val' and f[0] == 'eq' and f[1] in code2ty
                   and typeish(k[1])}
            if len(ops) > 1:
                raise AnalysisError('%s: type selection of the wait-any accumulation is ambiguous: %s' % (L.fn.where(ins), sorted(ops)))
            op = ops.pop() if ops else None
            if op is None:
                c.ob(False, 'waitany:untyped', '%s: accumulation as %s does not depend on the requested type' % (L.fn.where(ins), ty))
                continue
            r = check_kernel(c, 'waitany', L, ty, a, v, ins, code2ty, x, op)
            got.add(ty)
            if r is None:
                continue
            n, d, s = r
            w = L.fn.where(ins)
            # destination, source and count come from the same row of the tables
            ld, ls, ln = single(d), single(s), single(n)
            ok = all(z and z[0] == 'ld' for z in (ld, ls, ln))
            if c.ob(ok and ld[2] != ls[2], 'waitany:%s:operands' % ty, '%s: destination, source and count are not table entries' % w):
                rows = [ivcoef(z[2], k) for z, k in ((ld, 8), (ls, 8), (ln, 4))]
                ptr = [ivcoef(z[2], 1) for z in (ld, ls, ln)]
                c.ob(bool(rows[0] & rows[1] & rows[2]) or (any(ptr) and all(a or b for a, b in zip(rows, ptr))), 'waitany:%s:row' % ty,
                     '%s: destination, source and count are not taken from the same entry of the tables' % w)
    for ty in code2ty.values():
        c.ob(ty in got, 'waitany:missing:%s' % ty, 'wait-any execution has no accumulation for element type %s' % ty)
    c.need('kernels', 12)
    c.need('reduce_paths', 8)


def typeish(e):
    """the value compared is a type code: a byte of the program or a variable carrying it"""
    s = single(e)
    return bool(s) and s[0] in ('iv', 'phi', 'ld', 'zext', 'sext', 'trunc', 'param', 'havoc')


def ivcoef(e, k):
    """loop variables that step through the address e by k bytes"""
    e = aslin(e)
    return {a for a, m in e[2] if a[0] in ('iv', 'phi') and abs(m) == k}


def isld(e, a):
    s = single(e)
    return bool(s) and s[0] == 'ld' and s[2] == a


if __name__ == '__main__':
    driver.run(main, 'P03', RULE)
