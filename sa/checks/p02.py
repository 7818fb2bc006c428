"""P02 nonblocking test / resume of a compiled collective."""
from bytecode import *
import driver

RULE = ('Path rule on the executor for every instruction and every wait mode: in polling mode control returns early only '
        'on the "not yet complete" outcome of that instruction\'s own completion test and only after the resume pointer '
        'was set to that instruction; in waiting mode it never returns before the return instruction; a waiting '
        'instruction is passed only after a completion test/wait succeeded; the resume pointer is cleared exactly at the '
        'return instruction; start/test/wait drive the executor with the right mode, program and resume pointer.')

LAG = lambda c: c[0] == 'cmp' and c[1] == 'slt' and is_c(c[3]) and c[3][1] == 0
NOLAG = lambda c: c[0] == 'cmp' and c[1] == 'sgt' and is_c(c[3]) and c[3][1] == -1


def flat(c):
    """leaf comparisons of a condition"""
    s = c if c[0] == 'cmp' else single(c)
    if s and s[0] == 'cmp':
        return [s]
    out = []
    if s and s[0] in ('select', 'and', 'or', 'not'):
        for x in s[1:]:
            out += flat(aslin(x) if x[0] != 'cmp' else x)
    return out


def lagdec(p):
    """sequence of (lag is true?) decisions about a barrier slot"""
    out = []
    for t, c, truth in p.decisions:
        if t.op != 'br':
            continue
        for s in flat(c):
            if LAG(s) and 'ld' in {x[0] for x in subterms(s[2]) if isinstance(x, tuple) and x}:
                out.append(bool(truth))
            elif NOLAG(s):
                out.append(not truth)
    return out


def main(c):
    mx = driver.compile_one(EXEC)
    I = Interp(mx, 'ext_mpi_exec_native')
    fn = I.fn
    c.fn('ext_mpi_exec_native')
    if len(fn.params) != 3:
        raise AnalysisError('executor signature changed')
    ipx = atom(('param', 1, fn.params[1][1]))
    aw = fn.params[2][1]
    outer = [f for f in I.fetch if 0 in I.opcodes(f)][0]
    A = I.sem.val(outer.ops[0])
    ops = sorted(I.opcodes(outer))
    waits = {4, 5, 6, 8, 14}
    for o in ops:
        for mode in (0, 1, 2, 3):
            res = I.run_opcode(outer, o, env={aw: C(mode)}, maxvisit=2)
            blocking = bool(mode & 2)
            npass = 0
            nsusp = 0
            for x in res:
                if x['kind'] in ('loop',):
                    continue
                c.count('paths')
                st = [t for t in x['trace'] if t[0] == 'mst' and t[1] == ipx]
                w = fn.where(x['last'] if hasattr(x['last'], 'op') else None)
                lag = lagdec(x['path'])
                if x['kind'] in ('exit', 'unreachable'):
                    if o in waits or o in (0, 1, 2, 3, 7, 9, 15):
                        c.ob(False, 'op%d:mode%d:exit' % (o, 2 if blocking else 1), '%s: executing instruction %d in %s mode terminates the program' % (
                            w, o, 'waiting' if blocking else 'polling'))
                    continue
                if o == 0:
                    ok = x['kind'] == 'ret' and st and st[-1][2] == C(0)
                    c.ob(ok, 'return:done', '%s: reaching the return instruction does not mark the operation as complete' % w)
                    c.count('returns')
                    continue
                if x['kind'] == 'ret':
                    nsusp += 1
                    c.count('suspensions')
                    if blocking:
                        c.violation('op%d:wait-returns' % o, '%s: in waiting mode instruction %d can return before the operation is complete' % (w, o))
                        continue
                    if o not in waits:
                        c.violation('op%d:suspends' % o, '%s: instruction %d, which waits for nothing, suspends the operation' % (w, o))
                        continue
                    c.ob(bool(st) and st[-1][2] == A, 'op%d:resume' % o,
                         '%s: resume pointer is %s when instruction %d is suspended; it must be that instruction' % (
                             w, show(add(st[-1][2], A, -1)) + ' relative to it' if st else 'not set', o),
                         sample='op %d mode %d: suspend stores resume pointer %s' % (o, mode, show(st[-1][2]) if st else '-'))
                    if o in (5, 6, 8):
                        c.ob(bool(lag) and lag[-1], 'op%d:polarity' % o, '%s: instruction %d is suspended although its barrier test succeeded' % (w, o))
                    if o in (4, 14):
                        calls = [t for t in x['trace'] if t[0] == 'call' and t[1].lstrip('P').startswith('MPI_')]
                        tested = [t for t in calls if t[1].lstrip('P') in ('MPI_Testall', 'MPI_Testany', 'MPI_Testsome', 'MPI_Test')]
                        blk = [t for t in calls if 'Wait' in t[1]]
                        c.ob(bool(tested) and not blk, 'op%d:poll' % o, '%s: instruction %d is suspended without polling its requests' % (w, o))
                        if tested:
                            fl = tested[-1][2][2]
                            ok = any(t.op in ('br',) and flagcond(cc, fl, truth) == 0 for t, cc, truth in x['path'].decisions)
                            c.ob(ok, 'op%d:polarity' % o, '%s: instruction %d is suspended although its requests have completed' % (w, o))
                elif x['kind'] == 'next':
                    npass += 1
                    if o in (5, 6, 8):
                        if lag:
                            c.ob(not lag[-1], 'op%d:passes' % o, '%s: instruction %d is passed while its barrier is still pending' % (w, o))
                            c.count('barrier_passes')
                    if o == 4:
                        calls = [t[1].lstrip('P') for t in x['trace'] if t[0] == 'call']
                        done = 'MPI_Waitall' in calls
                        if not done:
                            for t in x['trace']:
                                if t[0] == 'call' and t[1].lstrip('P') == 'MPI_Testall':
                                    fl = t[2][2]
                                    done = any(tt.op == 'br' and flagcond(cc, fl, truth) == 1 for tt, cc, truth in x['path'].decisions)
                        c.ob(done, 'op4:passes', '%s: wait instruction is passed without completing its requests' % w)
                    # a passed instruction leaves the resume pointer untouched or at itself
                    for t in st:
                        c.ob(t[2] == A, 'op%d:ptr' % o, '%s: resume pointer set to %s while passing instruction %d' % (w, show(t[2]), o))
            if o in waits and o != 14:
                c.ob(npass > 0, 'op%d:mode%d:never' % (o, mode), 'instruction %d can never be passed in mode %d' % (o, mode))
                if not blocking:
                    c.ob(nsusp > 0, 'op%d:blocks' % o, 'instruction %d never yields in polling mode: a test would block' % o)
    c.need('suspensions', 4)
    c.need('returns', 1)
    c.need('barrier_passes', 6)
    # entry of the executor: resumes at *ip_exec
    st = Sem(fn)
    d = fn.defs[outer.ops[0][1]]
    ent = None
    if d.op == 'phi':
        for v, b in d.extra:
            e = st.val(v)
            s = single(e)
            if s and s[0] == 'ld' and s[2] == ipx:
                ent = True
    c.ob(bool(ent), 'entry', 'the executor does not resume at the stored resume pointer')
    drivers(c)


def flagcond(cond, flagaddr, truth):
    """0/1: the decision says the flag stored at flagaddr is zero / non-zero; None otherwise"""
    s = cond if cond[0] == 'cmp' else single(cond)
    if not s or s[0] != 'cmp' or not is_c(s[3]):
        return None
    t = single(s[2])
    if not (t and t[0] == 'ld' and t[2] == flagaddr) or s[3][1] not in (0, 1):
        return None
    if s[1] not in ('eq', 'ne'):
        if s[1] == 'sgt' and s[3][1] == 0:
            return 1 if truth else 0
        return None
    eq = (s[1] == 'eq') == truth
    return (s[3][1] if eq else 1 - s[3][1])


def slot(e, g, h):
    """e == global array g indexed by expression h (8 or 4 byte elements)?"""
    base = {x for x in subterms(e) if isinstance(x, tuple) and x and x[0] == 'ld' and single(x[2]) == ('glob', g)}
    hs = {x for x in subterms(e) if x == single(h)}
    return bool(base) and bool(hs)


def drivers(c):
    m = driver.compile_one('src/mpi/ext_mpi_native.c')
    for name, want in (('EXT_MPI_Test_native', {0, 1}), ('EXT_MPI_Wait_native', {2, 3})):
        fn = m.fns.get(name)
        if not fn:
            raise AnalysisError('%s is gone' % name)
        c.fn(name)

        def visit(ins, p, W):
            if ins.op == 'call' and ins.extra == 'ext_mpi_exec_native':
                p.trace.append(('exec', [W.val(o, p) for o in ins.ops], ins))
            if ins.op == 'store':
                a = W.val(ins.ops[1], p)
                p.trace.append(('st', a, W.val(ins.ops[0], p), ins))
                p.mem[a] = W.val(ins.ops[0], p)
            return None
        W = Walker(fn, visit)
        W.run()
        h = atom(('param', 0, fn.params[0][1]))
        for r, p, last in W.done:
            if r != 'ret':
                continue
            c.count('driver_paths')
            ex = [t for t in p.trace if t[0] == 'exec']
            null = None
            for k, v in p.facts.items():
                if k[0] == 'val' and 'execution_pointer' in repr(k[1]):
                    null = v == ('eq', 0)
            c.ob(bool(ex) != bool(null) and len(ex) <= 1, '%s:exec' % name, '%s: %s %s the executor although the operation is %s' % (
                fn.where(last), name, 'calls' if ex else 'does not call', 'complete' if null else 'pending'))
            for t in ex:
                a = t[1]
                c.ob(slot(strip(a[0]), 'comm_code', h) and not off1(strip(a[0])), '%s:program' % name, '%s: executes %s' % (fn.where(t[2]), show(a[0])))
                c.ob(slot(a[1], 'execution_pointer', h) and not off1(a[1]), '%s:pointer' % name, '%s: resumes from %s' % (fn.where(t[2]), show(a[1])))
                v = cval(a[2])
                c.ob(v is not None and (bool(v & 2) == (2 in want)), '%s:mode' % name, '%s: %s runs the executor in mode %s' % (fn.where(t[2]), name, show(a[2])))
            if name == 'EXT_MPI_Test_native':
                rv = W.val(last.ops[0], p)
                rs = rv if rv[0] == 'cmp' else (single(rv) or rv)
                ok = rs[0] == 'cmp' and rs[1] == 'eq' and rs[3] == C(0) and 'execution_pointer' in repr(rs[2]) and not off1(rs[2])
                if is_c(rv):
                    ok = bool(rv[1]) == bool(null)
                c.ob(ok, 'test:result', '%s: test reports %s instead of "resume pointer is cleared"' % (fn.where(last), show(rv)))
    # start
    fn = m.fns.get('EXT_MPI_Start_native')
    if not fn:
        raise AnalysisError('EXT_MPI_Start_native is gone')
    c.fn('EXT_MPI_Start_native')
    hs = None
    b = driver.compile_one(EMIT)
    hs = Emitter(b).hdrsize

    def visit(ins, p, W):
        if ins.op == 'store':
            a = W.val(ins.ops[1], p)
            p.trace.append((a, W.val(ins.ops[0], p), ins))
            p.mem[a] = W.val(ins.ops[0], p)
        return None
    W = Walker(fn, visit)
    W.run()
    h = atom(('param', 0, fn.params[0][1]))

    def arr(g, k):
        return [add(add(atom(('ld', None, atom(('glob', g)), 'ptr')), scale(h, 8)), C(8 * k))]
    for r, p, last in W.done:
        if r != 'ret':
            continue
        c.count('start_paths')
        cc0, cc1 = arr('comm_code', 0)[0], arr('comm_code', 1)[0]
        ep0 = arr('execution_pointer', 0)[0]
        fin = p.mem
        l0 = atom(('ld', None, cc0, 'ptr'))
        l1 = atom(('ld', None, cc1, 'ptr'))
        two = None
        for k, v in p.facts.items():
            if k == ('val', l1):
                two = v != ('eq', 0)
        code0 = fin.get(cc0, l0)
        if two:
            ok = strip(code0) == l1 and strip(fin.get(cc1, l1)) == l0
            c.ob(ok, 'start:swap', '%s: starting does not exchange the two compiled programs of the handle' % fn.where(last))
        else:
            c.ob(strip(code0) == l0, 'start:noswap', '%s: starting replaces the only compiled program of the handle' % fn.where(last))
        e = fin.get(ep0)
        ok = e is not None and add(e, code0, -1) == C(hs)
        c.ob(ok, 'start:entry', '%s: execution does not start at the first instruction of the active program' % fn.where(last))
    c.need('driver_paths', 4)
    c.need('start_paths', 2)


def strip(e):
    """forget load versions"""
    if not isinstance(e, tuple):
        return e
    if e and e[0] == 'ld' and len(e) == 5:
        e = e[:4]
    return tuple(strip(x) for x in e)


def off1(e):
    a = aslin(e)
    if a[1] != 0:
        return True
    s = single(e)
    if s and s[0] == 'ld':
        return aslin(s[2])[1] != 0
    return False


if __name__ == '__main__':
    driver.run(main, 'P02', RULE)
