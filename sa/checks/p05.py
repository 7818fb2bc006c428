"""P05 completion reports of MPI_Waitall/any/some and MPI_Testall/any/some when library requests are involved."""
from paths import *
from p04 import known_sign, final, IF

RULE = ('Loop rule on the multi-request calls (MPI_Wait/MPI_Test and each other inlined): the requests of the array are looked up one by one; '
        'MPI is called for the whole array only if no request belongs to the library; otherwise every request is completed or tested with its own '
        'lookup result, and the outputs follow the per-request results: all complete (flag), the index of a request that was reported complete '
        '(indx), the number reported (outcount).')

NAMES = ['MPI_Waitall', 'MPI_Waitany', 'MPI_Waitsome', 'MPI_Testall', 'MPI_Testany', 'MPI_Testsome']
LOW = ['MPI_Wait', 'MPI_Test']


def reqs(F, L, base):
    """check of the request loop: iteration variable pattern  base + 8*k, k = 0.."""
    pass


def searched(trace):
    return [t for t in trace if t[0] == 'call' and t[1] == 'ext_mpi_hash_search']


class Multi:
    def __init__(self, c, name):
        self.c = c
        self.name = name
        m = driver.compile_one(IF, tag='m' + name, extra_inline=[n for n in NAMES + LOW if n != name])
        self.fn = fn = m.fns.get(name)
        if fn is None:
            raise AnalysisError('%s is not defined' % name)
        c.fn(name)
        c.count('functions')
        self.pn = [n for t, n in fn.params]
        self.F = F = FP(fn, tracked=self.pn)
        self.count, self.req = F.param(0), F.param(1)
        self.nmax = 8

    def rel(self, a):
        """address of the request -> index expression or None"""
        d = add(a, self.req, -1)
        if all(k % 8 == 0 for _, k in d[2]) and d[1] % 8 == 0:
            return ('lin', d[1] // 8, tuple((x, k // 8) for x, k in d[2]))
        return None

    def st_of(self, x):
        """completion facts of one stretch of events: list of (index expr, own?, done expr, event)"""
        out = []
        cs = calls(x)
        for n, t in enumerate(cs):
            if t[1] == 'ext_mpi_hash_search':
                out.append((n, t))
        return out

    def v(self, cond, key, msg, ins=None):
        w = self.fn.where(ins) + ': ' if ins is not None else ''
        return self.c.ob(cond, '%s:%s' % (self.name, key), w + self.name + ' ' + msg)

    # every loop whose iterations look up requests must scan them all, in steps of one from the first
    def scan(self, L):
        ok = False
        for x, tr, nw in L.iters:
            for t in searched(tr):
                k = L.coef(t[2][0])
                if k is None:
                    continue
                self.v(k[0] == self.req and k[1] == 8, 'scan', 'does not look at the requests one after the other from the first', t[4])
                ok = True
        return ok

    def forwarding(self):
        """P call with the whole array only when no request is ours"""
        c, F, fn = self.c, self.F, self.fn
        pall = 'P' + self.name
        self.own, nf = [], 0
        for x in F.paths:
            if x['kind'] != 'ret':
                self.v(False, 'exit', 'ends the program', x['last'])
                continue
            c.count('paths')
            p = calls(x['trace'], (pall,))
            if not p:
                self.own.append(x)
                continue
            nf += 1
            self.v(len(p) == 1 and p[0][2] == [F.param(i) for i in range(len(self.pn))], 'forward', 'does not forward its arguments unchanged to %s' % pall, p[0][4])
            self.v(x['ret'] == p[0][3], 'forward-ret', 'does not return the result of %s' % pall, x['last'])
            self.v(not any(t[1].startswith('EXT_') for t in calls(x['trace'])), 'forward-ext', 'also uses the library when forwarding', x['last'])
            # all requests have been looked up, none belongs to the library
            Ls = [L for L in loops_of(x['trace']) if any(searched(tr) for _, tr, _ in L.iters)]
            good = False
            for L in Ls:
                allneg = all(known_sign(F, searched(tr)[0][3], y) is False for y, tr, _ in L.iters if searched(tr)) and \
                    all(searched(tr) for _, tr, _ in L.iters)
                # the way this path left the loop: either by reaching the count, or not at all decided by a hit
                hit = any(known_sign(F, t[3], x['path']) is True for t in searched(x['trace']))
                trip = L.trip
                full = trip == self.count or self.endfact(x, L)
                if allneg and full and not hit and self.scan(L):
                    good = True
            self.v(good, 'forward-cond', 'hands the whole array to %s although a request of the library may be among them' % pall, p[0][4])
        self.v(nf > 0, 'no-forward', 'never forwards requests that are all foreign')
        self.v(bool(self.own), 'no-own', 'never handles requests of the library itself')

    def endfact(self, x, L):
        """the path left loop L with its index variable >= count"""
        for a in L.init:
            if L.init[a] == C(0) and L.step.get(a) == 1:
                for e in (atom(a),):
                    if self.F.truth(mkcmp('slt', e, self.count, 32), x['path']) is False:
                        return True
        return False

    def outcome(self, tr, path, k=None):
        """(index expression, own, result event) of the single request handled in an iteration / stretch of events"""
        hs = searched(tr)
        if len(hs) != 1:
            return None
        h = hs[0]
        sg = known_sign(self.F, h[3], path)
        return h, sg


def iteration(M, L, kind):
    """checks one request per iteration; yields (path, trace, new, result expr, handle event)"""
    F = M.F
    for y, tr, nw in L.iters:
        hs = searched(tr)
        yield from one(M, L, y, tr, nw, hs, kind)


def one(M, L, y, tr, nw, hs, kind):
    F = M.F
    if not hs:
        if any(t[1].startswith(('EXT_MPI_', 'PMPI_')) for t in calls(tr)):
            M.v(False, 'nolookup', 'completes a request without looking it up', calls(tr)[0][4])
        return
    if len(hs) != 1:
        raise AnalysisError('%s: more than one request per iteration' % M.name)
    h = hs[0]
    M.c.count('request_steps')
    idx = M.rel(h[2][0])
    if not M.v(idx is not None, 'key', 'looks up something that is not a request of the array', h[4]):
        return
    sg = known_sign(F, h[3], y)
    if sg is None:
        M.v(False, 'undecided', 'does not distinguish requests of the library from others', h[4])
        return
    ext = [t for t in calls(tr) if t[1].startswith('EXT_MPI_')]
    mpi = [t for t in calls(tr) if t[1].startswith('PMPI_')]
    want = 'Wait' if kind == 'wait' else 'Test'
    res = None
    if sg:
        if not M.v(len(ext) == 1 and ext[0][1] == 'EXT_MPI_' + want and ext[0][2] == [h[3]] and not mpi, 'own',
                   'does not apply EXT_MPI_%s to the handle of the request it looked up' % want, h[4]):
            return
        res = ext[0][3]
    else:
        if not M.v(len(mpi) == 1 and mpi[0][1] == 'PMPI_' + want and mpi[0][2][0] == h[2][0] and not ext, 'foreign',
                   'does not apply PMPI_%s to the foreign request it looked up' % want, h[4]):
            return
        # status argument
        st = mpi[0][2][-1]
        spar = F.param(len(M.pn) - 1)
        many = M.name in ('MPI_Waitall', 'MPI_Testall')
        ignored = F.truth(mkcmp('eq', spar, C(0)), y)
        if many:
            d = add(st, spar, -1)
            good = (ignored is True and st == C(0)) or (ignored is not True and d == scale(idx, 24))
            if ignored is None and st == C(0):
                good = False
            s = single(st)
            if s and s[0] == 'select':
                good = True
        else:
            good = st == spar or (ignored is True and st == C(0)) or bool(single(st) and single(st)[0] == 'select')
        M.v(good, 'status', 'does not deliver the status of the request to its place', mpi[0][4])
        # flag pointer
        if kind == 'test':
            fp = mpi[0][2][1]
            res = ('deref', fp, mpi[0])
        else:
            res = mpi[0][3]
    yield y, tr, nw, res, h, idx, sg


def flagval(M, path, tr, res):
    """the completion result of the tested request as an expression: EXT result or the flag PMPI_Test wrote"""
    if isinstance(res, tuple) and res and res[0] == 'deref':
        fp = res[1]
        return [atom(('ld', f, fp, 'i32')) for f in (None,)], fp
    return [res], None


def truth01(M, path, res):
    """True: known complete, False: known incomplete"""
    F = M.F
    if res[0] == 'deref':
        fp = res[1]
        for k, v in path.facts.items():
            e = k
            if k[0] == 'val' or k[0] == 'cmp':
                continue
        # the loaded flag: any load atom of address fp
        cand = set()
        for k in path.facts:
            for t in walkterms(k):
                if isinstance(t, tuple) and len(t) > 3 and t[0] == 'ld' and t[2] == fp:
                    cand.add(t)
        for t in cand:
            z = F.truth(mkcmp('eq', atom(t), C(0), 32), path)
            if z is not None:
                return not z
        return None
    z = F.truth(mkcmp('eq', res, C(0), 32), path)
    return None if z is None else not z


def walkterms(e):
    if isinstance(e, tuple):
        yield e
        for x in e:
            if isinstance(x, tuple):
                yield from walkterms(x)
            elif isinstance(x, frozenset):
                pass


def resterms(res, exprs):
    """atoms standing for the completion result inside expressions"""
    if res[0] == 'deref':
        out = set()
        for e in exprs:
            for t in walkterms(e):
                if len(t) > 3 and t[0] == 'ld' and t[2] == res[1]:
                    out.add(t)
        return out
    s = single(res)
    return {s} if s else set()


def feasible(path, nd, m):
    """facts decided in the iteration are compatible with an assignment"""
    for t, cnd, truth in path.decisions[nd:]:
        if isinstance(truth, bool):
            v = ev01(cnd, m)
            if v is not None and bool(v) != truth:
                return False
    return True


def reqloops(M, x):
    """loops on the path that complete or test requests (not the pure look-up loop)"""
    return [L for L in loops_of(x['trace']) if any(any(t[1].startswith(('EXT_MPI_', 'PMPI_')) for t in calls(tr)) for _, tr, _ in L.iters)
            or any(any(t[1].startswith(('EXT_MPI_', 'PMPI_')) for t in calls(tr)) for _, tr, _ in L.exits)
            or any(any(t[1].startswith(('EXT_MPI_', 'PMPI_')) for t in calls(y.trace)) for _, y, _ in L.rets)]


def allloops(M):
    seen = []
    for L in M.F.W.loops:
        if any(any(t[1].startswith(('EXT_MPI_', 'PMPI_')) for t in calls(tr)) for _, tr, _ in L.iters):
            seen.append(L)
    return seen


def deep(L):
    """the request loop itself when it is nested in a repetition loop"""
    out = []
    for _, tr, _ in L.iters:
        out += loops_of(tr)
    return out


def success(M, x):
    """the returned value is known to be zero"""
    r = x['ret']
    if r == C(0) or M.F.truth(mkcmp('eq', r, C(0), 32), x['path']) is True:
        return True
    s = single(r)
    if s and s[0] == 'iv':
        for L in M.F.W.loops:
            if s in L.init and all(aslin(nw[s]) == C(0) or M.F.truth(mkcmp('eq', nw[s], C(0), 32), y) is True for y, tr, nw in L.iters):
                return True
    return False


def wrote_flag(M, x, fp):
    """truth of *fp at the end of the path: True/False, None when never written, 'unknown'"""
    last = None
    for t in x['trace']:
        if t[0] == 'mst' and t[1] == fp:
            last = ('v', t[2])
        elif t[0] == 'call' and fp in t[2]:
            last = ('c', t)
    if last is None:
        return None
    if last[0] == 'v':
        v = aslin(last[1])
        if is_c(v):
            return v[1] != 0
        z = M.F.truth(mkcmp('eq', v, C(0), 32), x['path'])
        return 'unknown' if z is None else not z
    d = truth01(M, x['path'], ('deref', fp, last[1]))
    return 'unknown' if d is None else d


def waitall(c):
    M = Multi(c, 'MPI_Waitall')
    M.forwarding()
    F = M.F
    for L in allloops(M):
        M.scan(L)
        for y, tr, nw, res, h, idx, sg in iteration(M, L, 'wait'):
            pass
    ok = 0
    for x in M.own:
        Ls = reqloops(M, x)
        if success(M, x):
            # success only after all requests of the array have been completed
            done = [L for L in Ls if L.trip == M.count or M.endfact(x, L)]
            if F.truth(mkcmp('sgt', M.count, C(0), 32), x['path']) is False:
                continue
            M.v(bool(done), 'early', 'returns success before all requests are complete', x['last'])
            ok += 1
        else:
            s = single(x['ret'])
            M.v(bool(s) and s[0] == 'call' and s[1].startswith('PMPI_'), 'ret', 'returns something that is not the result of a request', x['last'])
    M.v(ok > 0, 'nosuccess', 'never returns success for requests of the library')


def last_done(M, x):
    """the request handled by the events after the last loop of the path (the one that ended the search)"""
    tr = x['trace']
    n = 0
    for i, t in enumerate(tr):
        if t[0] == 'loop':
            n = i + 1
    return tr[n:]


def tail_result(M, x):
    """(index, result, own) of the last request tested on a path that returns from inside the request loop"""
    tr = x['trace']
    pos = [i for i, t in enumerate(tr) if t[0] == 'call' and t[1] == 'ext_mpi_hash_search']
    if not pos:
        return None
    seg = tr[pos[-1]:]
    r = list(one(M, None, x['path'], seg, None, [tr[pos[-1]]], 'test'))
    if not r:
        return None
    return r[0]


def anytest(c, name):
    """MPI_Testany, MPI_Waitany, MPI_Waitsome, MPI_Testsome"""
    M = Multi(c, name)
    M.forwarding()
    F = M.F
    some = name.endswith('some')
    if some:
        outc, idxp, flagp = F.param(2), F.param(3), None
    else:
        outc, idxp = None, F.param(2)
        flagp = F.param(3) if name == 'MPI_Testany' else None
    for L in allloops(M):
        if not any(searched(tr) for _, tr, _ in L.iters):
            continue
        M.scan(L)
        for y, tr, nw, res, h, idx, sg in iteration(M, L, 'test'):
            # the search goes on only past requests that are not complete
            d = truth01(M, y, res)
            if name.startswith('MPI_Waitany') or not some or True:
                M.v(d is False or d is None and False, 'skip', 'passes over a request without establishing that it is not complete', h[4])
    pos = neg = 0
    for x in M.own:
        w = x['last']
        if F.truth(mkcmp('sgt', M.count, C(0), 32), x['path']) is False:
            continue
        if not success(M, x):
            s = single(x['ret'])
            M.v(bool(s) and s[0] == 'call' and s[1].startswith('PMPI_'), 'ret', 'returns something that is not the result of a request', w)
            continue
        ix = final(x, idxp)
        oc = final(x, outc) if outc is not None else None
        fl = final(x, flagp) if flagp is not None else None
        claim = ix is not None
        # does this path claim a completion?
        if outc is not None:
            # "nothing complete" is reported with a zero count (known on the path or as a loop-carried zero)
            claim = not (is_c(aslin(oc)) and aslin(oc)[1] == 0) if oc is not None else False
            if not M.v(oc is not None, 'outcount', 'leaves the number of completed requests undefined', w):
                continue
        elif flagp is not None:
            claim = wrote_flag(M, x, flagp)
            if not M.v(claim in (True, False), 'flag', 'leaves the flag undefined', w):
                continue
        else:
            if not M.v(ix is not None, 'noindex', 'returns without reporting a completed request', w):
                continue
        if claim:
            r = tail_result(M, x)
            if not M.v(r is not None, 'claim', 'reports a completion although no request has been tested', w):
                continue
            y, tr, nw, res, h, idx, sg = r
            d = truth01(M, x['path'], res)
            M.v(d is True, 'incomplete', 'reports a request as complete that was not tested to be complete', w)
            M.v(ix is not None and aslin(ix) == idx, 'index', 'reports another index than that of the request found complete', w)
            if outc is not None:
                M.v(aslin(oc) == C(1) or d is True and is_flag(oc, res), 'outcount', 'reports a wrong number of completed requests', w)
            pos += 1
        else:
            neg += 1
            M.v(name.startswith('MPI_Test'), 'wait-none', 'returns although no request is complete', w)
            r = [L for L in reqloops(M, x) if L.trip == M.count or M.endfact(x, L)]
            M.v(bool(r), 'partial', 'reports that nothing is complete without having tested all requests', w)
    M.v(pos > 0, 'never', 'never reports a completed request')
    if name.startswith('MPI_Test'):
        M.v(neg > 0, 'always', 'never reports that no request is complete')


def is_flag(e, res):
    s = single(e)
    return s is not None and s in resterms(res, [e])


def testall(c):
    M = Multi(c, 'MPI_Testall')
    M.forwarding()
    F = M.F
    fp = F.param(2)
    allc = {}
    for L in allloops(M):
        M.scan(L)
        for y, tr, nw, res, h, idx, sg in iteration(M, L, 'test'):
            fin = [(a, e) for a, e in nw.items() if a[2] == fp or L.step.get(a) is None and has_res(e, res) or is_boolish(a, e, L)]
            rt = resterms(res, [e for _, e in fin] + [k for k in y.facts])
            if not fin:
                # nothing carried: continuing is only allowed past complete requests
                M.v(truth01(M, y, res) is True, 'lost', 'forgets that a request is not complete', h[4])
                continue
            for a, e in fin:
                allc.setdefault(L, set()).add(a)
                M.v(L.init[a] == C(1), 'init', 'does not start from "all complete"', h[4])
                for f0 in (0, 1):
                    for r0 in (0, 1):
                        m = {t: r0 for t in rt}
                        m[a] = f0
                        if not feasible(y, L.ndec, m):
                            continue
                        v = ev01(e, m)
                        M.v(v is not None and bool(v) == bool(f0 and r0), 'accumulate',
                            'does not combine the results of the requests to "all complete" (%d and %d give %s)' % (f0, r0, v), h[4])
    n = 0
    for x in M.own:
        w = x['last']
        if F.truth(mkcmp('sgt', M.count, C(0), 32), x['path']) is False:
            continue
        if not success(M, x):
            s = single(x['ret'])
            M.v(bool(s) and s[0] == 'call' and s[1].startswith('PMPI_'), 'ret', 'returns something that is not the result of a request', w)
            continue
        n += 1
        Ls = [L for L in reqloops(M, x)]
        mem = x['path'].mem.get(fp)
        fl = mem if mem is not None else final(x, fp)
        if not M.v(fl is not None, 'flag', 'leaves the flag undefined', w):
            continue
        s = single(fl)
        whole = [L for L in Ls if L.trip == M.count or M.endfact(x, L)]
        carried = {a for L in Ls for a in allc.get(L, ())}
        if s in carried:
            M.v(bool(whole), 'partial', 'reports its result before all requests have been tested', w)
        elif is_c(aslin(fl)):
            if aslin(fl)[1]:
                # allowed only if the loop never continues past an incomplete request
                M.v(bool(whole) and not carried, 'claims', 'reports all requests complete without regard to the tests', w)
            else:
                r = tail_result(M, x)
                M.v(r is not None and truth01(M, x['path'], r[3]) is False, 'denies', 'reports an incomplete request that was not found', w)
        else:
            v = {f: ev01(fl, {a: f for a in carried}) for f in (0, 1)}
            M.v(bool(whole) and carried and v[0] == 0 and bool(v[1]), 'flag', 'reports a flag that is not the combination of the tests', w)
    M.v(n > 0, 'never', 'never returns success')


def has_res(e, res):
    return bool(resterms(res, [e]))


def is_boolish(a, e, L):
    return L.step.get(a) is None and (aslin(L.init[a]) in (C(0), C(1)))


def main(c):
    waitall(c)
    testall(c)
    for n in ('MPI_Waitany', 'MPI_Waitsome', 'MPI_Testany', 'MPI_Testsome'):
        anytest(c, n)
    c.need('functions', 6)
    c.need('request_steps', 12)


if __name__ == '__main__':
    driver.run(main, 'P05', RULE)
