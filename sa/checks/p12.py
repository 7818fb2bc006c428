"""P12 any number of persistent operations live side by side: request table, slot table, two plans per operation, release."""
import sys
import os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
import driver  # noqa: E402
from driver import AnalysisError  # noqa: E402
from paths import *  # noqa: E402
from confwalk import ev  # noqa: E402

RULE = ('Ownership and typestate rules on the tables of the library over the LLVM IR (paths with loops summarised as recurrences, loads resolved '
        'to the last store): the request table probes the same sequence in lookup, insertion and removal, removal keeps the probe chains, unused '
        'entries always remain, growth re-inserts every live entry; the slot table hands out free slots only, growth keeps every entry of all '
        'arrays; starting swaps the two plans of an operation completely; every plan gets resources of its own and release gives back exactly '
        'those, once, after completion, and the tables only when no operation is left.')

HASH = 'src/mpi/hash_table.c'
NAT = 'src/mpi/ext_mpi_native.c'
SHM = 'src/mpi/shmem.c'
ALLOC = ('malloc', 'calloc', 'realloc')
BIG = 1 << 40


class Acc(FP):
    """paths with every access in the trace"""

    def __init__(self, fn, limit=20000):
        self.fn = fn

        def visit(ins, p, W):
            if ins.op == 'store':
                p.trace.append(('mst', W.val(ins.ops[1], p), W.val(ins.ops[0], p), ins))
            elif ins.op == 'load':
                p.trace.append(('pld', W.val(ins.ops[0], p), W.val(('reg', ins.res), p), ins))
            elif ins.op == 'call':
                nm = ins.extra if isinstance(ins.extra, str) else 'indirect'
                if nm.startswith('llvm.') and 'mem' not in nm:
                    return None
                r = W.val(('reg', ins.res), p) if ins.res is not None else None
                p.trace.append(('call', nm, [W.val(o, p) for o in ins.ops], r, ins))
                if nm in NORET:
                    return 'stop'
            return None
        W = LoopWalker(fn, visit, limit=limit)
        self.W = W
        W.run()
        self.paths = []
        for r, q, last in W.done:
            if r == 'loop':
                continue
            rv = W.val(last.ops[0], q) if r == 'ret' and last.ops else None
            self.paths.append({'kind': 'exit' if r in ('stop', 'unreachable') else r, 'trace': q.trace, 'ret': rv, 'path': q, 'last': last})

    def par(self, i):
        return atom(('param', i, self.fn.params[i][1]))


def ini(a):
    """contents of an address when the function is entered"""
    return atom(('ini', a))


def gl(n):
    return atom(('glob', n))


class Replay:
    """resolves loads to the last store to the same address"""

    def __init__(self, o=None):
        self.mem = dict(o.mem) if o else {}
        self.sub = dict(o.sub) if o else {}

    def canon(self, e):
        r = subst(e, self.sub)
        return r

    def step(self, t):
        if t[0] == 'pld':
            k = single(t[2])
            if k is not None and k[0] == 'ld':
                a = aslin(self.canon(t[1]))
                v = self.mem.get(a)
                self.sub[k] = v if v is not None else ini(a)
        elif t[0] == 'mst':
            self.mem[aslin(self.canon(t[1]))] = aslin(self.canon(t[2]))
        elif t[0] == 'loop':
            self.loop(t[1])

    def loop(self, L):
        """values loaded in the loop from places the loop does not write hold from its entry on; places it writes are unknown behind it"""
        written = set()
        ivs = set(L.init)
        trs = [tr for x, tr, nw in L.iters] + [tr for x, tr, o in L.exits]

        def stores(tr, r):
            for t in tr:
                r.step(t)
                if t[0] == 'mst':
                    written.add(aslin(r.canon(t[1])))
                elif t[0] == 'loop':
                    ivs.update(t[1].init)
                    for y in [q[1] for q in t[1].iters]:
                        stores(y, Replay(r))
        for tr in trs:
            stores(tr, Replay(self))
        for tr in trs:
            for t in tr:
                if t[0] == 'pld':
                    a = aslin(self.canon(t[1]))
                    k = single(t[2])
                    if k is not None and k[0] == 'ld' and a not in written and not any(v[0] == 'iv' for v in subterms(a)) and k not in self.sub:
                        v = self.mem.get(a)
                        self.sub[k] = v if v is not None else ini(a)
        for a in written:
            if not any(v in ivs for v in subterms(a)):
                self.mem[a] = atom(('after', a, repr(sorted(L.init))))


def flatten(tr, rep, out):
    """events in canonical form; loops become ('loop', L, state at entry)"""
    for t in tr:
        rep.step(t)
        if t[0] == 'mst':
            out.append(('st', aslin(rep.canon(t[1])), aslin(rep.canon(t[2])), t[3]))
        elif t[0] == 'pld':
            out.append(('ld', aslin(rep.canon(t[1])), None, t[3]))
        elif t[0] == 'call':
            out.append(('call', t[1], [aslin(rep.canon(a)) for a in t[2]], t[3], t[4]))
        elif t[0] == 'loop':
            out.append(('loop', t[1], Replay(rep)))
    return out


class Num:
    """valuation for confwalk.ev"""

    def __init__(self, f):
        self.f = f

    def atom(self, a):
        return self.f(a)


def alloc_atom(a):
    return a[0] == 'call' and a[1] in ALLOC


def infeasible(decs, f):
    m = Num(f)
    for t, cnd, truth in decs:
        v = ev(cnd, m)
        if v is None:
            continue
        if t.op == 'switch':
            if truth == 'default':
                if v in [k for k, _ in t.extra[1]]:
                    return True
            elif v != truth:
                return True
        elif bool(v) != bool(truth):
            return True
    return False


def canon_decs(decs, rep):
    return [(t, rep.canon(c), b) for t, c, b in decs]


def no_alloc_failure(decs):
    return not infeasible(decs, lambda a: BIG if alloc_atom(a) else None)


# ------------------------------------------------------------------ request table

class Probe:
    """a loop that walks over table entries: index variable, table base, start and step"""

    def __init__(self, L, rep, h, base):
        self.L, self.h, self.base = L, h, base
        self.start = rep.canon(L.init[h])
        self.rep = rep


def find_probe(L, rep):
    """index variable and base when the exits of the loop depend on entries base + 8*index"""
    for x, tr, o in [(x, tr, o) for x, tr, o in L.exits] + [(x, tr, None) for x, tr, nw in L.iters]:
        r = Replay(rep)
        flatten(tr, r, [])
        for t, c, b in x.decisions[L.ndec:]:
            for s in subterms(r.canon(c)):
                if s[0] == 'ini':
                    for a, k in aslin(s[1])[2]:
                        if k == 8 and a in L.init:
                            b = add(s[1], atom(a), -8)
                            if single(b) is not None:
                                return Probe(L, rep, a, b)
    return None


def describe(e, key, loops, memo):
    """structure of an expression, independent of names: loop variables by the recurrence they follow, the key by its role"""
    if e[0] == 'lin':
        e2 = e
        parts = []
        z = e2[1]
        ks = [k for k in key if all(dict(e2[2]).get(a) == f for a, f in k[2]) and k[2]]
        if ks:
            e2 = add(e2, ks[0], -1)
            z = e2[1]
            parts.append('KEY')
        for a, k in e2[2]:
            parts.append('%d*%s' % (k, describe(a, key, loops, memo)))
        return '(' + '+'.join([str(z)] + sorted(parts)) + ')'
    if e[0] == 'iv':
        if e in memo:
            return memo[e]
        L = next((x for x in loops if e in x[0].init), None)
        if L is None:
            return 'iv?'
        L, rep = L
        names = {}
        for _ in range(2):
            memo2 = dict(memo)
            for a in L.init:
                memo2[a] = names.get(a, 'self')
            names = {a: '{%s;%s;%s}' % (describe(rep.canon(L.init[a]), key, loops, memo2),
                                        '|'.join(sorted({describe(nw_canon(L, rep, i, a), key, loops, memo2) for i in range(len(L.iters))})),
                                        L.trip and describe(rep.canon(L.trip), key, loops, memo2)) for a in L.init}
        memo.update(names)
        return names[e]
    if e[0] in ('ld', 'ini'):
        return 'ld[%s]' % describe(e[2] if e[0] == 'ld' else e[1], key, loops, memo)
    return '%s(%s)' % (e[0], ','.join(describe(x, key, loops, memo) if isinstance(x, tuple) and x and isinstance(x[0], str) else str(x) for x in e[1:]
                                      if not (isinstance(x, tuple) and x and not isinstance(x[0], str))))


def nw_canon(L, rep, i, a):
    x, tr, nw = L.iters[i]
    r = Replay(rep)
    flatten(tr, r, [])
    return r.canon(nw[a])


def deep(tr, rep, out):
    """all loops of a trace with the state at their entry, nested ones included"""
    r = Replay(rep)
    for t in tr:
        r.step(t)
        if t[0] == 'loop':
            out.append((t[1], Replay(r)))
            for x, tr2, nw in t[1].iters:
                deep(tr2, r, out)
    return out


def step_table(P, size, n):
    """next index for every index, None when it depends on something else"""
    out = set()
    for i, (x, tr, nw) in enumerate(P.L.iters):
        e = nw_canon(P.L, P.rep, i, P.h)
        t = tuple(ev(aslin(e), Num(lambda a, h=h: h if a == P.h else n if size is not None and aslin(a) == size else None)) for h in range(n))
        out.add(t)
    return out


def bounded(fn, e, n):
    """upper bound of a start index"""
    s = single(e)
    if is_c(e):
        return e[1]
    if s is None:
        return None
    if s[0] in ('urem', 'srem'):
        b = aslin(s[2])
        return b[1] - 1 if is_c(b) else n - 1
    if s[0] == 'and':
        for x in s[1:3]:
            if is_c(aslin(x)):
                return aslin(x)[1]
    if s[0] == 'iv':
        d = fn.defs.get(s[2]) if isinstance(s[2], str) else None
        if d is not None and d.tys and isinstance(d.tys[0], str) and d.tys[0].startswith('i') and d.tys[0][1:].isdigit():
            return (1 << int(d.tys[0][1:])) - 1 if int(d.tys[0][1:]) < 32 else None
    return None


def request_table(c):
    m = driver.compile_one(HASH, tag='p12')
    F = {}
    for n in ('search', 'insert', 'delete', 'init', 'done'):
        f = m.fns.get('ext_mpi_hash_' + n)
        if f is None:
            raise AnalysisError('%s: ext_mpi_hash_%s is gone' % (HASH, n))
        c.fn(f.name)
        F[n] = Acc(f)

    def w(ins):
        return '%s:%s' % (HASH, ins.line or 0)

    # ---- initial state
    T = size = used = None
    tomb = tombkey = n0 = None
    for x in F['init'].paths:
        rep = Replay()
        evs = flatten(x['trace'], rep, [])
        ds = canon_decs(x['path'].decisions, rep)
        if not no_alloc_failure(ds):
            continue
        allocs = {e[3]: e for e in evs if e[0] == 'call' and e[1] in ALLOC}
        for e in evs:
            if e[0] == 'loop':
                L = e[1]
                for y, tr, nw in L.iters:
                    for s in flatten(tr, Replay(e[2]), []):
                        if s[0] == 'st' and s[2] == C(0):
                            for a, k in s[1][2]:
                                if k == 8 and a in L.init:
                                    b = add(s[1], atom(a), -8)
                                    T = next((g for g, v in rep.mem.items() if v == b and single(g) and single(g)[0] == 'glob'), T)
                                    if T is not None and b in allocs:
                                        nbytes = aslin(allocs[b][2][0])
                                        c.ob(is_c(nbytes) and L.trip is not None and is_c(aslin(e[2].canon(L.trip))) and L.init[a] == C(0) and
                                             L.step.get(a) == 1 and 8 * aslin(e[2].canon(L.trip))[1] == nbytes[1], 'init:fill',
                                             '%s: not every entry of the request table starts unused' % w(s[3]))
                                        n0 = nbytes[1] // 8 if is_c(nbytes) else None
        if T is None:
            for e in evs:
                if e[0] == 'call' and e[1] == 'calloc':
                    T = next((g for g, v in rep.mem.items() if v == e[3]), None)
                    n0 = e[2][0][1] if is_c(e[2][0]) else None
        if T is None or n0 is None:
            raise AnalysisError('%s: the set-up of the request table is not recognised' % HASH)
        for g, v in rep.mem.items():
            if v in allocs and g != T and single(g) and single(g)[0] == 'glob':
                tomb = g
                for a, v2 in rep.mem.items():
                    d = add(a, v, -1)
                    if is_c(d) and not is_c(v2):
                        tombkey = (d[1], v2)
            if v == C(n0):
                size = g
            if v == C(0) and single(g) and single(g)[0] == 'glob':
                used = used or g
        c.count('init_paths')
    if tomb is not None and tombkey is not None:
        a0 = single(tombkey[1])
        c.ob(a0 is not None and a0[0] in ('glob', 'inttoptr') or is_c(tombkey[1]), 'init:tombkey', '%s: the mark of removed entries is not a request that never occurs' % HASH)

    probes = {}

    def slots(x, name):
        """probe of a path, entry address and events behind it"""
        rep = Replay()
        evs = flatten(x['trace'], rep, [])
        ps = []
        for i, e in enumerate(evs):
            if e[0] == 'loop':
                p = find_probe(e[1], e[2])
                if p is not None and p.base in (ini(T), rep.mem.get(T)):
                    ps.append((i, p))
        return rep, evs, ps

    def probe_rule(name, F_, P, key, rep, evs):
        loops = []
        for e in evs:
            if e[0] == 'loop':
                loops.append((e[1], e[2]))
        d = describe(aslin(P.start), key, loops, {})
        b = bounded(F_.fn, aslin(P.start), n0)
        c.ob(b is None or b < n0, name + ':range', '%s: ext_mpi_hash_%s starts at an entry outside of the table' % (HASH, name))
        if size is not None:
            probes.setdefault('steps', []).append(lambda n, P=P: (list(step_table(P, ini(size), n)) or [None])[0])
        st = step_table(P, ini(size) if size is not None else None, n0)
        probes.setdefault('start', {}).setdefault(d, set()).add(name)
        for t in st:
            probes.setdefault('step', {}).setdefault(t, set()).add(name)
        c.count('probes')

    # ---- lookup
    K = D = None
    for x in F['search'].paths:
        rep, evs, ps = slots(x, 'search')
        ds = canon_decs(x['path'].decisions, rep)
        if x['kind'] != 'ret':
            c.ob(False, 'search:exit', '%s: looking up a request ends the program' % w(x['last']))
            continue
        ret = aslin(rep.canon(x['ret']))
        if len(ps) != 1:
            c.ob(is_c(ret) and ret[1] < 0, 'search:noprobe', '%s: a lookup succeeds without looking at the table' % w(x['last']))
            continue
        P = ps[0][1]
        S = ini(add(P.base, atom(P.h), 8))
        probe_rule('search', F['search'], P, [F['search'].par(0)], rep, evs)
        key = ini(F['search'].par(0))
        c.ob(not any(e[0] == 'st' for e in evs) and not any(e[0] == 'call' for e in evs), 'search:effect', '%s: looking up a request changes the table' % HASH)
        # which entry matches
        eqs = [(cnd, b) for t, cnd, b in ds if cnd[0] == 'cmp' and cnd[1] in ('eq', 'ne') and key in (cnd[2], cnd[3])]
        if is_c(ret):
            c.ob(ret[1] < 0, 'search:absent', '%s: an unknown request gets handle %d' % (w(x['last']), ret[1]))
            c.ob(infeasible(ds, lambda a: BIG if atom(a) == S else None), 'search:stop', '%s: the lookup gives up before an unused entry' % w(x['last']))
        else:
            r = single(ret)
            ok = r is not None and r[0] == 'ini' and is_c(add(r[1], S, -1))
            if c.ob(ok, 'search:data', '%s: the lookup does not return the handle stored in the matching entry' % w(x['last'])):
                D = add(r[1], S, -1)[1]
            hit = [o for cnd, b in eqs if b == (cnd[1] == 'eq') for o in (cnd[2], cnd[3]) if o != key]
            hit = [single(o) for o in hit if single(o) and single(o)[0] == 'ini' and is_c(add(single(o)[1], S, -1))]
            if c.ob(bool(hit), 'search:match', '%s: the lookup returns a handle without comparing the request of the entry' % w(x['last'])):
                K = add(hit[0][1], S, -1)[1]
            c.ob(infeasible(ds, lambda a: 0 if atom(a) == S else None), 'search:null', '%s: the lookup reads an unused entry' % w(x['last']))
        for i, (y, tr, nw) in enumerate(P.L.iters):
            r2 = Replay(P.rep)
            flatten(tr, r2, [])
            dd = canon_decs(y.decisions[P.L.ndec:], r2)
            c.ob(infeasible(dd, lambda a: 0 if atom(a) == S else None), 'search:end', '%s: the lookup walks past unused entries' % HASH)
            if K is not None:
                kk = ini(add(S, C(K)))
                c.ob(infeasible(dd, lambda a: 7 if atom(a) in (key, kk) else BIG if atom(a) == S else None), 'search:skip', '%s: the lookup walks past the entry of the request' % HASH)
    if K is None or D is None:
        raise AnalysisError('%s: the lookup of requests is not recognised' % HASH)

    # ---- insertion
    grow_paths = 0
    counted = {}
    for x in F['insert'].paths:
        if x['kind'] != 'ret':
            c.ob(False, 'insert:exit', '%s: registering a request ends the program' % w(x['last']))
            continue
        rep, evs, ps = slots(x, 'insert')
        ds = canon_decs(x['path'].decisions, rep)
        if not no_alloc_failure(ds):
            continue
        I = F['insert']
        ps = [q for q in ps if any(e[0] == 'st' and q[1].h in dict(e[1][2]) for e in evs)]
        if not c.ob(len(ps) == 1, 'insert:probe', '%s: registering a request does not look for a place in the table' % w(x['last'])):
            continue
        at, P = ps[0]
        cur = P.base
        E = add(P.base, atom(P.h), 8)
        S = ini(E)
        probe_rule('insert', I, P, [I.par(0)], rep, evs) if cur == ini(T) else None
        st = [e for e in evs if e[0] == 'st' and P.h in dict(e[1][2])]
        if not c.ob(len(st) == 1 and st[0][1] == E and any(e[0] == 'call' and e[3] == st[0][2] and e[1] in ALLOC for e in evs), 'insert:store',
                    '%s: a new entry is not stored at the place that was found' % w(x['last'])):
            continue
        item = st[0][2]
        c.ob(rep.mem.get(add(item, C(K))) == ini(I.par(0)), 'insert:key', '%s: the entry does not hold the request' % w(st[0][3]))
        c.ob(rep.mem.get(add(item, C(D))) == I.par(1), 'insert:data', '%s: the entry does not hold the handle' % w(st[0][3]))

        def tombval(a, S=S):
            if atom(a) == S:
                return 99
            if tomb is not None and atom(a) == ini(tomb):
                return 99
            if tombkey is not None and (atom(a) == ini(add(S, C(tombkey[0]))) or atom(a) == tombkey[1]):
                return 77
            return None

        def liveval(a, S=S):
            if atom(a) == S:
                return 98
            if tomb is not None and atom(a) == ini(tomb):
                return 99
            if tombkey is not None and atom(a) == ini(add(S, C(tombkey[0]))):
                return 76
            if tombkey is not None and atom(a) == tombkey[1]:
                return 77
            return None
        c.ob(infeasible(ds, liveval), 'insert:overwrite', '%s: a new entry may replace a live one' % w(st[0][3]))
        null = not infeasible(ds, lambda a: 0 if atom(a) == S else None)
        fresh = null and infeasible(ds, tombval)
        for i, (y, tr, nw) in enumerate(P.L.iters):
            r2 = Replay(P.rep)
            flatten(tr, r2, [])
            dd = canon_decs(y.decisions[P.L.ndec:], r2)
            c.ob(infeasible(dd, lambda a: 0 if atom(a) == S else None), 'insert:end', '%s: registering walks past unused entries' % HASH)
        # capacity: some entry stays unused
        grown = any(e[0] == 'st' and e[1] == T for e in evs)
        if not grown and size is not None and used is not None:
            nfull = [u for u in range(n0 - 1, n0 + 1) if not infeasible(ds, lambda a: n0 if atom(a) == ini(size) else u if atom(a) == ini(used) else None)]
            c.ob(not nfull, 'insert:full', '%s: registering a request goes on although no entry of the table would stay unused; the next lookup of a foreign '
                 'request never ends' % w(st[0][3]))
            u = rep.mem.get(used, ini(used))
            d = add(u, ini(used), -1)
            if fresh:
                c.ob(d == C(1), 'insert:count', '%s: a newly used entry is not counted' % w(st[0][3]))
            elif not null:
                c.ob(is_c(d) and d[1] >= 0, 'insert:count', '%s: the number of used entries is counted down' % w(st[0][3]))
            c.count('capacity')
        elif not grown:
            c.ob(False, 'insert:full', '%s: nothing keeps an entry of the request table unused: with %d requests the lookup of a foreign request never ends' % (w(st[0][3]), n0))
        if grown:
            grow_paths += 1
            new = rep.mem[T]
            ns = rep.mem.get(size) if size is not None else None
            al = next((e for e in evs if e[0] == 'call' and e[3] == new), None)
            nn = lambda e: ev(e, Num(lambda a: n0 if size is not None and atom(a) == ini(size) else None))
            if not c.ob(al is not None and ns is not None and nn(ns) is not None and nn(ns) > n0 and nn(aslin(al[2][0])) == 8 * nn(ns), 'grow:size',
                        '%s: the enlarged table has another size than the one used to walk over it' % HASH):
                continue
            filled = moved = False
            pos_free = None
            for i, e in enumerate(evs):
                if e[0] == 'call' and e[1] == 'free' and e[2][0] == ini(T):
                    pos_free = i
                if e[0] != 'loop':
                    continue
                L, r0 = e[1], e[2]
                iv = next((a for a in L.init if L.init[a] == C(0) and L.step.get(a) == 1), None)
                if iv is None or L.trip is None:
                    continue
                n = nn(aslin(r0.canon(L.trip)))
                for y, tr, nw in L.iters:
                    r2 = Replay(r0)
                    ee = flatten(tr, r2, [])
                    dd = canon_decs(y.decisions[L.ndec:], r2)
                    old = ini(add(ini(T), atom(iv), 8))
                    inner = [(q, find_probe(q[1], q[2])) for q in ee if q[0] == 'loop']
                    s = [q for q in ee if q[0] == 'st' and q[1][2]]
                    if any(q[1] == add(new, atom(iv), 8) and q[2] == C(0) for q in s):
                        filled = filled or n == nn(ns)
                    inner = [p for q, p in inner if p is not None and p.base == new]
                    if inner:
                        p2 = inner[0]
                        moved = moved or (filled and n == n0)
                        E2 = add(new, atom(p2.h), 8)
                        c.ob(any(q[1] == E2 and q[2] == old for q in s), 'grow:move', '%s: an entry is lost when the table grows' % HASH)
                        lp = deep(x['trace'], Replay(), [])
                        probes.setdefault('start', {}).setdefault(describe(aslin(p2.start), [add(old, C(K)), I.par(0)], lp, {}), set()).add('growth')
                        # walked over like in an ordinary table of that size
                        for j in range(len(p2.L.iters)):
                            ex = aslin(nw_canon(p2.L, p2.rep, j, p2.h))
                            num = lambda hv, sv: ev(ex, Num(lambda a: hv if a == p2.h else sv if atom(a) == ini(size) else None))
                            probes.setdefault('grown', set()).add((nn(ns), tuple(num(h, n0) for h in range(nn(ns)))))
                        c.ob(not infeasible(dd, lambda a: BIG if atom(a) == old else 5 if tomb is not None and atom(a) == ini(tomb) else None), 'grow:live',
                             '%s: live entries are not moved when the table grows' % HASH)
                        c.ob(infeasible(dd, lambda a: 0 if atom(a) == old else None), 'grow:null', '%s: unused entries are read when the table grows' % HASH)
                        for q in p2.L.exits:
                            r3 = Replay(p2.rep)
                            flatten(q[1], r3, [])
                            c.ob(infeasible(canon_decs(q[0].decisions[p2.L.ndec:], r3), lambda a: BIG if atom(a) == ini(E2) else None), 'grow:overwrite',
                                 '%s: an entry is overwritten when the table grows' % HASH)
                    elif not s and any(q[0] == 'ld' and q[1] == add(ini(T), atom(iv), 8) for q in ee):
                        # an entry that is not moved: unused or removed
                        c.ob(infeasible(dd, lambda a: BIG if atom(a) == old else 5 if tomb is not None and atom(a) == ini(tomb) else None), 'grow:drop',
                             '%s: live entries are dropped when the table grows' % HASH)
            c.ob(filled, 'grow:fill', '%s: the enlarged table starts with undefined entries' % HASH)
            c.ob(moved, 'grow:all', '%s: not all entries are moved when the table grows' % HASH)
            c.ob(pos_free is None or pos_free < at, 'grow:free', '%s: the old table is used after it was freed' % HASH)
    if size is not None:
        c.count('growth', grow_paths)

    # ---- removal
    rem = 0
    for x in F['delete'].paths:
        rep, evs, ps = slots(x, 'delete')
        ds = canon_decs(x['path'].decisions, rep)
        if len(ps) != 1:
            c.ob(not any(e[0] == 'st' for e in evs), 'delete:noprobe', '%s: an entry is removed without looking for it' % w(x['last']))
            continue
        P = ps[0][1]
        E = add(P.base, atom(P.h), 8)
        S = ini(E)
        DP = F['delete']
        probe_rule('delete', DP, P, [DP.par(0)], rep, evs)
        key = ini(DP.par(0))
        kk = ini(add(S, C(K)))
        st = [e for e in evs if e[0] == 'st']
        fr = [e for e in evs if e[0] == 'call' and e[1] == 'free']
        matches = infeasible(ds, lambda a: 7 if atom(a) == key else 8 if atom(a) == kk else BIG if atom(a) == S else None)
        present = infeasible(ds, lambda a: 0 if atom(a) == S else None)
        if st or fr:
            rem += 1
            c.ob(matches and present, 'delete:match', '%s: an entry of another request is removed' % w(x['last']))
            tab = [e for e in st if e[1] == E]
            c.ob(len(tab) == 1 and tomb is not None and tab[0][2] == ini(tomb), 'delete:mark',
                 '%s: a removed entry is not marked as removed; later entries of the same chain are not found any more' % w(x['last']))
            c.ob([e[2][0] for e in fr] == [S], 'delete:free', '%s: removing a request does not free its entry exactly once' % w(x['last']))
            c.ob(all(e[1] == E or used is not None and e[1] != used for e in st), 'delete:count', '%s: a removed entry counts as unused' % w(x['last']))
            if fr:
                i = evs.index(fr[0])
                c.ob(not any(e[0] == 'ld' and is_c(add(e[1], S, -1)) for e in evs[i:]), 'delete:uaf', '%s: the entry is read after it was freed' % w(x['last']))
        else:
            c.ob(infeasible(ds, lambda a: 7 if atom(a) in (key, kk) else BIG if atom(a) == S else None), 'delete:miss', '%s: a request that is found is not removed' % w(x['last']))
        for y, tr, nw in P.L.iters:
            r2 = Replay(P.rep)
            flatten(tr, r2, [])
            dd = canon_decs(y.decisions[P.L.ndec:], r2)
            c.ob(infeasible(dd, lambda a: 0 if atom(a) == S else None), 'delete:end', '%s: removal walks past unused entries' % HASH)
            c.ob(infeasible(dd, lambda a: 7 if atom(a) in (key, kk) else BIG if atom(a) == S else None), 'delete:skip', '%s: removal walks past the entry of the request' % HASH)
    c.ob(rem > 0, 'delete:none', '%s: removing a request does nothing' % HASH)
    c.ob(len(probes.get('start', {})) == 1, 'probe:start', '%s: %s start looking at different entries for the same request' % (
        HASH, ' / '.join('+'.join(sorted(v)) for v in probes.get('start', {}).values())))
    for ng, t in probes.get('grown', ()):
        seen, h = set(), 0
        while h is not None and 0 <= h < ng and h not in seen:
            seen.add(h)
            h = t[h]
        c.ob(len(seen) == ng and h == 0, 'grow:cover', '%s: the walk over the enlarged table does not visit every entry (%d of %d)' % (HASH, len(seen), ng))
        for u in probes['steps']:
            c.ob(u(ng) == t, 'grow:step', '%s: the enlarged table is filled by another walk than it is searched by' % HASH)
    st = probes.get('step', {})
    c.ob(len(st) == 1, 'probe:step', '%s: %s walk over the table differently' % (HASH, ' / '.join('+'.join(sorted(v)) for v in st.values())))
    for t in st:
        seen, h = set(), 0
        while h is not None and 0 <= h < n0 and h not in seen:
            seen.add(h)
            h = t[h]
        c.ob(len(seen) == n0 and h == 0, 'probe:cover', '%s: the walk over the request table does not visit every entry (%d of %d)' % (HASH, len(seen), n0))

    # ---- end
    for x in F['done'].paths:
        rep = Replay()
        evs = flatten(x['trace'], rep, [])
        fr = [e[2][0] for e in evs if e[0] == 'call' and e[1] == 'free']
        c.ob(fr.count(ini(T)) == 1 and len(fr) == len(set(fr)), 'done:free', '%s: the request table is not freed exactly once' % HASH)
        for e in evs:
            if e[0] == 'loop':
                for y, tr, nw in e[1].iters:
                    r2 = Replay(e[2])
                    ee = flatten(tr, r2, [])
                    dd = canon_decs(y.decisions[e[1].ndec:], r2)
                    f2 = [q for q in ee if q[0] == 'call' and q[1] == 'free']
                    for q in f2:
                        c.ob(tomb is None or infeasible(dd, lambda a: 5 if atom(a) in (q[2][0], ini(tomb)) else None), 'done:dummy',
                             '%s: the mark of removed entries is freed for every removed entry' % HASH)


# ------------------------------------------------------------------ slot table

def closure(m, f):
    out, todo = set(), [f]
    while todo:
        n = todo.pop()
        if n in out or n not in m.fns:
            continue
        out.add(n)
        for b in m.fns[n].blocks:
            for ins in b.ins:
                if ins.op == 'call' and isinstance(ins.extra, str):
                    todo.append(ins.extra)
    return out


def role(m, sites, what):
    """the smallest function whose static callees contain all sites"""
    best = None
    for n in m.fns:
        cl = closure(m, n)
        if sites <= cl and (best is None or len(cl) < best[0]):
            best = (len(cl), n)
    if not sites or best is None:
        raise AnalysisError('%s: %s not found' % (NAT, what))
    return best[1]


TAB = {'comm_code': 8, 'execution_pointer': 8, 'active_wait': 4}


def slot_table(c, m, name):
    A = Acc(m.fns[name])
    c.fn(name)
    mx = 'handle_code_max'
    for g in list(TAB) + [mx]:
        if g not in m.globs:
            raise AnalysisError('%s: table %s is gone' % (NAT, g))
    G = {g: gl(g) for g in TAB}
    M = gl(mx)

    def w(ins):
        return '%s:%s' % (NAT, ins.line or 0)
    served = set()
    want = set()
    for x in A.paths:
        rep = Replay()
        evs = flatten(x['trace'], rep, [])
        ds = canon_decs(x['path'].decisions, rep)
        if not no_alloc_failure(ds):
            continue
        if x['kind'] != 'ret':
            c.ob(False, 'slot:exit', '%s: taking a slot ends the program' % w(x['last']))
            continue
        ret = aslin(rep.canon(x['ret']))
        first = not infeasible(ds, lambda a: 0 if atom(a) == ini(G['comm_code']) else BIG if alloc_atom(a) else None)
        later = not infeasible(ds, lambda a: BIG if atom(a) == ini(G['comm_code']) or alloc_atom(a) else None)
        # scan loop
        scan = None
        for e in evs:
            if e[0] == 'loop':
                p = find_probe(e[1], e[2])
                if p is not None:
                    scan = p
        if scan is None:
            c.ob(False, 'slot:scan', '%s: a slot is handed out without looking at the table' % w(x['last']))
            continue
        c.count('slot_paths')
        for case in (['first'] if first else []) + (['later'] if later else []):
            for mval in (2, 4, 6, 12):
                def val(h, occ, case=case, mval=mval):
                    def f(a):
                        if a == scan.h:
                            return h
                        if atom(a) == ini(M):
                            return mval
                        if a[0] == 'ini':
                            for g in TAB:
                                if atom(a) == ini(G[g]):
                                    return 0 if case == 'first' else BIG
                            e = add(a[1], scan.base, -1)
                            if e == scale(atom(scan.h), 8):
                                return BIG if occ else 0
                        if alloc_atom(a):
                            return BIG
                        return None
                    return f
                # indices the scan reaches
                reach, h = [], 0
                st = scan.L.step.get(scan.h)
                if not c.ob(st == 2 and scan.L.init[scan.h] == C(0), 'slot:step', '%s: the slots are not walked over in pairs from the first one' % NAT):
                    return
                while h not in reach and len(reach) < 40:
                    reach.append(h)
                    go = stop = False
                    for i, (y, tr, nw) in enumerate(scan.L.iters):
                        r2 = Replay(scan.rep)
                        flatten(tr, r2, [])
                        dd = canon_decs(y.decisions[scan.L.ndec:], r2)
                        go = go or not infeasible(dd, val(h, 1))
                        stop = stop or not infeasible(dd, val(h, 0))
                    c.ob(not stop, 'slot:skip', '%s: free slots are walked past' % NAT)
                    if not go:
                        break
                    h += 2
                c.ob(all(0 <= h <= mval - 2 for h in reach), 'slot:bounds', '%s: the search for a slot reads behind the table (slot %d of %d)' % (NAT, max(reach), mval))
                last = reach[-1]
                for h in reach:
                    for occ in ((0,) if case == 'first' else (0, 1)):
                        if occ and h != last:
                            continue
                        want.add((case, mval, h, occ))
                        if infeasible(ds, val(h, occ)):
                            continue
                        served.add((case, mval, h, occ))
                        f = val(h, occ)
                        n = Num(f)
                        r = ev(ret, n)
                        nm = ev(rep.mem.get(M, ini(M)), n)
                        if not c.ob(r is not None and nm is not None, 'slot:value', '%s: the slot returned is not determined by the search' % w(x['last'])):
                            continue
                        fresh = r >= mval
                        c.ob(r % 2 == 0 and 0 <= r <= nm - 2, 'slot:range', '%s: slot %d of a table of %d entries is handed out' % (w(x['last']), r, nm))
                        c.ob(fresh or r == h and not occ, 'slot:occupied', '%s: a slot that is in use is handed out (table of %d entries)' % (w(x['last']), mval))
                        # contents of the tables afterwards
                        for g, sz in TAB.items():
                            cur = rep.mem.get(G[g], ini(G[g]))
                            if cur == ini(G[g]):
                                c.ob(case != 'first', 'slot:table', '%s: table %s is used before it exists' % (w(x['last']), g))
                                c.ob(nm == mval, 'slot:grown', '%s: the size of the tables grows without table %s' % (w(x['last']), g))
                                c.ob(not any(e[0] == 'call' and e[1] == 'free' and e[2][0] == cur for e in evs), 'slot:freed', '%s: table %s is freed' % (w(x['last']), g))
                                continue
                            al = next((e for e in evs if e[0] == 'call' and e[3] == cur and e[1] in ALLOC), None)
                            if not c.ob(al is not None, 'slot:alloc', '%s: table %s points to something that is not a new table' % (w(x['last']), g)):
                                continue
                            nb = ev(al[2][0], n)
                            if al[1] == 'calloc':
                                nb *= ev(al[2][1], n)
                            c.ob(nb is not None and nb >= sz * nm, 'slot:bytes:' + g, '%s: %s has %s bytes for %d entries' % (w(al[4]), g, nb, nm))
                            cont = ['?'] * nm if al[1] != 'calloc' else [0] * nm
                            freed = None
                            for i, e in enumerate(evs):
                                if e[0] == 'call' and e[1] == 'free':
                                    if e[2][0] == ini(G[g]):
                                        freed = i
                                    c.ob(e[2][0] != cur, 'slot:freed', '%s: table %s is freed' % (w(e[4]), g))
                                if e[0] == 'call' and ('memcpy' in e[1] or 'memmove' in e[1]) and e[2][0] == cur:
                                    k = ev(e[2][2], n)
                                    ok = e[2][1] == ini(G[g]) and k is not None
                                    for j in range(min(nm, (k or 0) // sz)):
                                        cont[j] = ('old', j) if ok and j < mval else '?'
                                if e[0] == 'call' and 'memset' in e[1] and e[2][0] == cur:
                                    k = ev(e[2][2], n)
                                    for j in range(min(nm, (k or 0) // sz)):
                                        cont[j] = 0 if e[2][1] == C(0) else '?'
                                if e[0] == 'loop':
                                    L = e[1]
                                    for y, tr, nw in L.iters:
                                        for s in flatten(tr, Replay(e[2]), []):
                                            if s[0] != 'st':
                                                continue
                                            off = add(s[1], cur, -1)
                                            iv = next((a for a, k in off[2] if a in L.init and k == sz), None)
                                            if iv is None or cur[2] and any(t in dict(off[2]) for t, k in cur[2]):
                                                continue
                                            z = add(off, atom(iv), -sz)
                                            a0, stp = ev(aslin(e[2].canon(L.init[iv])), n), L.step.get(iv)
                                            tp = ev(aslin(e[2].canon(L.trip)), n) if L.trip is not None else None
                                            if not is_c(z) or z[1] % sz or a0 is None or stp is None or tp is None:
                                                c.ob(False, 'slot:fill:' + g, '%s: what is stored into %s cannot be followed' % (w(s[3]), g))
                                                continue
                                            for q in range(max(0, tp)):
                                                j = a0 + q * stp + z[1] // sz
                                                if not c.ob(0 <= j < nm, 'slot:over:' + g, '%s: entry %d of %s is written, it has %d' % (w(s[3]), j, g, nm)):
                                                    continue
                                                if s[2] == C(0):
                                                    cont[j] = 0
                                                elif s[2] == ini(add(ini(G[g]), add(scale(atom(iv), sz), z))):
                                                    cont[j] = ('old', j) if freed is None and j < mval else '?'
                                                else:
                                                    cont[j] = '?'
                            exp = [0] * nm if case == 'first' else [('old', j) if j < mval else 0 for j in range(nm)]
                            bad = [j for j in range(nm) if cont[j] != exp[j] and not (g != 'comm_code' and exp[j] == 0 and j < 0)]
                            c.ob(not bad, 'slot:content:' + g, '%s: after %s entry %d of %s is %s' % (
                                name, 'the set-up' if case == 'first' else 'growth from %d to %d entries' % (mval, nm), bad[0] if bad else 0, g,
                                'undefined' if bad and cont[bad[0]] == '?' else 'lost' if bad and exp[bad[0]] != 0 else 'not empty'))
                            c.count('slot_tables')
    miss = want - served
    c.ob(not miss, 'slot:none', '%s: no slot is found in state %s' % (NAT, sorted(miss)[:1]))


# ------------------------------------------------------------------ start

def start(c, m):
    name = 'EXT_MPI_Start_native'
    A = Acc(m.fns[name])
    c.fn(name)
    hdr = m.sizeof_struct
    C_, E_, W_ = (ini(gl(g)) for g in TAB)
    h = A.par(0)
    a0, a1 = add(C_, scale(h, 8)), add(add(C_, scale(h, 8)), C(8))
    e0, e1 = add(E_, scale(h, 8)), add(add(E_, scale(h, 8)), C(8))
    for x in A.paths:
        wh = '%s:%s' % (NAT, x['last'].line or 0)
        rep = Replay()
        evs = flatten(x['trace'], rep, [])
        ds = canon_decs(x['path'].decisions, rep)
        two = not infeasible(ds, lambda a: BIG if atom(a) == ini(a1) else None)
        one = not infeasible(ds, lambda a: 0 if atom(a) == ini(a1) else None)
        if not c.ob(two != one, 'start:cond', '%s: starting does not distinguish operations with one and with two plans' % wh):
            continue
        get = lambda a: rep.mem.get(a, ini(a))
        if two:
            c.ob(get(a0) == ini(a1) and get(a1) == ini(a0), 'start:swap', '%s: the two plans of an operation are not exchanged when it is started' % wh)
            c.ob(get(e1) in (ini(e0), C(0)), 'start:pointer', '%s: the position in the other plan is lost when an operation is started' % wh)
        else:
            c.ob(get(a0) == ini(a0) and get(a1) == ini(a1), 'start:keep', '%s: starting replaces the only plan of an operation' % wh)
            c.ob(get(e1) == ini(e1), 'start:pointer', '%s: starting changes the position of another operation' % wh)
        c.ob(get(e0) == add(get(a0), C(hdr)), 'start:begin', '%s: a started operation does not begin at the start of its plan' % wh)
        c.ob(get(add(W_, scale(h, 4))) == C(0), 'start:mode', '%s: a started operation is not in the waiting state' % wh)
        own = {a0, a1, e0, e1, add(W_, scale(h, 4))}
        c.ob(all(e[1] in own for e in evs if e[0] == 'st'), 'start:other', '%s: starting changes something of another operation' % wh)
        c.count('start_paths')


# ------------------------------------------------------------------ release

def release(c, m):
    name = 'EXT_MPI_Done_native'
    A = Acc(m.fns[name])
    c.fn(name)
    off = m.hdr
    C_ = ini(gl('comm_code'))
    h = A.par(0)
    a0 = add(C_, scale(h, 8))
    a1 = add(a0, C(8))
    kinds = set()
    for x in A.paths:
        wh = '%s:%s in %s' % (NAT, x['last'].line or 0, name)
        rep = Replay()
        evs = flatten(x['trace'], rep, [])
        ds = canon_decs(x['path'].decisions, rep)
        if x['kind'] != 'ret':
            c.ob(False, 'free:exit', '%s: releasing an operation ends the program' % wh)
            continue
        two = not infeasible(ds, lambda a: BIG if atom(a) == ini(a1) else None)
        one = not infeasible(ds, lambda a: 0 if atom(a) == ini(a1) else None)
        c.ob(two != one, 'free:cond', '%s: release does not distinguish operations with one and with two plans' % wh)
        plans = [(a0, ini(a0))] + ([(a1, ini(a1))] if two else [])
        given = [i for i, e in enumerate(evs) if e[0] == 'call' and e[1] in ('free', 'ext_mpi_destroy_shared_memory')]
        waits = [i for i, e in enumerate(evs) if e[0] == 'call' and e[1] == 'EXT_MPI_Wait_native' and e[2] == [h]]
        c.ob(bool(waits) and bool(given) and waits[0] < given[0], 'free:wait', '%s: an operation is released before it is complete' % wh)
        frees = [e[2][0] for e in evs if e[0] == 'call' and e[1] == 'free']
        c.ob(len(frees) == len(set(frees)), 'free:twice', '%s: something is freed twice' % wh)
        allowed = []
        for a, P in plans:
            F = lambda f: ini(add(P, C(off[f])))
            n = 'first' if a == a0 else 'second'
            ds_ = [e for e in evs if e[0] == 'call' and e[1] == 'ext_mpi_destroy_shared_memory' and len(e[2]) == 5 and e[2][3] == F('shmem')]
            c.ob(len(ds_) == 1 and ds_[0][2][1] == F('num_sockets_per_node') and ds_[0][2][2] == F('shmemid') and ds_[0][2][4] == P, 'free:shared:' + n,
                 '%s: the shared memory of the %s plan is not given back exactly once with its own descriptors' % (wh, n))
            for f in ('locmem', 'barrier_shmem_node'):
                c.ob(frees.count(F(f)) == 1, 'free:%s:%s' % (f, n), '%s: %s of the %s plan is not freed exactly once' % (wh, f, n))
                allowed.append(F(f))
            c.ob(frees.count(P) == 1, 'free:code:' + n, '%s: the %s plan is not freed exactly once' % (wh, n))
            allowed.append(P)
            c.ob(rep.mem.get(a, None) == C(0), 'free:slot:' + n, '%s: the slot of a released operation is not marked as free' % wh)
            pos = [i for i, e in enumerate(evs) if e[0] == 'call' and e[1] == 'free' and e[2][0] == P]
            if pos:
                late = [e for e in evs[pos[0] + 1:] if e[0] == 'ld' and (is_c(add(e[1], P, -1)) or any(t == single(P) for t, k in e[1][2])) or
                        e[0] == 'call' and P in e[2]]
                c.ob(not late, 'free:uaf:' + n, '%s: the %s plan is used after it was freed' % (wh, n))
        nd = [e for e in evs if e[0] == 'call' and e[1] == 'ext_mpi_destroy_shared_memory']
        c.ob(len(nd) == len(plans), 'free:others', '%s: shared memory of something else is given back' % wh)
        # the tables go with the last operation
        tf = [g for g in TAB if ini(gl(g)) in frees]
        allowed += [ini(gl(g)) for g in TAB]
        c.ob(all(f in allowed for f in frees), 'free:foreign', '%s: something is freed that does not belong to the operation' % wh)
        scan = None
        for i, e in enumerate(evs):
            if e[0] == 'loop':
                p = find_probe(e[1], e[2])
                if p is not None and p.base == C_:
                    scan = (i, p)
        if tf:
            kinds.add('last')
            c.ob(len(tf) == 3 and all(rep.mem.get(gl(g)) == C(0) for g in TAB), 'free:tables', '%s: the tables are given back only in part' % wh)
            if c.ob(scan is not None, 'free:scan', '%s: the tables are given back without looking for other operations' % wh):
                i, p = scan
                s = ini(add(C_, atom(p.h), 8))
                ok = infeasible(ds, lambda a: 3 if a == p.h else 8 if atom(a) == ini(gl('handle_code_max')) else BIG if atom(a) == s else None)
                c.ob(ok, 'free:early', '%s: the tables are given back while an operation exists' % wh)
                st = p.L.step.get(p.h) or 1
                for mx in (8, 100, 400):
                    for hh in range(0, mx, abs(st)):
                        c.ob(infeasible(ds, lambda a: hh if a == p.h else mx if atom(a) == ini(gl('handle_code_max')) else None), 'free:early',
                             '%s: the tables are given back before all entries were looked at' % wh)
                for y, tr, nw in p.L.iters:
                    r2 = Replay(p.rep)
                    flatten(tr, r2, [])
                    dd = canon_decs(y.decisions[p.L.ndec:], r2)
                    c.ob(infeasible(dd, lambda a: BIG if atom(a) == s else None), 'free:early', '%s: the tables are given back while an operation exists' % wh)
                c.ob(p.L.init[p.h] == C(0) and p.L.step.get(p.h) in (1, 2), 'free:early', '%s: not all entries are looked at before the tables are given back' % wh)
                slot_st = [j for j, e in enumerate(evs) if e[0] == 'st' and e[1] in (a0, a1)]
        else:
            kinds.add('other')
            if scan is not None:
                i, p = scan
                s = ini(add(C_, atom(p.h), 8))
                c.ob(infeasible(ds, lambda a: 0 if atom(a) == s else None), 'free:leak', '%s: the tables are kept although no operation is left' % wh)
        c.count('release_paths')
    c.ob('last' in kinds, 'free:never', '%s: the tables are never given back' % NAT)


def destroy(c):
    m = driver.compile_one(SHM, tag='p12')
    name = 'ext_mpi_destroy_shared_memory'
    if name not in m.fns:
        raise AnalysisError('%s: %s is gone' % (SHM, name))
    A = Acc(m.fns[name])
    c.fn(name)
    ids, mem = A.par(2), A.par(3)
    for x in A.paths:
        wh = '%s:%s in %s' % (SHM, x['last'].line or 0, name)
        rep = Replay()
        evs = flatten(x['trace'], rep, [])
        fr = [e[2][0] for e in evs if e[0] == 'call' and e[1] == 'free']
        c.ob(sorted(map(repr, fr)) == sorted(map(repr, (ids, mem))), 'destroy:free', '%s: the segment tables are not freed exactly once' % wh)
        Ls = [e for e in evs if e[0] == 'loop']
        if not c.ob(len(Ls) == 1, 'destroy:loop', '%s: the segments are not walked over once' % wh):
            continue
        L, r0 = Ls[0][1], Ls[0][2]
        nseg = A.par(1)
        iv = None
        for a in L.init:
            if a in L.step and L.trip is not None:
                def visited(n):
                    v = Num(lambda q: n if atom(q) == nseg else None)
                    i0, tp = ev(aslin(r0.canon(L.init[a])), v), ev(aslin(r0.canon(L.trip)), v)
                    return None if i0 is None or tp is None else sorted(i0 + L.step[a] * k for k in range(max(0, tp)))
                for z in (0, 1, -1):
                    if all(visited(n) == list(range(-z, n - z)) for n in (1, 2, 3, 8)):
                        iv = add(atom(a), C(z))
        c.ob(iv is not None, 'destroy:all', '%s: not every segment is given back' % wh)
        if iv is None:
            continue
        S = ini(add(mem, iv, 8))
        I = ini(add(ids, iv, 4))
        for y, tr, nw in L.iters:
            r2 = Replay(r0)
            ee = flatten(tr, r2, [])
            dd = canon_decs(y.decisions[L.ndec:], r2)
            cs = [e for e in ee if e[0] == 'call']
            for idv in (-2, -1, 17):
                if infeasible(dd, lambda a: idv if atom(a) == I else None):
                    continue
                f = [e for e in cs if e[1] == 'free']
                d = [e for e in cs if e[1] == 'shmdt']
                r = [e for e in cs if e[1] == 'shmctl']
                if idv == -2:
                    c.ob([e[2][0] for e in f] == [S] and not d and not r, 'destroy:private', '%s: private memory is not freed exactly once' % wh)
                else:
                    c.ob([e[2][0] for e in d] == [S] and not f, 'destroy:detach', '%s: a shared segment is not detached exactly once' % wh)
                    if idv != -1:
                        c.ob(len(r) >= 1 and all(e[2][0] == I and e[2][1] == C(0) for e in r), 'destroy:remove',
                             '%s: a shared segment is not removed from the system' % wh)
                        if r and d:
                            c.ob(all(e[2][0] == I for e in r), 'destroy:other', '%s: another segment is removed' % wh)
                    else:
                        c.ob(not r, 'destroy:invalid', '%s: a segment that was not created is removed' % wh)
                c.count('segment_cases')


# ------------------------------------------------------------------ own resources of each plan

def own(c, m, name):
    A = Acc(m.fns[name])
    c.fn(name)
    GEN, SET = 'ext_mpi_generate_byte_code', 'ext_mpi_setup_shared_memory'
    nal = 0
    for x in A.paths:
        wh = '%s:%s in %s' % (NAT, x['last'].line or 0, name)
        rep = Replay()
        evs = flatten(x['trace'], rep, [])
        ds = canon_decs(x['path'].decisions, rep)
        if x['kind'] != 'ret' or not no_alloc_failure(ds):
            continue
        gen = [(i, e) for i, e in enumerate(evs) if e[0] == 'call' and e[1] == GEN]
        # a set-up that succeeded: the result of no call is known to be negative
        ret = aslin(rep.canon(x['ret']))
        if is_c(ret) and ret[1] < 0:
            continue
        if not c.ob(len(gen) >= 2, 'own:gen', '%s: an operation is set up without generating its plan' % wh):
            continue
        dry = [(i, e) for i, e in gen if e[2][11] == C(0)]
        real = [(i, e) for i, e in gen if e[2][11] != C(0)]
        c.ob(len(dry) >= 1 and dry[0][0] < real[0][0], 'own:size', '%s: the size of the plan is not determined before it is written' % wh)
        slot = [(e[1], e[2]) for e in evs if e[0] == 'st' and e[2] in [g[1][2][11] for g in real]]
        codes = [g[1][2][11] for g in real]
        c.ob(len(set(codes)) == len(codes), 'own:same', '%s: the two plans of an operation share their code' % wh)
        for i, e in real:
            code = e[2][11]
            al = next((q for q in evs if q[0] == 'call' and q[3] == code and q[1] in ALLOC), None)
            c.ob(al is not None and al[2][0] == dry[0][1][3], 'own:bytes', '%s: the memory of a plan has not the size determined for it' % wh)
        # same description of the plan in all calls: arguments that are not resources
        for i, e in real:
            for k in (3, 4, 5, 9, 10, 12, 13, 15, 17, 21):
                if k < len(e[2]):
                    c.ob(e[2][k] == dry[0][1][2][k], 'own:arg%d' % k, '%s: the plan is generated from other values than those its size was determined from' % wh)
        base = add(gl('comm_code'), C(0))
        tabs = [a for a, v in slot]
        c.ob(len(tabs) == len(codes), 'own:slot', '%s: a plan is not entered in the slot of its operation' % wh)
        h = ret
        C_ = ini(gl('comm_code'))
        for k, (i, e) in enumerate(real):
            dst = [a for a, v in slot if v == e[2][11]]
            c.ob(dst == [add(add(C_, scale(h, 8)), C(8 * k))], 'own:place', '%s: plan %d is not entered in the slot that is returned' % (wh, k))
        if len(real) == 1:
            a1 = add(add(C_, scale(h, 8)), C(8))
            c.ob(rep.mem.get(a1) == C(0), 'own:none', '%s: the second plan of an operation without alternation is undefined' % wh)
        else:
            nal += 1
            sets = [i for i, e in enumerate(evs) if e[0] == 'call' and e[1] == SET]
            zero = not sets
            if not zero:
                c.ob(len(sets) == 2 and sets[0] < real[0][0] < sets[1] < real[1][0], 'own:shared', '%s: the two plans of an operation share their shared memory' % wh)
            l0, l1 = real[0][1][2][8], real[1][1][2][8]
            mine = any(e[0] == 'call' and e[1] in ALLOC and e[3] == l0 for e in evs)
            c.ob(not mine or l0 != l1, 'own:locmem', '%s: the two plans of an operation share their message requests' % wh)
        c.count('setup_paths')
    c.ob(nal > 0, 'own:alt', '%s: no operation gets a second plan' % NAT)


def main(c):
    request_table(c)
    raw = driver.compile_one(NAT, inline=False, tag='p12r')
    tabs, gens = set(), set()
    for n, f in raw.fns.items():
        defs = {}
        for b in f.blocks:
            for ins in b.ins:
                if ins.op == 'call' and ins.res is not None:
                    defs[ins.res] = ins.extra
                if ins.op == 'store' and ins.ops[1] == ('glob', 'comm_code') and ins.ops[0][0] == 'reg' and defs.get(ins.ops[0][1]) in ALLOC:
                    tabs.add(n)
                if ins.op == 'call' and ins.extra == 'ext_mpi_generate_byte_code':
                    gens.add(n)
    getter = role(raw, tabs, 'the allocation of the slot table')
    setup = role(raw, gens, 'the generation of the byte code')
    m = driver.compile_one(NAT, tag='p12', keep=(getter, setup))
    m.hdr = {n: o for o, n, _ in m.struct_fields('header_byte_code')}
    for f in ('shmem', 'shmemid', 'locmem', 'barrier_shmem_node', 'num_sockets_per_node'):
        if f not in m.hdr:
            raise AnalysisError('plan header has no field %s' % f)
    m.sizeof_struct = sizeof(m, '%struct.header_byte_code')
    slot_table(c, m, getter)
    start(c, m)
    release(c, m)
    destroy(c)
    own(c, m, setup)
    c.need('probes', 5)
    c.need('slot_paths', 3)
    c.need('start_paths', 2)
    c.need('release_paths', 4)
    c.need('segment_cases', 3)
    c.need('setup_paths', 2)


if __name__ == '__main__':
    driver.run(main, 'P12', RULE)
