"""Loop summaries on top of the path walker.

A loop is entered once per path and replaced by one symbolic iteration: every value the loop changes becomes an
unknown ('iv', loop, name); the iteration's paths give the new values, the effects (trace) and the continuation
conditions; affine changes and a single continuation condition give closed forms (trip count, final values)."""
from sym import *


def subst(e, m):
    """replace atoms by linear expressions"""
    if not isinstance(e, tuple) or not e:
        return e
    if e[0] == 'lin':
        r = C(e[1])
        for x, k in e[2]:
            y = m.get(x)
            if y is None:
                y = subst(x, m)
                y = aslin(y) if isinstance(y, tuple) and y and y[0] in ('lin',) else atom(y)
            r = add(r, y, k)
        return r
    if e in m:
        return m[e]
    if e[0] == 'cmp':
        return mkcmp(e[1], subst(e[2], m), subst(e[3], m))
    return tuple(subst(x, m) if isinstance(x, tuple) else x for x in e)


def has(e, pred):
    if not isinstance(e, tuple):
        return False
    if e and pred(e):
        return True
    return any(has(x, pred) for x in e if isinstance(x, tuple))


class LoopSum:
    """summary of one loop entry"""

    def __init__(self, fn, header, body):
        self.fn, self.header, self.body = fn, header, body
        self.init = {}       # iv atom -> value at entry
        self.step = {}       # iv atom -> constant step (affine only)
        self.iters = []      # (path, trace, new values) of complete iterations
        self.exits = []      # (path, trace, outside block)
        self.rets = []       # paths leaving the function from inside
        self.trip = None     # number of complete iterations (linear expression) or None
        self.conds = []

    def at(self, e, k):
        """expression e of iteration k (k linear expression, affine variables only)"""
        m = {}
        for a, s in self.step.items():
            i = self.init[a]
            m[a] = add(i, scale(k, s))
        return subst(e, m)

    def coef(self, e):
        """(value at iteration 0, increment per iteration) of an expression, None when not affine"""
        e = aslin(e)
        z = 0
        for x, k in e[2]:
            if x in self.init:
                if x not in self.step:
                    return None
                z += k * self.step[x]
            elif has(x, lambda t: t in self.init):
                return None
        return self.at(e, C(0)), z


def is_iv(t):
    return t[0] == 'iv'


def solve(cond, truth, L):
    """number of iterations for which a continuation condition stays true from iteration 0 on"""
    if not truth:
        cond = neg(cond)
    s = cond if cond[0] == 'cmp' else single(cond)
    if not s or s[0] != 'cmp':
        return None
    a, b = aslin(s[2]), aslin(s[3])
    p = s[1]
    if p in ('slt', 'ult'):
        d, off = add(b, a, -1), 0
    elif p in ('sle', 'ule'):
        d, off = add(b, a, -1), 1
    elif p in ('sgt', 'ugt'):
        d, off = add(a, b, -1), 0
    elif p in ('sge', 'uge'):
        d, off = add(a, b, -1), 1
    elif p == 'ne':
        d = add(a, b, -1)
        c = L.coef(d)
        if c is None:
            return None
        if c[1] == -1:
            return c[0]
        if c[1] == 1:
            return scale(c[0], -1)
        if c[1] and all(k % c[1] == 0 for _, k in c[0][2]) and c[0][1] % c[1] == 0:
            return ('lin', -c[0][1] // c[1], tuple((x, -k // c[1]) for x, k in c[0][2]))
        return None
    else:
        return None
    c = L.coef(d)
    if c is None or c[1] >= 0:
        return None
    v = add(c[0], C(off))
    if c[1] == -1:
        return v
    if is_c(v):
        return C(max(0, -(-v[1] // -c[1])))
    q = -c[1]
    # exact division of a strided range (pointer loops): p .. p + q*n
    if all(k % q == 0 for _, k in v[2]) and (v[1] - off) % q == 0 and off == 0:
        return ('lin', v[1] // q, tuple((x, k // q) for x, k in v[2]))
    return atom(('ceildiv', v, q))


class LoopWalker(Walker):
    """Walker that summarises natural loops instead of unrolling them.

    skip: headers that are not summarised (e.g. the dispatch loop the walk starts in)."""

    def __init__(self, fn, visit=None, assume=None, stop_block=None, skip=(), limit=20000, depth=0, maxvisit=1):
        super().__init__(fn, visit, assume, maxvisit, limit, True, stop_block)
        self.lp = {}
        for L in fn.loops():
            h, body = loop_parts(fn, L)
            self.lp.setdefault(h, set()).update(body)
        self.skip = set(skip)
        self.depth = depth
        self.loops = []

    def run(self, block=None, idx=0, path=None):
        start = block or self.fn.entry
        if start in self.lp:
            self.skip.add(start)
        work = [(start, idx, path or Path())]
        user_stop = self.stop_block
        while work:
            b, i, p = work.pop()
            if p.user2:
                p.user2 = False
                if user_stop and user_stop(b, p):
                    self.done.append(('stop_block', p, b))
                    continue
            if i == 0 and b in self.lp and b not in self.skip:
                # entry block is a loop header reached with resolved phis
                work += self.summarise(b, p)
                continue
            old = self.done
            self.done = []
            self.stop_block = lambda bb, pp: (bool(user_stop) and user_stop(bb, pp)) or (bb in self.lp and bb not in self.skip)
            Walker.run(self, b, i, p)
            new, self.done = self.done, old
            self.stop_block = user_stop
            for r, q, last in new:
                if r == 'stop_block' and not (user_stop and user_stop(last, q)):
                    work += self.summarise(last, q)
                else:
                    self.done.append((r, q, last))
            if len(self.done) > self.limit:
                raise TooMany('%s: too many paths' % self.fn.name)
        return self.done

    def summarise(self, h, p):
        """p: path at the entry of header h, phis resolved.  Returns continuation work items."""
        fn = self.fn
        body = self.lp[h]
        L = LoopSum(fn, h, body)
        lid = '%s#%d' % (h.name, self.depth)
        q = p.copy()
        ivs = {}
        for ins in h.ins:
            if ins.op != 'phi':
                break
            a = ('iv', lid, ins.res)
            L.init[a] = aslin(p.env.get(ins.res, atom(('?', ins.res))))
            q.env[ins.res] = atom(a)
            ivs[a] = ('reg', ins.res)
        # memory changed by the loop
        bb = [b for b in fn.blocks if b in body]
        for b in bb:
            for ins in b.ins:
                if ins.op == 'store':
                    ad = self.val_out(ins.ops[1], q, body)
                    bo = base_off(ad) if ad is not None else None
                    if ad is not None and self.local(bo):
                        if ad in p.mem and ('iv', lid, ad) not in ivs:
                            a = ('iv', lid, ad)
                            L.init[a] = aslin(p.mem[ad])
                            ivs[a] = ('mem', ad)
                            q.mem[ad] = atom(a)
                    else:
                        base = self.alloca_base(ins.ops[1], q)
                        if base:
                            for k in [k for k in q.mem if base_off(k) and base_off(k)[0] == base]:
                                del q.mem[k]
                            for k in [k for k in q.mem if base_of(k) == base_of(atom(base))]:
                                q.mem.pop(k, None)
                elif ins.op == 'call' and not (isinstance(ins.extra, str) and ins.extra.startswith('llvm.') and 'mem' not in ins.extra):
                    for o in ins.ops:
                        base = self.alloca_base(o, q) if o[0] == 'reg' else None
                        if base:
                            for k in [k for k in q.mem if base_off(k) and base_off(k)[0] == base]:
                                del q.mem[k]
        for b in bb:
            for ins in b.ins:
                if ins.op == 'store' or (ins.op == 'call' and not (
                        isinstance(ins.extra, str) and ins.extra.startswith('llvm.') and 'mem' not in ins.extra)):
                    self._clobber(ins, q)
        q.trace = []
        nd = len(p.decisions)
        stop0 = self.stop_block
        W = type(self)(fn, self.visit, self.assume,
                       lambda x, pp: x is h or x not in body or (bool(stop0) and stop0(x, pp)),
                       set(self.skip) | {h}, self.limit, self.depth + 1, self.maxvisit)
        W.loops = self.loops
        W.tracked = self.tracked
        W.run(h, 0, q)
        self.steps += W.steps
        backs = []
        for r, x, last in W.done:
            if r == 'stop_block' and last is h:
                new = {}
                for a, w in ivs.items():
                    new[a] = aslin(x.env[w[1]]) if w[0] == 'reg' else aslin(x.mem.get(w[1], atom(('?', w[1]))))
                backs.append((x, x.trace, new))
            elif r == 'stop_block':
                L.exits.append((x, x.trace, last))
            elif r in ('ret', 'stop'):
                L.rets.append((r, x, last))
        L.iters = backs
        L.ndec = nd
        for a in L.init:
            d = {add(nw[a], atom(a), -1) for _, _, nw in backs}
            if len(d) == 1 and is_c(next(iter(d))):
                L.step[a] = next(iter(d))[1]
        self._trip(L, backs, nd)
        self.loops.append(L)
        out = []
        fin = {}
        if L.trip is not None:
            for a, s in L.step.items():
                fin[a] = add(L.init[a], scale(L.trip, s)) if s else L.init[a]
        else:
            for a, s in L.step.items():
                if s == 0:
                    fin[a] = L.init[a]
        for x, tr, last in L.exits:
            y = x.copy()
            y.trace = p.trace + [('loop', L)] + tr
            if fin:
                y.env = {k: subst(v, fin) for k, v in x.env.items()}
                y.mem = {k: subst(v, fin) for k, v in x.mem.items()}
            y.visits = dict(p.visits)
            y.user2 = True
            out.append((last, 0, y))
        for r, x, last in L.rets:
            y = x.copy()
            y.trace = p.trace + [('loop', L)] + x.trace
            self.done.append((r, y, last))
        # continuation blocks that are themselves loop headers have their phis resolved already
        return out

    def val_out(self, o, q, body):
        """value of an operand when it does not depend on registers computed inside the loop"""
        if o[0] != 'reg':
            return self.sem.const(o)
        d = self.fn.defs.get(o[1])
        if d is None:
            return self.val(o, q)
        if d.blk not in body or d.op == 'alloca':
            return self.val(o, q)
        if d.op in ('getelementptr', 'bitcast'):
            vs = [self.val_out(x, q, body) for x in d.ops]
            if any(v is None for v in vs):
                return None
            return self.sem.ev(d, lambda x: self.val_out(x, q, body))
        return None

    def alloca_base(self, o, q):
        seen = set()
        while o[0] == 'reg' and o[1] not in seen:
            seen.add(o[1])
            d = self.fn.defs.get(o[1])
            if d is None:
                a = ('param', self.sem.pidx[o[1]], o[1]) if o[1] in self.sem.pidx else None
                return a if a in self.tracked else None
            if d.op == 'alloca':
                return ('alloca', d.res)
            if d.op in ('getelementptr', 'bitcast'):
                o = d.ops[0]
                continue
            return None
        return None

    def _trip(self, L, backs, nd):
        cs = set()
        for x, tr, nw in backs:
            mine = []
            for t, c, truth in x.decisions[nd:]:
                if not isinstance(truth, bool):
                    continue
                # only decisions that can leave the loop are continuation conditions
                outs = [L.fn.bb[l] for l in t.extra] if t.op == 'br' else []
                if any(o not in L.body for o in outs):
                    mine.append((c, truth))
            cs.add(tuple(mine))
        if len(cs) == 1:
            ks = next(iter(cs))
            L.conds = list(ks)
            if len(ks) == 1:
                L.trip = solve(ks[0][0], ks[0][1], L)


def loop_parts(fn, L):
    if isinstance(L, tuple):
        return L[0], L[1]
    return L.header, L.body
