"""Event sequences of the shared memory barriers, obtained from the loop summaries of the code that implements them.

A summary (symbolic recurrence) is evaluated for a valuation of the plan constants (number of partners, own position,
counter value) into the sequence of own stores and of waits on partner slots; for every wait the set of slot values,
relative to the own counter, that lets it pass."""
from bytecode import *
from confwalk import ev
from loops import loop_parts

NEAR = 40                      # slot values considered around the own counter
SLOT0 = 1 << 40                # addresses from here on are shared barrier memory


def s32(x):
    x &= 0xffffffff
    return x - (1 << 32) if x & 0x80000000 else x


class Undecided(Exception):
    pass


class Val:
    """valuation handed to confwalk.ev"""

    def __init__(self, env, slots=None):
        self.env = env
        self.slots = slots or {}

    def atom(self, a):
        if a in self.slots:
            return self.slots[a]
        v = self.env.get(a)
        return v

    def __call__(self, e):
        return self.ev(e)

    def ev(self, e):
        e = e if e and e[0] in ('lin', 'cmp', 'not', 'and', 'or', 'select') else aslin(e)
        return cev(e, self)


def cev(e, m):
    """confwalk.ev with comparisons of 32 bit differences taken modulo 2^32"""
    if e[0] == 'cmp':
        a, b = cev(e[2], m), cev(e[3], m)
        if a is None or b is None:
            return None
        small = all(abs(x) < (1 << 34) for x in (a, b))
        if small:
            a, b = s32(a), s32(b)
        try:
            return int(cmp_const(e[1], a, b, 32 if small else 64))
        except KeyError:
            return None
    if e[0] == 'not':
        v = cev(e[1], m)
        return None if v is None else int(not v)
    if e[0] in ('and', 'or') and len(e) == 3:
        a, b = cev(e[1], m), cev(e[2], m)
        if a is None or b is None:
            z = 0 if e[0] == 'and' else 1
            return z if z in (a, b) else None
        return a & b if e[0] == 'and' else a | b
    if e[0] == 'lin':
        z = e[1]
        for a, k in e[2]:
            v = cev(a, m)
            if v is None:
                return None
            z += k * v
        return z
    if e[0] == 'intr':
        vs = [cev(x, m) for x in e[2:]]
        return None if None in vs else INTR[e[1]](*vs)
    if e[0] == 'select':
        c = cev(e[1], m)
        if c is None:
            return None
        return cev(e[2] if c else e[3], m)
    return ev(e, m)


INTR = {'abs': lambda x, *r: abs(x), 'smax': max, 'smin': min, 'umax': max, 'umin': min}


def intrinsic(ins, p, W):
    q = ins.extra.split('.')
    if len(q) > 1 and q[1] in INTR:
        n = 1 if q[1] == 'abs' else 2
        return ('val', atom(('intr', q[1]) + tuple(aslin(W.val(o, p)) for o in ins.ops[:n])))
    return None


def slot_atoms(e, slots):
    return {x for x in subterms(e) if isinstance(x, tuple) and x in slots} if isinstance(e, tuple) else set()


class Expander:
    """valuation of one path's trace into events"""

    def __init__(self, mem, counter):
        self.mem = mem
        self.env = {}
        self.slots = set()
        self.counter = counter       # reference for slot values
        self.events = []             # ('st', addr, value) | ('wait', addr, frozenset of passing offsets)
        self.budget = 20000
        self.plain = []              # accesses of barrier memory that the compiler may move or drop

    def value(self, e):
        if isinstance(e, tuple) and e and e[0] not in ('lin', 'cmp', 'not', 'and', 'or', 'select'):
            e = aslin(e)
        return cev(e, Val(self.env))

    def load(self, a, atom_, ins=None):
        if a is None:
            raise Undecided('address of a load is not determined by the plan')
        if a >= SLOT0:
            self.slots.add(atom_)
            if ins is not None and ins.extra is not True:
                self.plain.append(ins)
            self.events.append(['read', a, atom_])
            return
        if a in self.mem:
            self.env[atom_] = self.mem[a]

    def decide(self, decisions):
        """(possible, {slot atom: passing offsets})"""
        per = {}
        for t, cnd, truth in decisions:
            if not isinstance(truth, bool):
                v = self.value(cnd)
                if v is None:
                    continue
                if truth == 'default':
                    continue
                if v != truth:
                    return False, None
                continue
            sl = slot_atoms(cnd, self.slots)
            if not sl:
                v = cev(cnd if cnd[0] != 'lin' else cnd, Val(self.env)) if isinstance(cnd, tuple) else None
                if v is None:
                    raise Undecided('branch condition %s is not determined by the plan' % show(cnd))
                if bool(v) != truth:
                    return False, None
                continue
            if len(sl) > 1:
                raise Undecided('branch depends on two slots')
            a = next(iter(sl))
            ok = set()
            for d in range(-NEAR, NEAR + 1):
                v = cev(cnd, Val(self.env, {a: s32(self.counter + d)}))
                if v is None:
                    raise Undecided('condition on a slot: %s' % show(cnd))
                if bool(v) == truth:
                    ok.add(d)
            per[a] = per[a] & ok if a in per else ok
        if any(not s for s in per.values()):
            return False, None
        return True, per

    def contradicted(self, decisions):
        for t, cnd, truth in decisions:
            if isinstance(truth, bool) and not slot_atoms(cnd, self.slots):
                v = cev(cnd, Val(self.env))
                if v is not None and bool(v) != truth:
                    return True
        return False

    def attach(self, per, start):
        for e in self.events[start:]:
            if e[0] == 'read' and e[2] in per:
                e[0] = 'wait'
                e[2] = frozenset(per[e[2]])

    def run(self, trace):
        for t in trace:
            self.budget -= 1
            if self.budget < 0:
                raise Undecided('no bound on the number of steps')
            if t[0] == 'pld':
                self.load(self.value(t[1]), t[2], t[3])
            elif t[0] == 'pst':
                a = self.value(t[1])
                v = self.value(t[2])
                if a is None:
                    raise Undecided('address of a store is not determined by the plan')
                if a >= SLOT0:
                    if v is None:
                        raise Undecided('stored value is not determined by the plan')
                    self.events.append(['st', a, s32(v), t[3]])
                    if t[3].extra is not True:
                        self.plain.append(t[3])
                else:
                    self.mem[a] = s32(v) if v is not None and abs(v) < (1 << 34) else v
            elif t[0] == 'loop':
                self.loop(t[1])
            elif t[0] == 'pcall':
                self.events.append(['call', t[1], [self.value(x) for x in t[2]], t[3]])

    def snap(self):
        return dict(self.mem), dict(self.env), set(self.slots), list(map(list, self.events))

    def back(self, s):
        self.mem, self.env, self.slots, self.events = dict(s[0]), dict(s[1]), set(s[2]), list(map(list, s[3]))

    def loop(self, L):
        for a, v in L.init.items():
            x = self.value(v)
            if x is not None:
                self.env[a] = x
        for it in range(200):
            s0 = self.snap()
            taken = None
            for x, tr, nw in L.iters:
                self.back(s0)
                n0 = len(self.events)
                try:
                    self.run(tr)
                except Undecided:
                    # on an alternative that is not taken
                    if self.contradicted(x.decisions[L.ndec:]):
                        continue
                    raise
                ok, per = self.decide(x.decisions[L.ndec:])
                if not ok:
                    continue
                same = all(self.value(v) == self.env.get(a) for a, v in nw.items())
                changed = any(self.mem.get(k) != v for k, v in s0[0].items())
                if per and same and not changed:
                    # polls a slot again and again: one pass, then the exit
                    st = [e for e in self.events[n0:] if e[0] == 'st']
                    taken = ('spin', s0, st)
                else:
                    self.attach(per, n0)
                    new = {a: self.value(v) for a, v in nw.items()}
                    taken = ('iter', self.snap(), new)
                break
            if taken is None:
                self.back(s0)
                return
            if taken[0] == 'spin':
                self.back(taken[1])
                self.events += taken[2]
                return
            self.back(taken[1])
            for a, v in taken[2].items():
                if v is not None:
                    self.env[a] = s32(v) if abs(v) < (1 << 34) else v
                else:
                    self.env.pop(a, None)
        raise Undecided('loop does not end within 200 iterations')


def opcode_paths(I, outer, opc, mode, awname):
    """paths of one instruction with every access in the trace and an own name for every value read"""
    n = [0]
    fn = I.fn
    A = I.sem.val(outer.ops[0])
    fet = set(I.fetch)

    def visit(ins, p, W):
        if ins.op == 'load':
            if ins in fet and p.user == 'in':
                p.trace.append(('fetch', W.val(ins.ops[0], p), ins))
                return 'stop'
            a = W.val(ins.ops[0], p)
            if W.local(base_off(a)):
                return None
            n[0] += 1
            at = ('pv', n[0], ins.res)
            p.trace.append(('pld', a, at, ins))
            return ('val', atom(at))
        if ins.op == 'store':
            a = W.val(ins.ops[1], p)
            if not W.local(base_off(a)):
                p.trace.append(('pst', a, W.val(ins.ops[0], p), ins))
        elif ins.op == 'call':
            if isinstance(ins.extra, str) and ins.extra.startswith('llvm.'):
                return intrinsic(ins, p, W)
            p.trace.append(('pcall', ins.extra, [W.val(o, p) for o in ins.ops], ins))
        return None
    skip = {h for h, body in (loop_parts(fn, L) for L in fn.loops()) if outer.blk in body}
    W = LoopWalker(fn, visit, skip=skip)
    p = Path()
    v = I.sem.val(('reg', outer.res))
    p.env[outer.res] = v
    p.facts[('val', aslin(v))] = ('eq', opc)
    p.user = 'in'
    p.env[awname] = C(mode)
    W.run(outer.blk, outer.idx + 1, p)
    out = []
    for r, q, last in W.done:
        if r == 'stop':
            out.append((q, last))
    return out, A


def function_paths(fn, limit=20000):
    """paths of a whole function, in the same form: [(path, last, kind)]"""
    n = [0]

    def visit(ins, p, W):
        if ins.op == 'load':
            a = W.val(ins.ops[0], p)
            if W.local(base_off(a)) and a in p.mem:
                return None
            n[0] += 1
            at = ('pv', n[0], ins.res)
            p.trace.append(('pld', a, at, ins))
            return ('val', atom(at))
        if ins.op == 'store':
            a = W.val(ins.ops[1], p)
            if not W.local(base_off(a)):
                p.trace.append(('pst', a, W.val(ins.ops[0], p), ins))
        elif ins.op == 'call':
            if isinstance(ins.extra, str) and ins.extra.startswith('llvm.') and 'mem' not in ins.extra:
                return intrinsic(ins, p, W)
            p.trace.append(('pcall', ins.extra, [W.val(o, p) for o in ins.ops], ins))
        return None
    W = LoopWalker(fn, visit, limit=limit)
    W.run()
    return [(q, last, r) for r, q, last in W.done if r != 'loop']
