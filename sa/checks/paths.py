"""Paths of a whole function with the events the interface checks reason about."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sym import *  # noqa
from loops import *  # noqa
import driver
from driver import AnalysisError

NORET = ('exit', 'abort', '_exit', '__assert_fail')


class FP:
    """all paths of one function: .paths = [{kind, trace, ret, path}], .W the walker"""

    def __init__(self, fn, tracked=(), loops=True, limit=20000, maxvisit=1, assume=None):
        self.fn = fn

        def visit(ins, p, W):
            if ins.op == 'store':
                a = W.val(ins.ops[1], p)
                p.trace.append(('mst', a, W.val(ins.ops[0], p), ins))
            elif ins.op == 'call':
                nm = ins.extra if isinstance(ins.extra, str) else 'indirect'
                if nm.startswith('llvm.') and 'mem' not in nm:
                    return None
                r = W.val(('reg', ins.res), p) if ins.res is not None else None
                p.trace.append(('call', nm, [W.val(o, p) for o in ins.ops], r, ins))
                if nm in NORET:
                    return 'stop'
            return None
        W = (LoopWalker if loops else Walker)(fn, visit, assume=assume, limit=limit, maxvisit=maxvisit)
        W.tracked = {('param', W.sem.pidx[n], n) for n in tracked if n in W.sem.pidx}
        self.W = W
        W.run()
        self.paths = []
        for r, q, last in W.done:
            if r == 'loop':
                continue
            k = 'exit' if r in ('stop', 'unreachable') else r
            rv = W.val(last.ops[0], q) if r == 'ret' and last.ops else None
            self.paths.append({'kind': k, 'trace': q.trace, 'ret': rv, 'path': q, 'last': last})

    def param(self, name_or_idx):
        if isinstance(name_or_idx, int):
            n = self.fn.params[name_or_idx][1]
        else:
            n = name_or_idx
        return atom(('param', self.W.sem.pidx[n], n))

    def truth(self, cond, path):
        return self.W.decide(cond, path)


def flat(trace):
    """events in order; a loop contributes its marker"""
    return trace


def calls(trace, names=None):
    return [t for t in trace if t[0] == 'call' and (names is None or t[1] in names)]


def loops_of(trace):
    return [t[1] for t in trace if t[0] == 'loop']


def ev01(e, m):
    """evaluate an expression under an assignment of atoms to small integers (None: undetermined)"""
    if e[0] == 'lin':
        z = e[1]
        for a, k in e[2]:
            v = ev01(a, m)
            if v is None:
                return None
            z += k * v
        return z
    if e in m:
        return m[e]
    if e[0] == 'cmp':
        a, b = ev01(e[2], m), ev01(e[3], m)
        if a is None or b is None:
            return None
        return int(cmp_const(e[1], a, b, 32))
    if e[0] == 'not':
        v = ev01(e[1], m)
        return None if v is None else int(not v)
    if e[0] == 'select':
        c = ev01(e[1], m)
        if c is None:
            return None
        return ev01(e[2] if c else e[3], m)
    if e[0] in ('and', 'or', 'xor', 'mul'):
        a, b = ev01(e[1], m), ev01(e[2], m)
        if a is None or b is None:
            if e[0] in ('and', 'mul') and (a == 0 or b == 0):
                return 0
            return None
        return {'and': a & b, 'or': a | b, 'xor': a ^ b, 'mul': a * b}[e[0]]
    return None


def feasible(path, m):
    """False when the decisions of the path contradict the assignment m of atoms to integers"""
    for t, cnd, truth in path.decisions:
        v = ev01(cnd, m)
        if v is None:
            continue
        if t.op == 'switch':
            if truth == 'default':
                if v in [k for k, _ in t.extra[1]]:
                    return False
            elif v != truth:
                return False
        elif bool(v) != bool(truth):
            return False
    return True


def resolve(e, m):
    """remove the selects of e that the assignment m decides"""
    s = single(e)
    if s and s[0] == 'select':
        v = ev01(s[1], m)
        if v is not None:
            return resolve(s[2] if v else s[3], m)
    return e


def atoms_in(path, pred):
    """atoms satisfying pred in the decisions of a path"""
    out = set()
    for t, cnd, truth in path.decisions:
        for x in subterms(cnd):
            if pred(x):
                out.add(x)
    return out
