"""Sparse conditional constant propagation on one function: which code runs, and with which values, when some of the
fields and parameters have given values and everything else is unknown."""
from irlib import *

TOP, BOT = 'top', 'bot'


def wrap(v, ty):
    if isinstance(ty, str) and ty[0] == 'i' and ty[1:].isdigit():
        n = int(ty[1:])
        v &= (1 << n) - 1
        if n > 1 and v >> (n - 1):
            v -= 1 << n
    return v


def arith(op, a, b, ty):
    if op in ('sdiv', 'srem', 'udiv', 'urem'):
        if b == 0:
            return BOT
        q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
        return q if op[1:] == 'div' else a - q * b
    if op in ('shl', 'lshr', 'ashr'):
        if not 0 <= b < 64:
            return BOT
        return a << b if op == 'shl' else a >> b if op == 'ashr' or a >= 0 else BOT
    return wrap({'add': a + b, 'sub': a - b, 'mul': a * b, 'and': a & b, 'or': a | b, 'xor': a ^ b}[op], ty)


def compare(pred, a, b, ty):
    if pred[0] == 'u' and ty[0] == 'i':
        n = int(ty[1:])
        a, b = a & ((1 << n) - 1), b & ((1 << n) - 1)
    return {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[pred if pred in ('eq', 'ne') else pred[1:]]


class SCCP:
    """known: function from a load or call instruction to a value or None"""

    def __init__(self, fn, known, params=()):
        self.fn = fn
        self.known = known
        self.v = {n: BOT for _, n in fn.params}
        self.v.update(params)
        self.edges = set()
        self.blocks = set()
        fw = [(None, fn.entry)]
        sw = []
        while fw or sw:
            while fw:
                p, b = fw.pop()
                if (p, b.name) in self.edges:
                    continue
                self.edges.add((p, b.name))
                first = b not in self.blocks
                self.blocks.add(b)
                for ins in b.ins:
                    if ins.op == 'phi' or first:
                        self.eval(ins, fw, sw)
            while sw:
                r = sw.pop()
                for u in fn.uses.get(r, ()):
                    if u.blk in self.blocks:
                        self.eval(u, fw, sw)

    def val(self, o):
        k = o[0]
        if k == 'int':
            return o[1]
        if k == 'null':
            return 0
        if k == 'reg':
            return self.v.get(o[1], TOP)
        if k == 'undef':
            return TOP
        return BOT

    def set(self, ins, x, sw):
        if ins.res is None:
            return
        o = self.v.get(ins.res, TOP)
        if o == BOT or x == TOP or o == x:
            return
        self.v[ins.res] = x if o == TOP else BOT
        sw.append(ins.res)

    def eval(self, ins, fw, sw):
        op = ins.op
        if op == 'br':
            if len(ins.extra) == 1:
                fw.append((ins.blk.name, self.fn.bb[ins.extra[0]]))
            else:
                c = self.val(ins.ops[0])
                for i in ([0, 1] if c == BOT else [] if c == TOP else [0 if c else 1]):
                    fw.append((ins.blk.name, self.fn.bb[ins.extra[i]]))
        elif op == 'switch':
            c = self.val(ins.ops[0])
            if c == BOT:
                for x in {ins.extra[0]} | {y for _, y in ins.extra[1]}:
                    fw.append((ins.blk.name, self.fn.bb[x]))
            elif c != TOP:
                fw.append((ins.blk.name, self.fn.bb[dict(ins.extra[1]).get(c, ins.extra[0])]))
        elif op == 'phi':
            x = TOP
            for o, b in ins.extra:
                if (b, ins.blk.name) in self.edges:
                    y = self.val(o)
                    x = y if x == TOP else x if y == TOP or x == y else BOT
            self.set(ins, x, sw)
        elif op in ('load', 'call'):
            x = self.known(ins, self)
            self.set(ins, BOT if x is None else x, sw)
        elif op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'icmp'):
            a, b = self.val(ins.ops[0]), self.val(ins.ops[1])
            if op in ('and', 'mul') and (a == 0 or b == 0):
                x = 0
            elif op == 'or' and ins.ty == 'i1' and (a == 1 or b == 1):
                x = 1
            elif BOT in (a, b):
                x = BOT
            elif TOP in (a, b):
                x = TOP
            else:
                x = int(compare(ins.extra, a, b, ins.tys[0])) if op == 'icmp' else arith(op, a, b, ins.ty)
            self.set(ins, x, sw)
        elif op in ('zext', 'sext', 'trunc', 'freeze', 'bitcast', 'ptrtoint', 'inttoptr'):
            a = self.val(ins.ops[0])
            if a not in (TOP, BOT):
                t = ins.tys[0]
                if op == 'zext' and t[0] == 'i':
                    a &= (1 << int(t[1:])) - 1
                elif op == 'trunc':
                    a = (a & 1) if ins.ty == 'i1' else wrap(a, ins.ty)
            self.set(ins, a, sw)
        elif op == 'select':
            c = self.val(ins.ops[0])
            a, b = self.val(ins.ops[1]), self.val(ins.ops[2])
            self.set(ins, TOP if c == TOP else (a if a == b else BOT) if c == BOT else a if c else b, sw)
        elif op == 'getelementptr':
            a = self.val(ins.ops[0])
            self.set(ins, BOT, sw)
        elif ins.res is not None:
            self.set(ins, BOT, sw)

    def runs(self, ins):
        return ins.blk in self.blocks


def fields(m, struct, values, extra=None):
    """values of the loads of fields of a structure"""
    def f(ins, S):
        if ins.op == 'load':
            t = m.tbaa_field(ins)
            if t is not None and t[0] == struct and t[1] in values:
                return values[t[1]]
        return extra(ins, S) if extra else None
    return f
