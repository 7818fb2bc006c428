"""Shared extraction of the bytecode emitter and of the bytecode interpreters."""
import re
from sym import *
from loops import LoopWalker
from driver import AnalysisError

EMIT = 'src/core/byte_code.c'
EXEC = 'src/mpi/ext_mpi_native_exec.c'
INTERP = ['ext_mpi_exec_native', 'ext_mpi_normalize_blocking', 'ext_mpi_exec_blocking', 'ext_mpi_exec_padding']


def enum_values(mod, enumname):
    out = {}
    for k, v in mod.meta.items():
        if 'DICompositeType' in v and 'DW_TAG_enumeration_type' in v and mod.mdfield(v, 'name') == enumname:
            for e in re.findall(r'![0-9]+', mod.meta.get(mod.mdfield(v, 'elements'), '')):
                t = mod.meta[e]
                out[mod.mdfield(t, 'name')] = int(mod.mdfield(t, 'value'))
    return out


def facts_of(W, decisions):
    p = Path()
    for t, c, truth in decisions:
        if t.op == 'switch':
            if truth == 'default':
                o = p.facts.get(('val', c))
                s = o[1] if o and o[0] == 'ne' else frozenset()
                p.facts[('val', c)] = ('ne', s | frozenset(k for k, _ in t.extra[1]))
            else:
                p.facts[('val', c)] = ('eq', truth)
        else:
            W.learn(c, truth, p)
    return p.facts


def compatible(f, g):
    for k, v in f.items():
        w = g.get(k)
        if w is None or w == v:
            continue
        if isinstance(v, tuple) and isinstance(w, tuple):
            if v[0] == 'eq' and w[0] == 'eq':
                return False
            if v[0] == 'eq' and w[0] == 'ne' and v[1] in w[1]:
                return False
            if v[0] == 'ne' and w[0] == 'eq' and w[1] in v[1]:
                return False
            continue
        return False
    return True


class Emitter:
    def __init__(self, mod):
        self.mod = mod
        fn = self.fn = mod.fns.get('ext_mpi_generate_byte_code')
        if not fn:
            raise AnalysisError('emitter function is gone')
        self.par = {n: atom(('param', i, n)) for i, (t, n) in enumerate(fn.params)}
        # code_out: the pointer parameter at the position of the interface
        if 'code_out' not in self.par:
            raise AnalysisError('emitter parameter code_out is gone')
        self.co = self.par['code_out']
        lines = [i for i in fn.calls('ext_mpi_read_line')]
        if not lines:
            raise AnalysisError('emitter does not read lines')
        ls = [l for l in fn.loops() if any(x.blk in l[1] for x in lines)]
        self.hdr, self.body = max(ls, key=lambda x: len(x[1]))
        self.line_tag = ('line',)
        self.real = self._walk(False)
        self.dry = self._walk(True)

    def _walk(self, dry):
        fn = self.fn
        cond0 = mkcmp('eq', self.co, C(0))

        def assume(c):
            if c == cond0:
                return dry
            return None

        def visit(ins, p, W):
            if ins.op == 'store':
                a = W.val(ins.ops[1], p)
                bo = base_off(a)
                if bo and bo[0][0] == 'phi' and bo[0][1] in self.ipnames:
                    p.trace.append((bo[1], ins.tys[0], W.val(ins.ops[0], p), ins))
            elif ins.op == 'call' and ins.extra == 'ext_mpi_read_assembler_line':
                fmt = None
                g = W.val(ins.ops[2], p)
                s = single(g)
                if s and s[0] == 'glob':
                    fmt = self.mod.cstring(s[1])
                if fmt is not None:
                    for k, o in enumerate(ins.ops[3:]):
                        if k < len(fmt):
                            p.mem[W.val(o, p)] = atom(('line', k, fmt[k]))
            elif ins.op == 'call' and ins.extra in ('ext_mpi_read_irecv_isend', 'ext_mpi_read_memcpy_reduce'):
                p.mem[W.val(ins.ops[1], p)] = atom(('line', 0, 's'))
            return None
        # candidates for the instruction pointer: header phis of pointer type initialised from code_out
        sem = Sem(fn)
        self.ipnames = set()
        for i in self.hdr.ins:
            if i.op != 'phi':
                break
            if i.ty == 'ptr':
                for v, b in i.extra:
                    if fn.bb[b] not in self.body:
                        bo = base_off(sem.val(v))
                        if bo and bo[0] == single(self.co) and bo[1] > 0:
                            self.ipnames.add(i.res)
                            self.hdrsize = bo[1]
        if len(self.ipnames) != 1:
            raise AnalysisError('emitter instruction pointer not identified (%s)' % self.ipnames)
        self.ip = next(iter(self.ipnames))
        self.ipatom = ('phi', self.ip)
        W = Walker(fn, visit, assume, stop_block=lambda b, p: b is self.hdr or b not in self.body)
        W.run(self.hdr)
        res = []
        for r, p, last in W.done:
            if r == 'unreachable':
                continue
            if r != 'stop_block':
                raise AnalysisError('emitter: unexpected path end %s' % r)
            if last is not self.hdr:
                continue
            end = base_off(p.env.get(self.ip, atom(('?',))))
            if not end or end[0] != self.ipatom:
                raise AnalysisError('emitter: end of path has no constant instruction-pointer offset')
            f = facts_of(W, [d for d in p.decisions if d[1] not in (cond0, neg(cond0))])
            mnem = None
            k = f.get(('val', atom(('line', 0, 's'))))
            if k and k[0] == 'eq':
                mnem = k[1]
            res.append({'trace': p.trace, 'end': end[1], 'facts': f, 'mnem': mnem, 'path': p})
        return res


def fetches(fn, sem):
    """opcode fetches: i8 loads whose value is dispatched over the REDUCE opcode"""
    out = []
    for i in fn.instrs():
        if i.op == 'switch' and any(k == 9 for k, _ in i.extra[1]):
            e = sem.val(i.ops[0])
            s = single(e)
            if s and s[0] in ('ld',) and s[3] == 'i8':
                o = i.ops[0]
                d = fn.defs[o[1]]
                while d.op in ('sext', 'zext', 'trunc', 'freeze'):
                    d = fn.defs[d.ops[0][1]]
                if d.op == 'load' and d not in out:
                    out.append(d)
    return out


class Interp:
    """per opcode: operand loads relative to the opcode, calls made, next-fetch offset"""

    def __init__(self, mod, name):
        self.mod = mod
        fn = self.fn = mod.fns.get(name)
        if not fn:
            raise AnalysisError('interpreter %s is gone' % name)
        self.name = name
        self.sem = Sem(fn)
        self.fetch = fetches(fn, self.sem)
        if not self.fetch:
            raise AnalysisError('%s: opcode dispatch not found' % name)
        self.table = {}

    def opcodes(self, fetch):
        s = set()
        for i in self.fn.instrs():
            if i.op == 'switch':
                o = i.ops[0]
                if o[0] != 'reg':
                    continue
                d = self.fn.defs.get(o[1])
                while d is not None and d.op in ('sext', 'zext', 'trunc', 'freeze'):
                    d = self.fn.defs.get(d.ops[0][1])
                if d is fetch:
                    s |= {k for k, _ in i.extra[1]}
        return s

    def run_opcode(self, fetch, opc, env=None, maxvisit=1, loops=False, facts=None):
        """paths from the fetch with the fetched opcode == opc"""
        fn = self.fn
        A = self.sem.val(fetch.ops[0])
        fet = set(self.fetch)

        def visit(ins, p, W):
            if ins.op == 'load':
                if ins in fet and p.user == 'in':
                    p.trace.append(('fetch', W.val(ins.ops[0], p), ins))
                    return 'stop'
                a = W.val(ins.ops[0], p)
                d = add(a, A, -1)
                if is_c(d) and d[1] > 0:
                    p.trace.append(('ld', d[1], ins.ty, W.val(('reg', ins.res), p), ins))
                else:
                    p.trace.append(('mld', a, ins))
            elif ins.op == 'store':
                a = W.val(ins.ops[1], p)
                d = add(a, A, -1)
                if is_c(d):
                    p.trace.append(('st', d[1], ins.tys[0], W.val(ins.ops[0], p), ins))
                    # later reads of the slot see the new value
                    p.mem[a] = W.val(ins.ops[0], p)
                else:
                    p.trace.append(('mst', a, W.val(ins.ops[0], p), ins))
            elif ins.op == 'call':
                p.trace.append(('call', ins.extra, [W.val(o, p) for o in ins.ops], ins))
                if ins.extra in ('exit', 'abort', '_exit'):
                    return 'stop'
            return None
        if loops:
            skip = {h for h, body in fn.loops() if fetch.blk in body}
            W = LoopWalker(fn, visit, skip=skip, maxvisit=maxvisit)
        else:
            W = Walker(fn, visit, maxvisit=maxvisit)
        p = Path()
        v = self.sem.val(('reg', fetch.res))
        p.env[fetch.res] = v
        p.facts[('val', aslin(v))] = ('eq', opc)
        p.user = 'in'
        if env:
            p.env.update(env)
        if facts:
            p.facts.update(facts)
        W.run(fetch.blk, fetch.idx + 1, p)
        self.last = W
        out = []
        for r, q, last in W.done:
            if r == 'loop':
                continue
            nxt = None
            kind = r
            if r == 'stop':
                t = q.trace[-1]
                if t[0] == 'fetch':
                    d = add(t[1], A, -1)
                    nxt = d[1] if is_c(d) else None
                    kind = 'next' if nxt is not None else 'next-unknown'
                else:
                    kind = 'exit'
            out.append({'kind': kind, 'next': nxt, 'trace': q.trace, 'path': q, 'last': last})
        return out
