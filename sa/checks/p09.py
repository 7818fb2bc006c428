"""P09 setting up a persistent operation leaves the user's buffers untouched."""
import os
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
import driver  # noqa: E402

RULE = ('Interprocedural pointer taint over the LLVM IR of src/core and src/mpi from the data buffer arguments of every persistent init call: the '
        'address may be compared, offset, written into the plan and handed on to other set-up functions of the library; it is never read or written '
        'through, never given to an external function, and no operation that was set up with it is started before the init call returns.')

# data buffer positions fixed by the MPI standard
BUF = {'Allreduce': (0, 1), 'Reduce': (0, 1), 'Bcast': (0,), 'Allgather': (0, 3), 'Allgatherv': (0, 3), 'Gather': (0, 3), 'Gatherv': (0, 3),
       'Scatter': (0, 3), 'Scatterv': (0, 4), 'Reduce_scatter': (0, 1), 'Reduce_scatter_block': (0, 1)}
EXTERNAL_OK = re.compile(r'^(PMPI|MPI)_(\w+_init|Get_address)$|^f?printf$|^llvm\.(dbg|lifetime|assume)')
STARTERS = re.compile(r'^EXT_MPI_Start|^ext_mpi_exec_')


def base_alloca(fn, o):
    """the alloca an address is formed from"""
    seen = 0
    while o[0] == 'reg' and seen < 50:
        seen += 1
        d = fn.defs.get(o[1])
        if d is None:
            return None
        if d.op == 'alloca':
            return o[1]
        if d.op in ('getelementptr', 'bitcast', 'addrspacecast'):
            o = d.ops[0]
            continue
        return None
    return None


class Taint:
    def __init__(self, c, mods):
        self.c = c
        self.fns = {}
        for m in mods.values():
            for f in m.fns.values():
                if f.blocks and f.name not in self.fns:
                    self.fns[f.name] = f
        self.params = {}      # fn -> set of tainted parameter positions
        self.indirect = {}    # fn -> parameter positions that point at memory holding a tainted pointer
        self.work = []
        self.escapes = set()

    def seed(self, name, pos, ind=False):
        d = (self.indirect if ind else self.params).setdefault(name, set())
        if pos not in d:
            d.add(pos)
            if name not in self.work:
                self.work.append(name)

    def solve(self):
        while self.work:
            self.scan(self.fns[self.work.pop()], False)
        for n in sorted(set(self.params) | set(self.indirect)):
            self.scan(self.fns[n], True)

    def scan(self, fn, report):
        c = self.c
        T = {fn.params[i][1] for i in self.params.get(fn.name, ()) if i < len(fn.params)}
        mem = {fn.params[i][1] for i in self.indirect.get(fn.name, ()) if i < len(fn.params)}   # registers that address tainted memory
        cells = set()   # tainted allocas

        def t(o):
            return o[0] == 'reg' and o[1] in T
        changed = True
        while changed:
            n0 = (len(T), len(cells), len(mem))
            for b in fn.blocks:
                for ins in b.ins:
                    op = ins.op
                    if op in ('getelementptr', 'bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast', 'freeze', 'zext', 'sext', 'trunc'):
                        if t(ins.ops[0]):
                            T.add(ins.res)
                        if ins.ops[0][0] == 'reg' and ins.ops[0][1] in mem and op != 'ptrtoint':
                            mem.add(ins.res)
                    elif op in ('add', 'sub') and ins.res:
                        # address arithmetic; the difference of two addresses is a number
                        a = [t(o) for o in ins.ops]
                        if a[0] != (len(a) > 1 and a[1]):
                            T.add(ins.res)
                    elif op == 'phi':
                        if any(t(o) for o in ins.ops):
                            T.add(ins.res)
                    elif op == 'select':
                        if t(ins.ops[1]) or t(ins.ops[2]):
                            T.add(ins.res)
                    elif op == 'store' and t(ins.ops[0]):
                        a = base_alloca(fn, ins.ops[1])
                        if a:
                            cells.add(a)
                    elif op == 'load':
                        a = base_alloca(fn, ins.ops[0])
                        if (a and a in cells or ins.ops[0][0] == 'reg' and ins.ops[0][1] in mem) and ins.ty in ('ptr', 'i64'):
                            T.add(ins.res)
            changed = n0 != (len(T), len(cells), len(mem))
        if not report:
            for b in fn.blocks:
                for ins in b.ins:
                    if ins.op != 'call':
                        continue
                    name = callee(ins)
                    if name in self.fns:
                        for k, o in enumerate(args(ins)):
                            if t(o):
                                self.seed(name, k)
                            a = base_alloca(fn, o)
                            if a and a in cells or o[0] == 'reg' and o[1] in mem:
                                self.seed(name, k, True)
            return
        c.fn(fn.name)
        inits, starts = [], []
        for b in fn.blocks:
            for ins in b.ins:
                w = fn.mod.where(fn, ins)
                if ins.op == 'load' and t(ins.ops[0]):
                    c.ob(False, 'read:%s' % fn.name, '%s reads the contents of a buffer of the user during set-up' % w)
                elif ins.op == 'store':
                    if t(ins.ops[1]):
                        c.ob(False, 'write:%s' % fn.name, '%s writes into a buffer of the user during set-up' % w)
                    elif t(ins.ops[0]):
                        c.count('addresses stored')
                        c.oblig += 1
                        if not base_alloca(fn, ins.ops[1]):
                            self.escapes.add(fn.name)
                elif ins.op in ('cmpxchg', 'atomicrmw') and t(ins.ops[0]):
                    c.ob(False, 'write:%s' % fn.name, '%s writes into a buffer of the user during set-up' % w)
                elif ins.op in ('call', 'invoke'):
                    name = callee(ins)
                    if name and STARTERS.match(name):
                        starts.append(ins)
                    tp = [k for k, o in enumerate(args(ins)) if t(o)]
                    if not tp:
                        continue
                    if name in self.fns:
                        c.count('hand-overs')
                        c.oblig += 1
                        inits.append(ins)
                    elif name and EXTERNAL_OK.match(name):
                        c.count('hand-overs')
                        inits.append(ins)
                    else:
                        c.ob(False, 'external:%s:%s' % (fn.name, name), '%s passes a buffer of the user to %s during set-up' % (w, name or 'a function pointer'))
        for s in starts:
            i = next((i for i in inits if reaches(fn, i, s)), None)
            c.ob(i is None, 'start:%s' % fn.name, '%s starts an operation during set-up after %s was given a buffer of the user' % (
                fn.mod.where(fn, s), i and callee(i)))
        c.count('starts in set-up', len(starts))


def reaches(fn, a, b):
    """b can execute after a"""
    if a.blk is b.blk and a.idx < b.idx:
        return True
    seen, work = set(), list(a.blk.succ)
    while work:
        x = work.pop()
        if x in seen:
            continue
        seen.add(x)
        work += x.succ
    return b.blk in seen


def callee(ins):
    e = ins.extra
    if isinstance(e, tuple) and e[0] == 'glob':
        return e[1]
    return e if isinstance(e, str) else None


def args(ins):
    return ins.ops


def main(c):
    srcs = [s for s in driver.all_sources() if s.startswith(('src/core/', 'src/mpi/', 'src/noopt/'))]
    mods = driver.modules(srcs)
    T = Taint(c, mods)
    for n, pos in BUF.items():
        for pre in ('MPI_%s_init', 'EXT_MPI_%s_init'):
            f = T.fns.get(pre % n)
            if f:
                c.count('entry points')
                for p in pos:
                    T.seed(f.name, p)
    c.need('entry points', 18)
    T.solve()
    c.need('hand-overs', 40)
    c.notes.append('addresses of user buffers are stored in memory by: %s' % ', '.join(sorted(T.escapes)))


if __name__ == '__main__':
    driver.run(main, 'P09', RULE)
