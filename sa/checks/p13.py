"""P13 rooted collectives: exactly the root gives / receives, in every pass that distinguishes ranks."""
import sys
import os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
import re  # noqa: E402
import driver  # noqa: E402
from driver import AnalysisError  # noqa: E402
from sccp import *  # noqa: E402

RULE = ('Conditional constant propagation over the LLVM IR of the passes that place user data into a plan: for every kind of collective, every root and '
        'every rank of sample shapes the code that copies from the send buffer, copies to the receive buffer or marks the origin of data runs exactly on '
        'the ranks (nodes) that give or receive; the copy of the root walks over the blocks in the order of the plan.')

CIN, COUT = 'src/core/reduce_copyin.c', 'src/core/reduce_copyout.c'
FWD, BWD = 'src/mpi/forward_interpreter.c', 'src/mpi/backward_interpreter.c'
SHAPES = [(n, c) for n in (1, 2, 3) for c in (1, 2, 3)] + [(2, 4), (5, 1)]


def enum(m, name):
    for t in m.meta.values():
        if 'DIEnumerator' in t and 'name: "%s"' % name in t:
            return int(re.search(r'value: (-?\d+)', t).group(1))
    raise AnalysisError('constant %s is gone' % name)


def kinds(p):
    """(name, collective type, value of ROOT, root or None, gives, receives)"""
    al = lambda r: True
    for r in range(p):
        me = lambda q, r=r: q == r
        no = lambda q, r=r: q != r
        yield 'Reduce', 'allreduce', r, r, al, me
        yield 'Bcast', 'allreduce', -10 - r, r, me, no
        yield 'Gatherv', 'allgatherv', r, r, al, me
        yield 'Scatterv', 'reduce_scatter', r, r, me, al
    yield 'Allreduce', 'allreduce', -1, None, al, al
    yield 'Allgatherv', 'allgatherv', -1, None, al, al
    yield 'Reduce_scatter', 'reduce_scatter', -1, None, al, al


def entry(m, prefix, file):
    fs = [f for n, f in m.fns.items() if n.startswith('ext_mpi_generate_')]
    if len(fs) != 1:
        raise AnalysisError('%s: the pass is not recognised' % file)
    return fs[0]


def config(m, types, nodes, cores, q, ctype, root, in_place=0):
    return {'collective_type': types[ctype], 'root': root, 'socket': q // cores, 'num_sockets': nodes, 'socket_rank': q % cores,
            'socket_row_size': cores, 'socket_column_size': 1, 'counts_max': 1, 'iocounts_max': cores, 'on_gpu': 0,
            'message_sizes_max': nodes, 'copyin_method': 0}


def written_fields(m, fn):
    out = set()
    for ins in fn.instrs():
        if ins.op == 'store':
            t = m.tbaa_field(ins)
            if t is not None and t[0] == 'parameters_block':
                out.add(t[1])
    return out


def module(file):
    m = driver.compile_one(file, tag='p13')
    types = {n: enum(m, 'collective_type_' + n) for n in ('allreduce', 'allgatherv', 'reduce_scatter')}
    return m, types


def runs(m, types, fn, sh, q, ctype, root, partner=None):
    vals = config(m, types, sh[0], sh[1], q, ctype, root)
    for k in written_fields(m, fn):
        vals.pop(k, None)
    return SCCP(fn, fields(m, 'parameters_block', vals, None if partner is None else (lambda ins, S: partner if ins in partners(m, fn) else None)))


def partners(m, fn, memo={}):
    """loads of the partner nodes of a line"""
    if fn not in memo:
        memo[fn] = set()
        for ins in fn.instrs():
            if ins.op == 'load' and ins.ty == 'i32':
                t = tree(fn, ('reg', ins.res), m)
                if t[0] == 'load' and isinstance(t[2], tuple) and t[2][0] == 'at' and t[2][1][0] == 'load' and t[2][1][1] in ('recvfrom_node', 'sendto_node'):
                    memo[fn].add(ins)
    return memo[fn]


def buffer_stores(m, fn, field, value, S):
    out = []
    for b in S.blocks:
        for ins in b.ins:
            if ins.op == 'store':
                t = m.tbaa_field(ins)
                if t == ('line_memcpy_reduce', field) and S.val(ins.ops[0]) in (value, BOT):
                    out.append(ins)
    return out


def tree(fn, o, m, depth=12, seen=()):
    """expression of a value"""
    if o[0] == 'int':
        return o[1]
    if o[0] != 'reg' or depth == 0:
        return o
    d = fn.defs.get(o[1])
    if d is None:
        return ('param', o[1])
    if d.op in ('sext', 'zext', 'trunc', 'freeze', 'bitcast'):
        return tree(fn, d.ops[0], m, depth, seen)
    if d.op == 'load':
        t = m.tbaa_field(d)
        if t is not None and t[0] == 'parameters_block':
            return ('field', t[1])
        return ('load', t[1] if t else None, tree(fn, d.ops[0], m, depth - 1, seen))
    if d.op == 'getelementptr':
        return ('at', tree(fn, d.ops[0], m, depth - 1, seen)) + tuple(tree(fn, x, m, depth - 1, seen) for x in d.ops[1:])
    if d.op == 'phi':
        if o[1] in seen:
            return ('self', o[1])
        inc = {tree(fn, x, m, depth - 1, seen + (o[1],)) for x, _ in d.extra}
        inc.discard(('self', o[1]))
        if len(inc) == 1:
            return inc.pop()
        return ('phi', o[1])
    if d.op == 'call':
        return ('call', d.extra, o[1])
    return (d.op,) + tuple(tree(fn, x, m, depth - 1, seen) for x in d.ops)


def place(c, file, field, val, who, word):
    m, types = module(file)
    fn = entry(m, '', file)
    c.fn(fn.name)
    v = enum(m, val)
    wh = '%s: %s' % (file, fn.name)
    for sh in SHAPES:
        p = sh[0] * sh[1]
        for name, ctype, rootv, root, gives, takes in kinds(p):
            for q in range(p):
                S = runs(m, types, fn, sh, q, ctype, rootv)
                st = buffer_stores(m, fn, field, v, S)
                want = (gives if who == 'gives' else takes)(q)
                line = st[0].line if st else 0
                own = who == 'takes' and name == 'Bcast' and q == root
                if want:
                    c.ob(bool(st), '%s:missing:%s' % (word, name), '%s: in a %s with root %s on %d nodes of %d processes, rank %d %s although it should' % (
                        wh, name, root, sh[0], sh[1], q, 'does not give its data' if who == 'gives' else 'gets no result'))
                elif not own:
                    c.ob(not st, '%s:extra:%s' % (word, name), '%s:%d in %s: in a %s with root %s on %d nodes of %d processes, rank %d %s' % (
                        file, line, fn.name, name, root, sh[0], sh[1], q, 'gives data besides the root' if who == 'gives' else 'gets a result although it should not'))
                c.count(word)
    return m, types, fn, v


def root_copy(c, m, types, fn, v):
    """the copy of the root: block after block of the plan"""
    S = runs(m, types, fn, (2, 2), 2, 'allreduce', -12)
    st = buffer_stores(m, fn, 'buffer_type2', v, S)
    wh = '%s in %s' % (CIN, fn.name)
    bl = {s.blk for s in st}
    calls = [i for b in S.blocks for i in b.ins if i.op == 'call' and i.extra == 'ext_mpi_write_memcpy_reduce']
    c.count('root_copies', len(calls))
    if not c.ob(len(bl) == 1 and len(calls) == 1, 'order:one', '%s: the copy of the root is not one loop over the blocks' % wh):
        return
    b = bl.pop()
    # last value of each field before the call
    val = {}
    dom = fn.doms()
    cb = calls[0].blk
    for x in sorted((x for x in S.blocks if x in dom.get(cb, ()) or x is cb), key=lambda x: len(dom.get(x, ()))):
        for ins in x.ins:
            if ins is calls[0]:
                break
            if ins.op == 'store':
                t = m.tbaa_field(ins)
                if t is not None and t[0] == 'line_memcpy_reduce':
                    val[t[1]] = ins.ops[0]
    need = ('size', 'offset1', 'offset2', 'buffer_type1', 'is_offset1', 'is_offset2')
    if not c.ob(all(k in val for k in need), 'order:fields', '%s: the copy of the root is not completely described' % wh):
        return
    size, off2 = tree(fn, val['size'], m), tree(fn, val['offset2'], m)
    idx = size[2][2] if size[0] == 'load' and isinstance(size[2], tuple) and size[2][0] == 'at' and len(size[2]) == 3 else None
    blk = idx is not None and isinstance(idx, tuple) and idx[0] == 'load' and idx[1] == 'frac'
    c.ob(blk and size[2][1] == ('field', 'message_sizes'), 'order:size', '%s: the root does not copy the block of the line (its size is not that of the block)' % wh)
    c.ob(blk and off2[0] == 'load' and isinstance(off2[2], tuple) and off2[2][0] == 'at' and off2[2][2:] == (idx,) and off2[2][1] != size[2][1], 'order:source',
         '%s: the root does not copy from the start of the block of the line' % wh)
    def stored(t):
        # read back from the description of the copy
        return tree(fn, val[t[1]], m) if t[0] == 'load' and t[1] in val else t
    # destination: running sum of the sizes
    o = val['offset1']
    d = fn.defs.get(o[1]) if o[0] == 'reg' else None
    ok = False
    if d is not None and d.op == 'phi':
        inc = [x for x, bb in d.extra if (bb, d.blk.name) in S.edges]
        ini = [x for x in inc if S.val(x) == 0]
        nxt = [fn.defs.get(x[1]) for x in inc if x not in ini and x[0] == 'reg']
        ok = len(ini) >= 1 and len(nxt) == 1 and nxt[0] is not None and nxt[0].op == 'add' and o in nxt[0].ops and any(
            x != o and stored(tree(fn, x, m)) == size for x in nxt[0].ops)
    c.ob(ok, 'order:dest', '%s: the root does not place the blocks one behind the other in the order of the plan' % wh)
    # loop over all lines of the first block
    L = [(h, body) for h, body in fn.loops() if cb in body and h in S.blocks]
    ok = False
    if L:
        t = L[0][0].term
        cd = fn.defs.get(t.ops[0][1]) if t.op == 'br' and t.ops and t.ops[0][0] == 'reg' else None
        if cd is not None and cd.op == 'icmp':
            tr = [tree(fn, x, m) for x in cd.ops]
            ok = any(isinstance(x, tuple) and x[0] == 'load' and x[1] == 'num_lines' for x in tr)
        inner = [x for x in L[0][1] if x in S.blocks and x is not L[0][0] and any(s not in L[0][1] for s in x.succ)]
        ok = ok and not inner
        cds = [x for x in L[0][1] if x in S.blocks and x is not L[0][0] and x.term.op == 'br' and len(x.term.extra) == 2 and x is not cb]
        ok = ok and not [x for x in cds if not all((x.name, s.name) in S.edges for s in x.succ) is False and not fn.dominates(cb, x)]
    c.ob(ok, 'order:all', '%s: the root does not copy every block of the plan' % wh)


def origin(c, file, ks):
    m, types = module(file)
    fn = entry(m, '', file)
    c.fn(fn.name)
    wh = '%s: %s' % (file, fn.name)
    for sh in SHAPES:
        p = sh[0] * sh[1]
        for name, ctype, rootv, root, gives, takes in kinds(p):
            if name not in ks:
                continue
            for q in range(p):
                # what happens only because of a line that has no partner node
                found = []
                for partner in (-1, 99):
                    S = runs(m, types, fn, sh, q, ctype, rootv, partner)
                    two, cut = set(), set()
                    for b in S.blocks:
                        for ins in b.ins:
                            if ins.op == 'store' and ins.tys and ins.tys[0] == 'i32':
                                t = m.tbaa_field(ins)
                                x = S.val(ins.ops[0])
                                if t is None and x == 2:
                                    two.add(ins)
                                if t == ('data_algorithm_line', 'recvfrom_max') and x == 0:
                                    cut.add(ins)
                    found.append((two, cut))
                two, cut = found[0][0] - found[1][0], found[0][1] - found[1][1]
                here = q // sh[1] == root // sh[1]
                d = 'in a %s with root %d on %d nodes of %d processes, node %d' % (name, root, sh[0], sh[1], q // sh[1])
                if here:
                    c.ob(bool(two), 'origin:missing:' + name, '%s: %s, the node of the root, is not marked as the one that %s the data' % (wh, d, 'has' if file == FWD else 'wants'))
                else:
                    c.ob(not two, 'origin:extra:' + name, '%s:%d in %s: %s is marked as the one that %s the data' % (
                        file, min(i.line for i in two) if two else 0, fn.name, d, 'has' if file == FWD else 'wants'))
                if file == FWD:
                    c.ob(bool(cut) != here, 'origin:input:' + name, '%s: %s %s' % (wh, d, 'drops the data of the root' if here else 'keeps input that only the root has'))
                c.count('origin')


def main(c):
    a = place(c, CIN, 'buffer_type2', 'esendbufp', 'gives', 'copyin')
    root_copy(c, *a)
    place(c, COUT, 'buffer_type1', 'erecvbufp', 'takes', 'copyout')
    origin(c, FWD, ('Bcast', 'Scatterv'))
    origin(c, BWD, ('Reduce', 'Gatherv'))
    c.need('copyin', 100)
    c.need('copyout', 100)
    c.need('origin', 100)
    c.need('root_copies', 1)


if __name__ == '__main__':
    driver.run(main, 'P13', RULE)
