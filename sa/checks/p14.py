"""P14 plans and parameters go from one pass to the next without loss."""
import sys
import os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
import re  # noqa: E402
import glob  # noqa: E402
import itertools  # noqa: E402
import driver  # noqa: E402
from driver import AnalysisError  # noqa: E402
from irlib import *  # noqa: E402
from sccp import SCCP, BOT, fields  # noqa: E402
from aint import Interp, State, Lost  # noqa: E402

RULE = ('Abstract interpretation (contents are opaque tokens) and constant propagation of writer and reader over LLVM IR: every line of a plan is '
        'written with as many operands as its format names and is read back token by token; a read with another format is refused; every field and '
        'every list of the plan header and of the algorithm comes back from the reader as the writer got it, in binary and (keyword by keyword) in text form; '
        'the blocks of the reader are large enough and are freed exactly once.')

RW = 'src/core/read_write.c'
WAL, RAL = 'ext_mpi_write_assembler_line', 'ext_mpi_read_assembler_line'


def enums(m, prefix_of):
    """values of the enumeration that contains the given enumerator"""
    for t in m.meta.values():
        if 'DICompositeType' in t and 'DW_TAG_enumeration_type' in t:
            el = m.mdfield(t, 'elements')
            out = {}
            for e in re.findall(r'![0-9]+', m.meta.get(el, '')):
                x = m.meta.get(e, '')
                n = m.mdfield(x, 'name')
                v = re.search(r'value: (-?\d+)', x)
                if n and v:
                    out[n] = int(v.group(1))
            if prefix_of in out:
                return out
    raise AnalysisError('enumeration with %s is gone' % prefix_of)


def need(m, name):
    f = m.fns.get(name)
    if f is None:
        raise AnalysisError('%s: %s is gone' % (RW, name))
    return f


def nested(name):
    """a call of another analysed function"""
    def h(I, ins, a, s):
        fn = I.m.fns[name]
        k = len(fn.params)
        va = I.va
        rs = [x for x in I.run(fn, a[:k], s.copy(), a[k:])]
        I.va = va
        vals = {r for r, _ in rs}
        st = rs[0][1]
        for _, o in rs[1:]:
            for key in list(st.mem):
                if o.mem.get(key) != st.mem[key]:
                    del st.mem[key]
            st.bad += o.bad
        s.mem, s.size, s.ev, s.bad, s.n = st.mem, st.size, st.ev, st.bad, st.n
        if len(vals) == 1:
            return vals.pop()
        if all(isinstance(v, int) and v < 0 for v in vals):
            return -1
        return None
    return h


class Env:
    def __init__(self, m):
        self.m = m
        self.I = Interp(m, {n: nested(n) for n, f in m.fns.items() if f.blocks})

    def call(self, name, args, s, va=()):
        """(common return value or None, joined state)"""
        fn = need(self.m, name)
        h = nested(name)
        return h(self.I, None, list(args) + list(va), s), s


def where(fn):
    return '%s:%s in %s' % (RW, fn.line if hasattr(fn, 'line') else 0, fn.name)


# ------------------------------------------------------------------ lines of a plan
def lines(c, E, fmts):
    m = E.m
    w, r = need(m, WAL), need(m, RAL)
    c.fn(WAL)
    c.fn(RAL)
    for f in sorted(fmts):
        s = State()
        buf = s.new('buf')
        toks = [('t', k) for k in range(len(f))]
        s.size['fmt'] = None
        n, s = E_call(E, WAL, [buf, 0], f, toks, s)
        wh = 'the line format "%s"' % f
        if not c.ob(isinstance(n, int) and n > 0, 'line:write', '%s: the length of a line of %s is not determined' % (WAL, wh)):
            continue
        # through the hands of the passes that only copy lines
        line, out = s.new('line', 1000), s.new('out')
        n1, s = E.call('ext_mpi_read_line', [buf, line, 0], s)
        n2, s = E.call('ext_mpi_write_line', [out, line, 0], s)
        c.ob(n1 == n and n2 == n, 'line:copy', 'ext_mpi_read_line / ext_mpi_write_line: a line of %s changes its length on the way' % wh)
        for src, nm in ((buf, 'direct'), (out, 'copied')):
            s2 = s.copy()
            ptrs = [s2.new('v', 4) for _ in f]
            got, s2 = E_call(E, RAL, [src, 0], f, ptrs, s2)
            c.ob(got == n, 'line:length', '%s: a line of %s is not recognised by its own format' % (RAL, wh))
            for k, p in enumerate(ptrs):
                c.ob(s2.get(p, 4) == toks[k], 'line:value', '%s: operand %d of a line of %s is not read back' % (RAL, k + 1, wh))
            for i, t in s2.bad:
                c.ob(False, 'line:bounds', '%s:%d: %s' % (RW, i.line, t))
        for k in range(1, len(f)):
            s2 = s.copy()
            ptrs = [s2.new('v', 4) for _ in f[:k]]
            got, s2 = E_call(E, RAL, [buf, 0], f[:k], ptrs, s2)
            c.ob(isinstance(got, int) and got >= 0 and all(s2.get(p, 4) == toks[j] for j, p in enumerate(ptrs)), 'line:prefix',
                 '%s: the first %d operands of a line of %s are not read' % (RAL, k, wh))
        for k in range(len(f)):
            g = f[:k] + ('d' if f[k] == 's' else 's') + f[k + 1:]
            for h in {g, g[:k + 1]}:
                s2 = s.copy()
                ptrs = [s2.new('v', 4) for _ in h]
                got, s2 = E_call(E, RAL, [buf, 0], h, ptrs, s2)
                c.ob(isinstance(got, int) and got < 0, 'line:kind', '%s: a line of %s is taken for one of "%s"' % (RAL, wh, h))
        for x in 'sd':
            s2 = s.copy()
            ptrs = [s2.new('v', 4) for _ in f + x]
            got, s2 = E_call(E, RAL, [buf, 0], f + x, ptrs, s2)
            c.ob(isinstance(got, int) and got < 0, 'line:longer', '%s: a line of %s is taken for one of "%s"' % (RAL, wh, f + x))
        c.count('formats')
    # end of a plan
    s = State()
    buf, line = s.new('buf'), s.new('line', 1000)
    n, s = E.call('ext_mpi_write_eof', [buf, 0], s)
    n1, s = E.call('ext_mpi_read_line', [buf, line, 0], s)
    c.ob(n1 == 0, 'line:eof', 'the end of a plan written by ext_mpi_write_eof is not seen by ext_mpi_read_line')


class Str:
    """constant strings made up by the analysis"""


def E_call(E, name, args, fmt, rest, s):
    g = '@fmt:' + fmt
    E.m.globs[g[1:]] = 'c"%s\\00"' % fmt
    return E.call(name, list(args) + [('p', g, 0)], s, rest)


def formats(c, kinds):
    """all calls in the passes: operands fit the format; returns the formats"""
    fm = set()
    shape = {}
    byval = {v: k for k, v in kinds.items()}
    for f in sorted(glob.glob(os.path.join(driver.REPO, 'src/core/*.c')) + glob.glob(os.path.join(driver.REPO, 'src/mpi/*.c'))):
        if 'assembler_line' not in open(f, errors='replace').read():
            continue
        rel = os.path.relpath(f, driver.REPO)
        m = driver.compile_one(rel, tag='p14')
        for fn in m.fns.values():
            for ins in fn.instrs():
                if ins.op != 'call' or ins.extra not in (WAL, RAL) or fn.name in (WAL, RAL):
                    continue
                t = m.cstring(ins.ops[2][1]) if ins.ops[2][0] == 'glob' else None
                if t is None:
                    continue
                wh = '%s:%d in %s' % (rel, ins.line, fn.name)
                fm.add(t)
                c.count('line_calls')
                c.ob(set(t) <= set('sd'), 'call:letters', '%s: line format "%s"' % (wh, t))
                rest, ty = ins.ops[3:], ins.tys[3:]
                write = ins.extra == WAL
                c.ob(len(rest) >= len(t), 'call:count', '%s: format "%s" names %d operands, %d are passed' % (wh, t, len(t), len(rest)))
                for k, (o, y) in enumerate(zip(rest, ty)):
                    if k >= len(t):
                        break
                    c.ob(y == ('i32' if write else 'ptr'), 'call:type', '%s: operand %d of format "%s" is not %s' % (wh, k + 1, t, 'an int' if write else 'an address'))
                    if write and o[0] == 'int' and t[k] == 's':
                        c.ob(o[1] in byval, 'call:enum', '%s: operand %d of format "%s" is not a word of the plan language' % (wh, k + 1, t))
                if write and rest and rest[0][0] == 'int' and rest[0][1] in byval:
                    shape.setdefault(rest[0][1], {}).setdefault(t, wh)
    for k, d in sorted(shape.items()):
        ws = list(d)
        c.ob(len(ws) == 1, 'call:shape', '%s: a line of kind %s is written as "%s", elsewhere as %s' % (d[ws[0]], byval[k], ws[0], ', '.join('"%s"' % x for x in ws[1:])))
    return fm


def struct_off(m, s):
    d = {n: o for o, n, _ in m.struct_fields(s)}
    if not d:
        raise AnalysisError('struct %s is gone' % s)
    return d


def transfers(c, E, kinds):
    m = E.m
    shm = kinds.get('eshmemo')
    bufs = [kinds[k] for k in ('eshmemo', 'esendbufp', 'erecvbufp', 'elocmemp') if k in kinds]
    if shm is None or len(bufs) < 3:
        raise AnalysisError('the kinds of buffers are gone')
    for wn, rn, st, names, nb in (
            ('ext_mpi_write_irecv_isend', 'ext_mpi_read_irecv_isend', 'line_irecv_isend', ('eirecv', 'eirec_', 'eisend', 'eisen_'), 1),
            ('ext_mpi_write_memcpy_reduce', 'ext_mpi_read_memcpy_reduce', 'line_memcpy_reduce',
             ('ememcpy', 'ememcp_', 'ereduce', 'ereduc_', 'esmemcpy', 'esmemcp_', 'esreduce', 'esreduc_'), 2)):
        need(m, wn)
        need(m, rn)
        c.fn(wn)
        c.fn(rn)
        off = struct_off(m, st)
        sfx = [''] if nb == 1 else ['1', '2']
        cases = []
        for b in itertools.product(bufs, repeat=nb):
            for o in itertools.product((0, 1), repeat=nb):
                if all(x == shm or not y for x, y in zip(b, o)):
                    cases.append((b, o))
        for kind in names:
            if kind not in kinds:
                continue
            for b, o in cases:
                s = State()
                s.size['D'] = s.size['D2'] = max(off.values()) + 4
                exp = {}
                for f, p in off.items():
                    v = ('t', f)
                    if f == 'type':
                        v = kinds[kind]
                    for j, x in enumerate(sfx):
                        if f == 'buffer_type' + x:
                            v = b[j]
                        if f == 'is_offset' + x:
                            v = o[j]
                    s.put(('p', 'D', p), v, 4)
                    exp[f] = v
                for j, x in enumerate(sfx):
                    if b[j] != shm:
                        exp['buffer_number' + x] = None
                    if not o[j]:
                        exp['offset_number' + x] = None
                buf = s.new('buf')
                n, s = E.call(wn, [buf, ('p', 'D', 0), 0], s)
                got, s = E.call(rn, [buf, ('p', 'D2', 0)], s)
                bn = {v: k for k, v in kinds.items()}
                wh = '%s line with %s' % (kind[1:].upper(), ' and '.join('%s%s' % (bn[x], ' relative to an offset' if y else '') for x, y in zip(b, o)))
                c.ob(got == 1, rn + ':accept', '%s: a %s is not recognised' % (rn, wh))
                for f, p in off.items():
                    if exp[f] is None:
                        continue
                    v = s.get(('p', 'D2', p), 4)
                    c.ob(v == exp[f], '%s:%s' % (rn, f), '%s / %s: %s of a %s is not what was written' % (wn, rn, f, wh))
                c.count('transfer_cases')
        other = [v for k, v in kinds.items() if k not in names]
        for v in other:
            s = State()
            s.size['D2'] = max(off.values()) + 4
            buf = s.new('buf')
            n, s = E_call(E, WAL, [buf, 0], 'sd', [v, ('t', 1)], s)
            got, s = E.call(rn, [buf, ('p', 'D2', 0)], s)
            c.ob(got == 0, rn + ':foreign', '%s: a line of kind %d is taken for a transfer' % (rn, v))


# ------------------------------------------------------------------ the plan header
def lists_of(off):
    return [f for f in off if f + '_max' in off]


def params_binary(c, E):
    m = E.m
    wn, rn, dn = 'ext_mpi_write_parameters', 'ext_mpi_read_parameters', 'ext_mpi_delete_parameters'
    for n in (wn, rn, dn):
        need(m, n)
        c.fn(n)
    off = struct_off(m, 'parameters_block')
    ls = lists_of(off)
    if len(ls) < 5:
        raise AnalysisError('the lists of the plan header are gone')
    cases = [{}] + [{f: 2} for f in ls] + [{f: 1 + k % 3 for k, f in enumerate(ls)}] + [{f: 3 - k % 3 for k, f in enumerate(ls)}] + \
        [{f: 2 for f in ls if f != g} for g in ls]
    for cs in cases:
        s = State()
        size = (max(off.values()) + 8 + 7) // 8 * 8
        for f, p in off.items():
            if f in ls:
                k = cs.get(f, 0)
                if k:
                    s.size['L' + f] = 4 * k
                    for j in range(k):
                        s.put(('p', 'L' + f, 4 * j), ('t', f, j), 4)
                    s.put(('p', 'P', p), ('p', 'L' + f, 0), 8)
                else:
                    s.put(('p', 'P', p), 0, 8)
            elif f.endswith('_max') and f[:-4] in ls:
                s.put(('p', 'P', p), cs.get(f[:-4], 0), 4)
            elif f == 'ascii_out':
                s.put(('p', 'P', p), 0, 4)
            else:
                s.put(('p', 'P', p), ('t', f), 4)
        buf = s.new('buf')
        n, s = E.call(wn, [('p', 'P', 0), buf], s)
        s.size['PP'] = 8
        got, s = E.call(rn, [buf, ('p', 'PP', 0)], s)
        d = 'with ' + (', '.join('%d %s' % (v, k) for k, v in cs.items()) or 'no lists')
        c.ob(isinstance(n, int) and n == got, 'params:length', '%s / %s: the reader does not end where the writer did (%s)' % (wn, rn, d))
        q = s.get(('p', 'PP', 0), 8)
        if not c.ob(isinstance(q, tuple) and q[0] == 'p', 'params:block', '%s does not deliver a header' % rn):
            continue
        for f, p in off.items():
            if f == 'ascii_in':
                continue
            if f in ls:
                k = cs.get(f, 0)
                v = s.get(('p', q[1], q[2] + p), 8)
                if not k:
                    c.ob(v == 0, 'params:list:' + f, '%s: %s is not empty although nothing was written (%s)' % (rn, f, d))
                    continue
                if not c.ob(isinstance(v, tuple) and v[0] == 'p' and v[1] != 'L' + f, 'params:list:' + f, '%s: %s is not read into a list of its own (%s)' % (rn, f, d)):
                    continue
                for j in range(k):
                    c.ob(s.get(('p', v[1], v[2] + 4 * j), 4) == ('t', f, j), 'params:list:' + f, '%s / %s: entry %d of %s is not what was written (%s)' % (wn, rn, j, f, d))
                c.ob(s.get(('p', v[1], v[2] + 4 * k), 4) == 0, 'params:end:' + f, '%s: %s does not end with 0 (%s)' % (rn, f, d))
            else:
                exp = cs.get(f[:-4], 0) if f.endswith('_max') and f[:-4] in ls else 0 if f == 'ascii_out' else ('t', f)
                c.ob(s.get(('p', q[1], q[2] + p), 4) == exp, 'params:field:' + f, '%s / %s: %s is not what was written (%s)' % (wn, rn, f, d))
        blocks = [q[1]] + [s.get(('p', q[1], q[2] + off[f]), 8)[1] for f in cs if isinstance(s.get(('p', q[1], q[2] + off[f]), 8), tuple)]
        e0 = len(s.ev)
        _, s = E.call(dn, [q], s)
        fr = [a[0][1] for f, a, _ in s.ev[e0:] if f == 'free' and isinstance(a[0], tuple)]
        c.ob(sorted(fr) == sorted(blocks), 'params:free', '%s: the header is not freed exactly once with all its lists (%s)' % (dn, d))
        for i, t in s.bad:
            c.ob(False, 'params:bounds', '%s:%d in %s: %s (%s)' % (RW, i.line, i.fn.name, t, d))
        c.count('header_cases')


# ------------------------------------------------------------------ the algorithm
def algorithm_binary(c, E):
    m = E.m
    wn, rn, dn = 'ext_mpi_write_algorithm', 'ext_mpi_read_algorithm', 'ext_mpi_delete_algorithm'
    for n in (wn, rn):
        need(m, n)
        c.fn(n)
    da, db, dl = (struct_off(m, x) for x in ('data_algorithm', 'data_algorithm_block', 'data_algorithm_line'))
    arr = {}
    for f in dl:
        if f.endswith('_max'):
            arr[f] = [g for g in dl if g != f and g.startswith(f[:-4])]
    if len(arr) < 3 or not all(arr.values()):
        raise AnalysisError('the lists of a line of the algorithm are gone')
    lsz = (max(dl.values()) + 8 + 7) // 8 * 8
    shapes = list(itertools.product((0, 1, 2), repeat=len(arr)))
    for start in range(0, len(shapes), 3):
        take = shapes[start:start + 3]
        blocks = [take[:2], take[2:]]
        s = State()
        s.size['B'] = 16 * len(blocks)
        exp = []
        for i, ls in enumerate(blocks):
            s.put(('p', 'B', 16 * i + db['num_lines']), len(ls), 4)
            s.put(('p', 'B', 16 * i + db['lines']), ('p', 'L%d' % i, 0), 8)
            s.size['L%d' % i] = lsz * len(ls)
            for j, sh in enumerate(ls):
                for f, p in dl.items():
                    if f in arr:
                        k = sh[list(arr).index(f)]
                        s.put(('p', 'L%d' % i, lsz * j + p), k, 4)
                        for g in arr[f]:
                            b = 'A%d.%d.%s' % (i, j, g)
                            s.put(('p', 'L%d' % i, lsz * j + dl[g]), ('p', b, 0) if k else 0, 8)
                            s.size[b] = 4 * k
                            for x in range(k):
                                s.put(('p', b, 4 * x), ('t', b, x), 4)
                    elif not any(f in v for v in arr.values()):
                        s.put(('p', 'L%d' % i, lsz * j + p), ('t', i, j, f), 4)
        buf = s.new('buf')
        d = 'an algorithm with %s' % ' / '.join(str(x) for x in take)
        fw = m.fns[wn]
        args = []
        if len(fw.params) == 4:
            args = [len(blocks), ('p', 'B', 0), buf, 0]
        else:
            s.put(('p', 'D', da['num_blocks']), len(blocks), 4)
            s.put(('p', 'D', da['blocks']), ('p', 'B', 0), 8)
            args = [('p', 'D', 0), buf, 0]
        n, s = E.call(wn, args, s)
        s.size['D2'] = 16
        got, s = E.call(rn, [buf, ('p', 'D2', 0), 0], s)
        c.ob(isinstance(n, int) and n == got, 'algorithm:length', '%s / %s: the reader does not end where the writer did (%s)' % (wn, rn, d))
        c.ob(s.get(('p', 'D2', da['num_blocks']), 4) == len(blocks), 'algorithm:blocks', '%s: the number of stages is not what was written' % rn)
        q = s.get(('p', 'D2', da['blocks']), 8)
        if not c.ob(isinstance(q, tuple) and q[0] == 'p', 'algorithm:blocks', '%s does not deliver the stages' % rn):
            continue
        heap = {q[1]}
        for i, ls in enumerate(blocks):
            c.ob(s.get(('p', q[1], 16 * i + db['num_lines']), 4) == len(ls), 'algorithm:lines', '%s: the number of lines of a stage is not what was written' % rn)
            l = s.get(('p', q[1], 16 * i + db['lines']), 8)
            if not isinstance(l, tuple):
                c.ob(not ls, 'algorithm:lines', '%s: the lines of a stage are missing' % rn)
                continue
            heap.add(l[1])
            for j, sh in enumerate(ls):
                for f, p in dl.items():
                    a = ('p', l[1], lsz * j + p)
                    if f in arr:
                        k = sh[list(arr).index(f)]
                        c.ob(s.get(a, 4) == k, 'algorithm:' + f, '%s / %s: %s is not what was written (%s)' % (wn, rn, f, d))
                        for g in arr[f]:
                            v = s.get(('p', l[1], lsz * j + dl[g]), 8)
                            if not k:
                                c.ob(v == 0, 'algorithm:' + g, '%s: %s of a line without entries is not empty (%s)' % (rn, g, d))
                                continue
                            if isinstance(v, tuple):
                                heap.add(v[1])
                            for x in range(k):
                                c.ob(isinstance(v, tuple) and s.get(('p', v[1], v[2] + 4 * x), 4) == ('t', 'A%d.%d.%s' % (i, j, g), x), 'algorithm:' + g,
                                     '%s / %s: entry %d of %s is not what was written (%s)' % (wn, rn, x, g, d))
                    elif not any(f in v for v in arr.values()):
                        c.ob(s.get(a, 4) == ('t', i, j, f), 'algorithm:' + f, '%s / %s: %s is not what was written (%s)' % (wn, rn, f, d))
        fd = m.fns.get(dn)
        if fd is not None and len(fd.params) == 2:
            e0 = len(s.ev)
            _, s = E.call(dn, [len(blocks), q], s)
            fr = [a[0][1] for f, a, _ in s.ev[e0:] if f == 'free' and isinstance(a[0], tuple)]
            c.ob(sorted(fr) == sorted(heap), 'algorithm:free', '%s: the algorithm is not freed exactly once with all its lists (%s)' % (dn, d))
        for i, t in s.bad:
            c.ob(False, 'algorithm:bounds', '%s:%d in %s: %s (%s)' % (RW, i.line, i.fn.name, t, d))
        c.count('algorithm_cases')


# ------------------------------------------------------------------ the text form
def render(I, buf, s):
    """the text at buf: lines of words; a word is a string or a tuple of values"""
    cs = I.chars(buf, s)
    if cs is None:
        return None
    vals, out = [], ''
    for x in cs:
        if isinstance(x, int):
            out += chr(x)
        else:
            out += '\x01%d\x02' % len(vals)
            vals.append(x[1] if x[0] == 'num' else None)
    lines = []
    for l in out.split('\n'):
        ws = []
        for w in l.split():
            if '\x01' in w:
                parts = re.split('\x01(\\d+)\x02', w)
                if any(p not in ('', '|') for p in parts[0::2]):
                    ws.append(w)
                else:
                    ws.append(tuple(vals[int(x)] for x in parts[1::2]))
            else:
                ws.append(w)
        if ws:
            lines.append(ws)
    return lines


def consts(m, fn, names):
    """string constants given to the calls of comparing functions"""
    out = set()
    for ins in fn.instrs():
        if ins.op == 'call' and ins.extra in names:
            for o in ins.ops:
                if o[0] == 'glob' and m.cstring(o[1]) is not None:
                    out.add(m.cstring(o[1]))
    return out


def direct(m, fn, names):
    """are all comparisons with constant words"""
    n = 0
    for ins in fn.instrs():
        if ins.op == 'call' and ins.extra in names:
            n += 1
            if not any(o[0] == 'glob' and m.cstring(o[1]) is not None for o in ins.ops):
                return False
    return n > 0


def effect(m, fn, match):
    """what runs when exactly the words in match are found"""
    def known(ins, S):
        if ins.op != 'call' or not isinstance(ins.extra, str):
            return None
        ts = [m.cstring(o[1]) for o in ins.ops if o[0] == 'glob']
        if ins.extra in ('strcmp', 'strncmp') and ts and ts[0] is not None:
            return 0 if ts[0] in match else 1
        if ins.extra == 'strstr' and ts and ts[0] is not None:
            return None if ts[0] in match else 0
        return None
    return SCCP(fn, known)


def field_of(m, fn, o, struct):
    d = None
    if o[0] == 'reg':
        d = fn.defs.get(o[1]) if hasattr(fn, 'defs') else None
    if d is not None and d.op == 'getelementptr' and re.sub(r'\.\d+$', '', str(d.extra).strip('%').strip('"')) == 'struct.' + struct and len(d.ops) == 3 and d.ops[1] == ('int', 0):
        fs = m.struct_fields(struct)
        if d.ops[2][0] == 'int' and d.ops[2][1] < len(fs):
            return fs[d.ops[2][1]][1]
    return None


def stores(m, fn, S, struct):
    """{(field, store)} that run"""
    out = {}
    for b in S.blocks:
        for ins in b.ins:
            if ins.op == 'store':
                t = m.tbaa_field(ins)
                f = t[1] if isinstance(t, tuple) and t[0] == struct else field_of(m, fn, ins.ops[1], struct)
                if f:
                    out[ins] = f
    return out


def number(m, fn, o):
    """is the stored value the number that sscanf read"""
    d = fn.defs.get(o[1]) if o[0] == 'reg' else None
    if d is None or d.op != 'load':
        return False
    for ins in fn.instrs():
        if ins.op == 'call' and ins.extra in ('sscanf', '__isoc99_sscanf', '__isoc23_sscanf') and d.ops[0] in ins.ops[2:]:
            t = m.cstring(ins.ops[1][1]) if ins.ops[1][0] == 'glob' else None
            if t:
                conv = re.findall(r'%(?!\*)\d*([a-z])', t)
                k = ins.ops.index(d.ops[0]) - 2
                return k < len(conv) and conv[k] == 'd'
    return False


def words(c, E, kinds):
    """the words of the plan language"""
    m = E.m
    names = {}
    for k, v in sorted(kinds.items(), key=lambda x: x[1]):
        s = State()
        buf = s.new('buf')
        _, s = E_call(E, WAL, [buf, 1], 's', [v], s)
        t = render(E.I, buf, s)
        w = t[0][0] if t and len(t) == 1 and len(t[0]) == 1 else None
        if k == 'enop' and w is None:
            continue
        if not c.ob(isinstance(w, str), 'word:write:' + k, '%s: there is no word for %s in the text form' % (WAL, k)):
            continue
        c.ob(w not in names, 'word:twice:' + k, '%s: %s and %s are written with the same word %s' % (WAL, k, names.get(w), w))
        names[w] = k
    for rn in (RAL, 'ext_mpi_read_line'):
        fn = need(m, rn)
        if not consts(m, fn, ('strcmp',)) or not direct(m, fn, ('strcmp', 'strncmp', 'strcasecmp')):
            continue
        S = effect(m, fn, set())
        none = {i: S.val(i.ops[0]) for b in S.blocks for i in b.ins if i.op == 'store'}
        for w, k in sorted(names.items()):
            S = effect(m, fn, {w})
            got = {S.val(i.ops[0]) for b in S.blocks for i in b.ins if i.op == 'store' and i.tys[0] == 'i32' and isinstance(S.val(i.ops[0]), int) and
                   S.val(i.ops[0]) != none.get(i)}
            if k == 'enop':
                continue
            c.ob(kinds[k] in got, 'word:read:' + k, '%s: the word %s is not read back as %s' % (rn, w, k))
            c.ob(not (got & set(kinds.values())) - {kinds[k]}, 'word:read:' + k, '%s: the word %s is read as something else than %s' % (rn, w, k))
            c.count('words')


def header_state(off, ls, vals, lists):
    s = State()
    for f, p in off.items():
        if f in ls:
            k = lists.get(f, 0)
            s.put(('p', 'P', p), ('p', 'L' + f, 0) if k else 0, 8)
            if k:
                s.size['L' + f] = 4 * (k + 1)
                for j in range(k):
                    s.put(('p', 'L' + f, 4 * j), ('t', f, j), 4)
        elif f.endswith('_max') and f[:-4] in ls:
            s.put(('p', 'P', p), lists.get(f[:-4], 0), 4)
        else:
            s.put(('p', 'P', p), vals.get(f, 0), 4)
    return s


def params_text(c, E):
    m = E.m
    wn, rn = 'ext_mpi_write_parameters', 'ext_mpi_read_parameters'
    off = struct_off(m, 'parameters_block')
    ls = lists_of(off)
    scal = [f for f in off if f not in ls and not (f.endswith('_max') and f[:-4] in ls) and f not in ('ascii_in', 'ascii_out')]
    fr = m.fns[rn]
    keys = consts(m, fr, ('strcmp',))
    if 'PARAMETER' not in keys or not direct(m, fr, ('strcmp', 'strncmp', 'strcasecmp')):
        c.count('text_form_not_decided')
        return
    base = stores(m, fr, effect(m, fr, {'PARAMETER'}), 'parameters_block')
    default = {}
    for ins, f in base.items():
        if ins.ops[0][0] == 'int':
            default.setdefault(f, set()).add(ins.ops[0][1])
    eff = {}
    for k in sorted(keys - {'PARAMETER'}):
        st = stores(m, fr, effect(m, fr, {'PARAMETER', k}), 'parameters_block')
        eff[k] = {i: f for i, f in st.items() if i not in base}
        # the two types are given by name
        if not eff[k]:
            for w in sorted(keys):
                st = stores(m, fr, effect(m, fr, {'PARAMETER', k, w}), 'parameters_block')
                eff[k].update({i: f for i, f in st.items() if i not in base and i not in eff.get(w, ())})
    for k in list(eff):
        S = effect(m, fr, {'PARAMETER', k})
        S0 = effect(m, fr, {'PARAMETER'})
        for b in S.blocks - S0.blocks:
            for ins in b.ins:
                if ins.op == 'call' and isinstance(ins.extra, str) and ins.extra != 'free':
                    for o in ins.ops:
                        f = field_of(m, fr, o, 'parameters_block')
                        if f:
                            eff[k][(ins, f)] = f
    seen = set()

    def run(vals, lists):
        v = {f: 7 + j for j, f in enumerate(scal)}
        for f in ('verbose', 'in_place', 'bit_identical', 'not_recursive', 'on_gpu'):
            if f in v:
                v[f] = 0
        for f in ('collective_type', 'data_type'):
            v[f] = 1
        v.update(vals)
        v['ascii_out'] = 1
        s = header_state(off, ls, v, lists)
        buf = s.new('buf')
        _, s = E.call(wn, [('p', 'P', 0), buf], s)
        t = render(E.I, buf, s)
        ports = [a for f, a, _ in s.ev if f == 'ext_mpi_print_ports_groups']
        for i, x in s.bad:
            c.ob(False, 'text:bounds', '%s:%d in %s: %s' % (RW, i.line, i.fn.name, x))
        c.count('header_texts')
        return v, t, ports

    def judge(vals, lists):
        v, t, ports = run(vals, lists)
        if not c.ob(t is not None and all(len(l) >= 2 and l[0] == 'PARAMETER' and isinstance(l[1], str) for l in t), 'text:line', '%s: a line of the header has not the form PARAMETER <name>' % wn):
            return
        told = {}
        for l in t:
            k, rest = l[1], l[2:]
            e = eff.get(k)
            if not c.ob(bool(e), 'text:key:' + k, '%s: PARAMETER %s is written by %s but not read' % (rn, k, wn)):
                continue
            fs = set(e.values())
            seen.update(fs)
            if not rest:
                if k == 'ASCII':
                    c.ob('ascii_out' in fs, 'text:flag:' + k, '%s: PARAMETER ASCII does not select the text form' % rn)
                    continue
                c.ob(all(i.ops[0] == ('int', 1) for i in e), 'text:flag:' + k, '%s: PARAMETER %s is read as a flag' % (rn, k))
                for f in fs:
                    told[f] = 1
            elif isinstance(rest[0], str):
                S = effect(m, fr, {'PARAMETER', k, rest[0]})
                st = {i: f for i, f in stores(m, fr, S, 'parameters_block').items() if i not in base}
                for i, f in st.items():
                    told.setdefault(f, S.val(i.ops[0]))
                seen.update(st.values())
            elif fs & set(ls):
                if [x for x in rest if len(x) != 1] or rest == [(None,)]:
                    if rest == [(None,)]:
                        # the ports and their groups, printed by a function of their own
                        if c.ob(len(ports) == 1, 'text:ports', '%s: the ports are not printed' % wn):
                            for x in ports[0]:
                                f = x[1][1:] if isinstance(x, tuple) and x[0] == 'p' else None
                                c.ob(f in fs, 'text:list:%s' % f, '%s: PARAMETER %s is not read into %s' % (rn, k, f))
                                told[f] = [('t', f, j) for j in range(lists.get(f, 0))]
                    continue
                f = [x for x in fs if x in ls]
                c.ob(len(f) == 1, 'text:list:' + k, '%s: PARAMETER %s is read into more than one list' % (rn, k))
                c.ob(f[0] + '_max' in fs, 'text:list:' + k, '%s: the length of %s is not set' % (rn, f[0]))
                told[f[0]] = [x[0] for x in rest]
            else:
                c.ob(len(rest) == 1 and len(rest[0]) == 1, 'text:value:' + k, '%s: PARAMETER %s has not one value' % (wn, k))
                c.ob(all(number(m, fr, i.ops[0]) for i in e), 'text:value:' + k, '%s: PARAMETER %s is not set to the number read' % (rn, k))
                for f in fs:
                    told[f] = rest[0][0]
        for f in scal:
            if f == 'on_gpu' and 'ON_GPU' not in keys:
                continue
            if f in told:
                c.ob(told[f] == v[f] if f not in ('verbose', 'in_place', 'bit_identical', 'not_recursive', 'on_gpu') else told[f] == 1 and v[f] != 0,
                     'text:field:' + f, '%s / %s: %s is not what was written (%s instead of %s)' % (wn, rn, f, told[f], v[f]))
            else:
                c.ob(v[f] in default.get(f, ()), 'text:field:' + f, '%s / %s: %s = %s is lost in the text form' % (wn, rn, f, v[f]))
        for f in ls:
            c.ob(told.get(f, []) == [('t', f, j) for j in range(lists.get(f, 0))], 'text:list:' + f, '%s / %s: %s is not what was written (%s)' % (
                wn, rn, f, told.get(f)))

    judge({}, {})
    for f in scal:
        if f in ('collective_type', 'data_type'):
            continue
        if f in ('verbose', 'in_place', 'bit_identical', 'not_recursive', 'on_gpu'):
            if f == 'on_gpu' and 'ON_GPU' not in keys:
                continue
            judge({f: 1}, {})
        else:
            for x in (0, 1, 5):
                judge({f: x}, {})
    for x in (-1, -10, -13):
        judge({'root': x}, {})
    # types that have a name
    for f, en in (('collective_type', 'collective_type_allreduce'), ('data_type', 'data_type_double')):
        for n, x in enums(m, en).items():
            if n in ('collective_type_allgather', 'collective_type_reduce_scatter_block'):
                continue
            judge({f: x}, {})
    plain = [f for f in ls if f not in ('num_ports', 'groups')]
    for f in plain:
        judge({}, {f: 3})
        judge({}, {f: 1})
    judge({}, {'num_ports': 1, 'groups': 1})
    judge({}, {'num_ports': 2, 'groups': 2})
    judge({}, dict([(f, 1 + j) for j, f in enumerate(plain)] + [('num_ports', 2), ('groups', 2)]))
    # what the builders write
    for f in sorted(glob.glob(os.path.join(driver.REPO, 'src/mpi/*.c'))):
        if ' PARAMETER ' not in open(f, errors='replace').read():
            continue
        rel = os.path.relpath(f, driver.REPO)
        mm = driver.compile_one(rel, tag='p14')
        for fn in mm.fns.values():
            for ins in fn.instrs():
                if ins.op == 'call' and ins.extra == 'sprintf' and ins.ops[1][0] == 'glob':
                    t = mm.cstring(ins.ops[1][1]) or ''
                    g = re.match(r' *PARAMETER (\w+)(?: (\w+))?', t)
                    if g and g.group(1) not in ('BLOCKING', 'ON_GPU'):
                        c.ob(bool(eff.get(g.group(1))), 'builder:key', '%s:%d in %s: PARAMETER %s is not known to %s' % (rel, ins.line, fn.name, g.group(1), rn))
                        if g.group(2) and eff.get(g.group(1)):
                            c.ob(g.group(2) in keys, 'builder:name', '%s:%d in %s: %s is not known to %s' % (rel, ins.line, fn.name, g.group(2), rn))
                        c.count('builder_keys')


def algorithm_text(c, E):
    m = E.m
    wn, rn = 'ext_mpi_write_algorithm', 'ext_mpi_read_stage_line'
    da, db, dl = (struct_off(m, x) for x in ('data_algorithm', 'data_algorithm_block', 'data_algorithm_line'))
    arr = {f: [g for g in dl if g != f and g.startswith(f[:-4])] for f in dl if f.endswith('_max')}
    lsz = (max(dl.values()) + 8 + 7) // 8 * 8
    fr = m.fns.get(rn)
    if fr is None or len(m.fns[wn].params) != 4 or not direct(m, fr, ('strstr',)):
        c.count('text_form_not_decided')
        return
    keys = consts(m, fr, ('strstr',))
    base = stores(m, fr, effect(m, fr, {'STAGE', 'FRAC'}), 'data_algorithm_line')
    reads = {}
    for k in keys:
        S = effect(m, fr, {k, 'STAGE', 'FRAC'})
        st = {i: f for i, f in stores(m, fr, S, 'data_algorithm_line').items() if i not in base}
        order = []
        for b in S.blocks:
            for ins in b.ins:
                if ins.op == 'call' and ins.extra in ('sscanf', '__isoc99_sscanf', '__isoc23_sscanf'):
                    o = []
                    for x in ins.ops[2:]:
                        while x[0] == 'reg' and x[1] in fr.defs and fr.defs[x[1]].op == 'getelementptr' and field_of(m, fr, x, 'data_algorithm_line') is None:
                            x = fr.defs[x[1]].ops[0]
                        d = fr.defs.get(x[1]) if x[0] == 'reg' else None
                        if d is not None and d.op == 'load':
                            t = m.tbaa_field(d)
                            o.append(t[1] if isinstance(t, tuple) and t[0] == 'data_algorithm_line' else field_of(m, fr, d.ops[0], 'data_algorithm_line'))
                    if o and all(o):
                        order.append(o)
        reads[k.strip()] = (set(st.values()), order)
        for k2 in keys:
            c.ob(k == k2 or k not in k2, 'stage:substring', '%s: the keyword %s is found inside of %s' % (rn, k, k2))
    for sh in itertools.product((0, 1, 2), repeat=len(arr)):
        s = State()
        s.put(('p', 'B', db['num_lines']), 1, 4)
        s.put(('p', 'B', db['lines']), ('p', 'L', 0), 8)
        exp = {}
        for f, p in dl.items():
            if f in arr:
                k = sh[list(arr).index(f)]
                s.put(('p', 'L', p), k, 4)
                for g in arr[f]:
                    s.put(('p', 'L', dl[g]), ('p', 'A' + g, 0) if k else 0, 8)
                    s.size['A' + g] = 4 * k
                    for x in range(k):
                        s.put(('p', 'A' + g, 4 * x), ('t', g, x), 4)
                if k:
                    exp[f] = k
            elif not any(f in v for v in arr.values()):
                s.put(('p', 'L', p), ('t', f), 4)
        buf = s.new('buf')
        _, s = E.call(wn, [1, ('p', 'B', 0), buf, 1], s)
        t = [l for l in render(E.I, buf, s) or [] if l[0] != '#']
        d = 'a line with ' + (', '.join('%d x %s' % (k, f[:-4]) for f, k in exp.items()) or 'no entries')
        if not c.ob(len(t) == 1 and t[0][:1] == ['STAGE'] and t[0][1] == (0,) and t[0][2] == 'FRAC' and t[0][3] == (('t', 'frac'),), 'stage:form',
                    '%s: %s is not written as STAGE <number> FRAC <number>' % (wn, d)):
            continue
        rest, cur, got = t[0][4:], None, {}
        for w in rest:
            if isinstance(w, str):
                cur = w
                got[cur] = []
            elif cur:
                got[cur].append(w)
        done = set()
        for k, vs in got.items():
            fs, order = reads.get(k, (set(), []))
            if not c.ob(bool(fs), 'stage:key', '%s: the keyword %s of %s is not read' % (rn, k, wn)):
                continue
            mx = [f for f in fs if f in arr]
            if not c.ob(len(mx) == 1, 'stage:key', '%s: the keyword %s does not set one list' % (rn, k)):
                continue
            f = mx[0]
            done.add(f)
            gs = next((o for o in order if set(o) <= set(arr[f])), None)
            if gs is None and len(arr[f]) == 1:
                gs = arr[f]
            if gs is None:
                continue
            c.ob(vs == [tuple(('t', g, x) for g in gs) for x in range(exp.get(f, 0))], 'stage:list:' + f[:-4], '%s / %s: %s of %s is not what was written' % (wn, rn, f[:-4], d))
        c.ob(done == set(exp), 'stage:lost', '%s / %s: %s of %s is lost in the text form' % (wn, rn, ', '.join(sorted(x[:-4] for x in set(exp) ^ done)), d))
        for i, x in s.bad:
            c.ob(False, 'stage:bounds', '%s:%d in %s: %s' % (RW, i.line, i.fn.name, x))
        c.count('stage_texts')


def main(c):
    m = driver.compile_one(RW, tag='p14')
    kinds = enums(m, 'eshmemo')
    E = Env(m)
    try:
        fm = formats(c, kinds)
        lines(c, E, fm)
        transfers(c, E, kinds)
        params_binary(c, E)
        algorithm_binary(c, E)
        words(c, E, kinds)
        params_text(c, E)
        algorithm_text(c, E)
    except Lost as e:
        raise AnalysisError(str(e))
    c.need('formats', 10)
    c.need('line_calls', 40)
    c.need('transfer_cases', 100)
    c.need('header_cases', 10)
    c.need('algorithm_cases', 10)


if __name__ == '__main__':
    driver.run(main, 'P14', RULE)
