"""P01 compiled-instruction agreement between the emitter and the interpreters."""
from bytecode import *
import driver

RULE = ('For every control-flow path of the code generator\'s line loop (emission pass and sizing pass) the written '
        'bytes are contiguous, decode under the main executor\'s operand grammar, have the operand kinds every other '
        'interpreter of the same instruction reads, and take each operand from the line field that the executor uses '
        'it for; the sizing pass advances by the same amount; every interpreter rejects unknown instructions and leaves '
        'the loop only at the return instruction; trailer offsets written and read agree.')

SZ = {'i8': 1, 'i32': 4, 'ptr': 8, 'i64': 8, 'i16': 2}
# mnemonic -> (external effect of the executor, roles of the emitted operands after the opcode)
MNEM = {
    'ereturn': [], 'eattached': [], 'enode_barrier': [], 'esocket_barrier': [],
    'eset_socket_barrier': ['arg1'], 'ewait_socket_barrier': ['arg1'],
    'ewaitall': ['arg1', 'reqs'], 'ewaitany': ['arg1', 'arg2', 'reqs'],
    'eisend': ['addr0', 'size0', 'partner', 'req'], 'eirecv': ['addr0', 'size0', 'partner', 'req'],
    'ememcpy': ['addr1', 'addr2', 'size0'], 'esmemcpy': ['addr1', 'addr2', 'size0'],
    'ereduce': ['op', 'addr1', 'addr2', 'count'], 'esreduce': ['op', 'addr1', 'addr2', 'count'],
}
OPSIZE = {1: 8, 2: 8, 3: 4, 4: 4, 0: 1}


def lds(e):
    return [x for x in subterms(e) if isinstance(x, tuple) and len(x) >= 4 and x[0] == 'ld']


def fields(e):
    return {x[1][1] for x in lds(e) if x[1]}


def main(c):
    m = driver.compile_one(EMIT)
    em = Emitter(m)
    ev = enum_values(m, 'eassembler_type')
    name = {v: k for k, v in ev.items()}
    for k in MNEM:
        if k not in ev:
            raise AnalysisError('schedule line kind %s is gone' % k)
    mx = driver.compile_one(EXEC)
    ins = {n: Interp(mx, n) for n in INTERP}
    c.fn('ext_mpi_generate_byte_code')
    for n in INTERP:
        c.fn(n)
    nat = ins['ext_mpi_exec_native']
    # ---- grammar from the interpreters
    gram = {}       # opcode -> {offset: type}, length
    results = {}
    for n, I in ins.items():
        for fi, f in enumerate(I.fetch):
            if not f.res:
                continue
            ops = I.opcodes(f)
            for o in sorted(ops):
                res = I.run_opcode(f, o)
                results[(n, fi, o)] = res
                c.count('interpreter_cases')
                c.count('interpreter_paths', len(res))
            # unknown opcodes
            for bad in (max(ops) + 1, 77, -1, min(set(range(1, 40)) - ops)):
                if bad in ops:
                    continue
                r = I.run_opcode(f, bad)
                ok = bool(r) and all(x['kind'] in ('exit', 'unreachable') for x in r)
                c.ob(ok, '%s:unknown-opcode' % n,
                     '%s: %s continues on an instruction code it does not implement (%d)' % (
                         I.fn.where(f), n, bad))
                c.count('unknown_opcode_cases')
    outer = {}
    for n, I in ins.items():
        # the outer fetch is the one whose cases include 0 (return)
        for fi, f in enumerate(I.fetch):
            if 0 in I.opcodes(f):
                outer[n] = fi
    for n in INTERP:
        if n not in outer:
            c.violation('%s:no-return' % n, '%s has no case for the return instruction' % n)
            return
    emitted = set()
    for r in em.real:
        for off, ty, v, st in r['trace']:
            if ty == 'i8' and is_c(v):
                emitted.add(v[1])
    fo = outer['ext_mpi_exec_native']
    for o in sorted(emitted):
        res = results.get(('ext_mpi_exec_native', fo, o))
        if res is None:
            c.violation('emit:%d:unhandled' % o, 'the generator emits instruction %d but the executor has no case for it' % o)
            continue
        g, ln = {}, set()
        for x in res:
            for t in x['trace']:
                if t[0] == 'ld':
                    if g.setdefault(t[1], t[2]) != t[2]:
                        c.violation('exec:%d:%d' % (o, t[1]), '%s: operand at offset %d of instruction %d read with two kinds' % (nat.fn.where(t[4]), t[1], o))
            if x['kind'] == 'next':
                ln.add(x['next'])
        if o == 0:
            c.ob(all(x['kind'] == 'ret' for x in res), 'exec:return', 'ext_mpi_exec_native does not stop at the return instruction')
            gram[o] = ({}, 1)
            continue
        if len(ln) != 1:
            c.violation('exec:%d:len' % o, 'ext_mpi_exec_native: instruction %d advances by %s bytes depending on the path' % (o, sorted(ln)))
            continue
        gram[o] = (g, ln.pop())
    # ---- emission
    seen_mn = set()
    for r in em.real:
        tr = r['trace']
        mn = name.get(r['mnem'])
        w = em.fn.where(tr[0][3]) if tr else EMIT
        pos = 0
        key = mn or 'line'
        c.count('emission_paths')
        ok = True
        st = {}
        for off, ty, v, i in tr:
            st[off] = (ty, v, i)
        for off in sorted(st):
            if off != pos:
                ok = False
            pos = off + SZ.get(st[off][0], 0)
        c.ob(ok and pos == r['end'], 'emit:%s:contiguous' % key,
             '%s: bytes written for %s are not contiguous with the instruction-pointer advance (%s, advance %d)' % (
                 w, key, [(o, t[0]) for o, t in sorted(st.items())], r['end']))
        # decode with the executor's grammar
        pos = 0
        seq = []
        while ok and pos < r['end']:
            if pos not in st or st[pos][0] != 'i8' or not is_c(st[pos][1]):
                c.violation('emit:%s:decode' % key, '%s: no instruction code at offset %d of the emission for %s' % (w, pos, key))
                break
            o = st[pos][1][1]
            if o not in gram:
                break
            g, ln = gram[o]
            bad = None
            offs = sorted(x - pos for x in st if pos < x < pos + ln)
            for d, t in g.items():
                if pos + d not in st or st[pos + d][0] != t:
                    bad = 'executor reads %s at +%d, generator wrote %s' % (t, d, st.get(pos + d, ('nothing',))[0])
            if pos + ln > r['end']:
                bad = 'executor consumes %d bytes, generator wrote %d' % (ln, r['end'] - pos)
            nxt = pos + ln
            if nxt < r['end'] and (nxt not in st or st[nxt][0] != 'i8'):
                bad = 'executor continues at +%d, which is not an instruction start' % ln
            c.ob(bad is None, 'emit:%s:op%d:layout' % (key, o),
                 '%s: operand layout of instruction %d (line kind %s) differs from ext_mpi_exec_native: %s' % (w, o, key, bad),
                 sample='%s -> op %d, %d bytes, operands %s' % (key, o, ln, sorted(g.items())))
            seq.append((o, [st[pos + d] for d in offs]))
            pos = nxt
        if not ok:
            continue
        # roles
        if mn in MNEM and seq:
            seen_mn.add(mn)
            if len(seq) != 1:
                c.violation('emit:%s:count' % mn, '%s: line kind %s is compiled to %d instructions' % (w, mn, len(seq)))
                continue
            o, args = seq[0]
            roles = MNEM[mn]
            if len(roles) != len(args):
                c.violation('emit:%s:arity' % mn, '%s: line kind %s emits %d operands, %d expected' % (w, mn, len(args), len(roles)))
                continue
            for role, (ty, v, i) in zip(roles, args):
                bad = check_role(role, v, r, em, name)
                c.count('operand_roles')
                c.ob(bad is None, 'emit:%s:%s' % (mn, role), '%s: operand "%s" of %s: %s' % (em.fn.where(i), role, mn, bad))
        elif seq and mn not in MNEM:
            c.violation('emit:%s:kind' % mn, '%s: code emitted for line kind %s' % (w, mn))
    for k in MNEM:
        c.ob(k in seen_mn, 'emit:%s:missing' % k, 'no instruction is generated for schedule line %s' % k)
    # skipping of a line: only a barrier among one core, or an empty waitall
    for r in em.real:
        mn = name.get(r['mnem'])
        if mn in MNEM and not r['trace']:
            okk = mn in ('eset_socket_barrier', 'ewait_socket_barrier', 'esocket_barrier', 'ewaitall')
            if mn == 'ewaitall':
                okk = any(k[0] == 'val' and v == ('eq', 0) for k, v in r['facts'].items())
            elif okk:
                okk = any(k[0] == 'val' and v == ('eq', 1) and 'num_cores' in fields(k[1]) for k, v in r['facts'].items())
            c.ob(okk, 'emit:%s:dropped' % mn, '%s: schedule line %s is dropped without generating code' % (EMIT, mn))
    # ---- sizing pass
    for r in em.real:
        for d in em.dry:
            if compatible(r['facts'], d['facts']) and r['mnem'] == d['mnem']:
                c.count('sizing_pairs')
                c.ob(r['end'] == d['end'], 'dry:%s' % name.get(r['mnem'], 'line'),
                     'sizing pass advances %d bytes where the emission pass writes %d (line kind %s)' % (
                         d['end'], r['end'], name.get(r['mnem'])))
    for d in em.dry:
        if d['trace']:
            c.violation('dry:store', '%s: the sizing pass writes code' % em.fn.where(d['trace'][0][3]))
    # ---- semantic action of the executors
    actions(c, ins, outer, results, em, name)
    # ---- siblings
    for n, I in ins.items():
        for fi, f in enumerate(I.fetch):
            if n == 'ext_mpi_exec_native' and fi == fo:
                continue
            ops = I.opcodes(f)
            for o in sorted(emitted):
                if o not in gram:
                    continue
                g, ln = gram[o]
                if fi != outer[n] and o not in ops:
                    continue      # nested group reader: only REDUCE/ATTACHED are legal inside a group
                res = results.get((n, fi, o))
                if res is None:
                    c.violation('%s:%d:unhandled' % (n, o), '%s has no case for instruction %d which the generator emits' % (n, o))
                    continue
                live = [x for x in res if x['kind'] not in ('exit', 'unreachable')]
                if o == 0:
                    c.ob(live and all(x['kind'] == 'ret' for x in live), '%s:return' % n, '%s does not stop at the return instruction' % n)
                    continue
                if not live:
                    c.ob(o == 14, '%s:%d:refused' % (n, o), '%s refuses instruction %d' % (n, o))
                    continue
                for x in live:
                    if x['kind'] == 'ret' and fi != outer[n]:
                        continue
                    c.ob(x['kind'] == 'next' and x['next'] == ln, '%s:%d:len' % (n, o),
                         '%s: %s advances %s bytes over instruction %d, which has %d' % (I.fn.where(f), n, x['next'], o, ln))
                    for t in x['trace']:
                        if t[0] == 'ld' and t[1] < ln:
                            c.ob(emitted_kind(em, o, t[1]) == t[2], '%s:%d:+%d' % (n, o, t[1]),
                                 '%s: %s reads operand +%d of instruction %d as %s, the generator writes %s' % (
                                     I.fn.where(t[4]), n, t[1], o, t[2], emitted_kind(em, o, t[1])))
                        if t[0] == 'st' and 0 <= t[1] < ln:
                            c.ob(emitted_kind(em, o, t[1]) == t[2], '%s:%d:st+%d' % (n, o, t[1]),
                                 '%s: %s rewrites bytes +%d of instruction %d as %s' % (I.fn.where(t[4]), n, t[1], o, t[2]))
                        elif t[0] == 'st' and t[1] >= ln:
                            c.violation('%s:%d:st' % (n, o), '%s: %s writes past instruction %d' % (I.fn.where(t[4]), n, o))
    # only RETURN leaves (blocking interpreters)
    for n in INTERP[1:]:
        for (nn, fi, o), res in results.items():
            if nn == n and o != 0 and fi == outer[n]:
                c.ob(not any(x['kind'] == 'ret' for x in res), '%s:%d:leaves' % (n, o), '%s leaves the program at instruction %d' % (n, o))
    trailer(c, em)
    c.need('emission_paths', 100)
    c.need('operand_roles', 100)
    c.need('interpreter_cases', 30)
    c.need('sizing_pairs', 100)


_ek = {}


def emitted_kind(em, o, off):
    if (id(em), o) not in _ek:
        d = {}
        for r in em.real:
            st = sorted((x[0], x[1], x[2]) for x in r['trace'])
            if st and is_c(st[0][2]) and st[0][2][1] == o:
                for x in st:
                    d[x[0]] = x[1]
        _ek[(id(em), o)] = d
    return _ek[(id(em), o)].get(off)


def check_role(role, v, r, em, name):
    """None if the emitted operand v plays `role`"""
    P = em.par
    f = r['facts']
    if role in ('arg1', 'arg2'):
        k = int(role[3])
        return None if v == atom(('line', k, 'd')) else 'is %s, not number %d of the line' % (show(v), k)
    if role == 'reqs':
        fs = fields(v)
        return None if fs == {'locmem'} or v == P.get('locmem') else 'is %s, not the request array' % show(v)
    if role == 'req':
        # locmem + size_request * tag
        fs = fields(v)
        lin = aslin(v)
        par = {x[2] for x in subterms(v) if isinstance(x, tuple) and x[:1] == ('param',) and len(x) == 3}
        if ('locmem' in fs or 'locmem' in par) and 'tag' in fs and 'size_request' in par and not (fs - {'locmem', 'tag'}) \
                and lin[1] == 0 and len(lin[2]) == 2 and all(k == 1 for _, k in lin[2]):
            return None
        return 'is %s, not request array + request size * slot' % show(v)
    if role == 'size0':
        s = single(v)
        return None if s and s[0] == 'ld' and s[1] and s[1][1] == 'size' else 'is %s, not the size of the line' % show(v)
    if role == 'partner':
        s = single(v)
        if s and s[0] == 'ld':
            a = aslin(s[2])
            ks = [(t, k) for t, k in a[2]]
            base = [t for t, k in ks if t[0] == 'param']
            idx = [(t, k) for t, k in ks if t[0] == 'ld']
            if len(ks) == 2 and base and base[0][2] == 'global_ranks' and idx and idx[0][1] == 4 and idx[0][0][1] and idx[0][0][1][1] == 'partner' and a[1] == 0:
                return None
        return 'is %s, not the global rank of the partner' % show(v)
    if role == 'op':
        return None if v == P['reduction_op'] else 'is %s, not the reduction operation' % show(v)
    if role == 'count':
        ro = f.get(('val', P['reduction_op']))
        s = single(v)
        if s and s[0] == 'sdiv':
            num = single(s[1])
            if not (num and num[0] == 'ld' and num[1] and num[1][1] == 'size' and is_c(s[2])):
                return 'is %s' % show(v)
            d = s[2][1]
        elif s and s[0] == 'ld' and s[1] and s[1][1] == 'size':
            d = 1
        else:
            return 'is %s, not size / element size' % show(v)
        if ro and ro[0] == 'eq':
            want = OPSIZE.get(ro[1], 1)
            return None if d == want else 'divides the byte size by %d for reduction operation %d (element size %d)' % (d, ro[1], want)
        if ro and ro[0] == 'ne':
            miss = [k for k, z in OPSIZE.items() if z != d and k not in ro[1]]
            return None if not miss else 'byte size divided by %d for reduction operations %s' % (d, miss)
        return None if d == 1 else 'element size %d used for every operation' % d
    if role.startswith('addr'):
        suf = {'addr0': '', 'addr1': '1', 'addr2': '2'}[role]
        lin = aslin(v)
        off = [t for t, k in lin[2] if t[0] == 'ld' and t[1] and t[1][1].startswith('offset')]
        if len(off) != 1 or off[0][1][1] != 'offset' + suf or lin[1] != 0:
            return 'is %s, offset is not offset%s of the line' % (show(v), suf)
        rest = [(t, k) for t, k in lin[2] if t is not off[0] and t != off[0]]
        # buffer type known on this path
        bt = None
        for k, val in f.items():
            if k[0] == 'val':
                s = single(k[1])
                if s and s[0] == 'ld' and s[1] and s[1][1] == 'buffer_type' + suf:
                    bt = val
        if bt is None:
            return 'buffer kind of the line is not consulted'
        kind = name.get(bt[1]) if bt[0] == 'eq' else 'other'
        if kind not in ('esendbufp', 'erecvbufp'):
            kind = 'other'
        if kind == 'other' and bt[0] == 'ne':
            nm = {name.get(x) for x in bt[1]}
            if not {'esendbufp', 'erecvbufp'} <= nm:
                return 'send or receive buffer addressed as shared memory'
        if kind == 'esendbufp':
            return None if rest == [(single(P['sendbuf']), 1)] else 'send-buffer line resolved to %s' % show(v)
        if kind == 'erecvbufp':
            return None if rest == [(single(P['recvbuf']), 1)] else 'receive-buffer line resolved to %s' % show(v)
        if not rest:
            z = f.get(('val', P['shmem']))
            return None if z == ('eq', 0) else 'shared memory line resolved to a bare offset although shared memory exists'
        if len(rest) == 1 and rest[0][1] == 1 and rest[0][0][0] == 'ld':
            a = aslin(rest[0][0][2])
            names = {t[2] if t[0] == 'param' else (t[1][1] if t[0] == 'ld' and t[1] else '?') for t, k in a[2]}
            scale_ok = all(k == 8 for t, k in a[2] if t[0] == 'ld')
            if names == {'shmem', 'buffer_number' + suf} and a[1] == 0 and scale_ok:
                return None
        return 'shared-memory line resolved to %s' % show(v)
    return 'unknown role'


def actions(c, ins, outer, results, em, name):
    """what executors do with the operands"""
    # opcode number of each mnemonic as emitted
    opof = {}
    for r in em.real:
        if r['trace'] and r['mnem'] is not None:
            st = sorted((x[0], x[1], x[2]) for x in r['trace'])
            opof.setdefault(name.get(r['mnem']), set()).add(cval(st[0][2]))
    for k, v in opof.items():
        if len(v) != 1:
            c.violation('emit:%s:opcode' % k, 'line kind %s is emitted under several instruction codes %s' % (k, v))
    op = {k: next(iter(v)) for k, v in opof.items()}
    for n in ('ext_mpi_exec_native', 'ext_mpi_exec_blocking'):
        I = ins[n]
        fi = outer[n]

        def paths(mn):
            return [x for x in results.get((n, fi, op.get(mn)), []) if x['kind'] == 'next']

        def operand(x, d):
            for t in x['trace']:
                if t[0] == 'ld' and t[1] == d:
                    return t[3]
            return None

        def uses(e, x, d, exact):
            o = operand(x, d)
            if o is None:
                return False
            if exact:
                return e == o
            so = single(o)
            return any(y == so for y in subterms(e))
        native = n == 'ext_mpi_exec_native'
        for mn, api in (('eirecv', ('MPI_Irecv', 'PMPI_Irecv')), ('eisend', ('MPI_Isend', 'PMPI_Isend'))):
            for x in paths(mn):
                calls = [t for t in x['trace'] if t[0] == 'call' and t[1].lstrip('P') in ('MPI_Irecv', 'MPI_Isend', 'MPI_Recv', 'MPI_Send', 'MPI_Ssend', 'MPI_Issend')]
                ok = len(calls) == 1 and calls[0][1] in api
                c.ob(ok, '%s:%s:call' % (n, mn), '%s: instruction for %s does not perform exactly one %s' % (n, mn, api[0]))
                if not ok:
                    continue
                a = calls[0][2]
                w = I.fn.where(calls[0][3])
                c.ob(uses(a[0], x, 1, native) and (native or not any(uses(a[0], x, d, False) for d in (13, 17))), '%s:%s:buf' % (n, mn), '%s: buffer argument is %s, not the address operand' % (w, show(a[0])))
                # a truncated size in blocking mode may be recomputed from the buffer end
                c.ob(uses(a[1], x, 9, native) or (not native and (is_c(a[1]) or uses(a[1], x, 1, False))), '%s:%s:count' % (n, mn), '%s: count argument is %s, not the size operand' % (w, show(a[1])))
                c.ob(a[2] in (atom(('glob', 'ompi_mpi_char')), atom(('glob', 'ompi_mpi_byte'))), '%s:%s:type' % (n, mn), '%s: element type is not a byte' % w)
                c.ob(uses(a[3], x, 13, True), '%s:%s:peer' % (n, mn), '%s: peer argument is %s, not the partner operand' % (w, show(a[3])))
                c.ob(uses(a[6], x, 17, True), '%s:%s:req' % (n, mn), '%s: request argument is %s, not the request operand' % (w, show(a[6])))
                if native:
                    c.ob(fields(a[4]) == {'tag'}, '%s:%s:tag' % (n, mn), '%s: tag is %s' % (w, show(a[4])))
                    c.ob(show(a[5]).endswith('@ext_mpi_COMM_WORLD_dup)'), '%s:%s:comm' % (n, mn), '%s: communicator is %s' % (w, show(a[5])))
                else:
                    c.ob(a[4] == atom(('param', 2, I.fn.params[2][1])), '%s:%s:tag' % (n, mn), '%s: tag is %s' % (w, show(a[4])))
                    c.ob(a[5] == atom(('param', 1, I.fn.params[1][1])), '%s:%s:comm' % (n, mn), '%s: communicator is %s' % (w, show(a[5])))
                c.count('executor_actions')
        for mn in ('ememcpy',):
            for x in paths(mn):
                calls = [t for t in x['trace'] if t[0] == 'call' and ('memcpy' in t[1] or 'memmove' in t[1])]
                ok = len(calls) == 1
                c.ob(ok, '%s:memcpy:call' % n, '%s: copy instruction performs %d copies' % (n, len(calls)))
                if not ok:
                    continue
                a = calls[0][2]
                w = I.fn.where(calls[0][3])
                c.ob(uses(a[0], x, 1, native) and not uses(a[0], x, 9, False), '%s:memcpy:dst' % n, '%s: copy destination is %s, not the first address operand' % (w, show(a[0])))
                c.ob(uses(a[1], x, 9, native) and not uses(a[1], x, 1, False), '%s:memcpy:src' % n, '%s: copy source is %s, not the second address operand' % (w, show(a[1])))
                c.ob(uses(a[2], x, 17, native) or (not native and (is_c(a[2]) or uses(a[2], x, 1, False) or uses(a[2], x, 9, False))), '%s:memcpy:len' % n, '%s: copy length is %s' % (w, show(a[2])))
                c.count('executor_actions')
        for x in paths('ewaitall'):
            calls = [t for t in x['trace'] if t[0] == 'call' and t[1].lstrip('P') in ('MPI_Waitall', 'MPI_Testall')]
            c.ob(bool(calls) and calls[-1][1].lstrip('P') == 'MPI_Waitall' or any(t[1].lstrip('P') == 'MPI_Testall' for t in calls),
                 '%s:waitall:call' % n, '%s: wait instruction completes no requests' % n)
            for t in calls:
                w = I.fn.where(t[3])
                c.ob(uses(t[2][0], x, 1, True) and uses(t[2][1], x, 5, True), '%s:waitall:args' % n,
                     '%s: wait is over %s requests at %s, not the operands' % (w, show(t[2][0]), show(t[2][1])))
                c.count('executor_actions')
    c.need('executor_actions', 10)


def trailer(c, em):
    fn = em.fn
    for dry in (False, True):
        cond0 = mkcmp('eq', em.co, C(0))

        def assume(x):
            return dry if x == cond0 else None

        def visit(ins, p, W):
            if ins.op == 'store' and em.mod.tbaa_field(ins) and em.mod.tbaa_field(ins)[1] == 'size_to_return':
                p.trace.append(('size', W.val(ins.ops[0], p), ins))
            if ins.op == 'call' and isinstance(ins.extra, str) and ins.extra.startswith('llvm.mem'):
                p.trace.append(('mem', ins.extra.split('.')[1], [W.val(o, p) for o in ins.ops], ins))
        W = Walker(fn, visit, assume)
        # start at the loop exits, instruction pointer symbolic
        exits = {(b, s) for b in em.body for s in b.succ if s not in em.body}
        ip = atom(em.ipatom)
        P = em.par
        for b, s in exits:
            p = Path()
            W._phis(s, b, p)
            p.env.setdefault(em.ip, ip)
            W.run(s, 0, p)
        for r, p, last in W.done:
            if r != 'ret':
                continue
            c.count('trailer_paths')
            sz = [t for t in p.trace if t[0] == 'size']
            c.ob(len(sz) == 1 and sz[0][1] == add(ip, em.co, -1) or (dry and sz and sz[0][1] in (ip, add(ip, em.co, -1))), 'trailer:size_to_return',
                 '%s: recorded code length is %s' % (fn.where(sz[0][2]) if sz else fn.name, show(sz[0][1]) if sz else 'missing'))
            rv = W.val(last.ops[0], p)
            want = add(add(ip, scale(P['size_comm'], 2)), em.co, -1)
            c.ob(rv == want or (dry and rv == add(ip, scale(P['size_comm'], 2))), 'trailer:length',
                 '%s: returned length is %s' % (fn.where(last), show(rv)))
            if not dry:
                mems = [t for t in p.trace if t[0] == 'mem']
                for off, who in ((ip, 'comm_row'), (add(ip, P['size_comm']), 'comm_column')):
                    hit = [t for t in mems if t[2][0] == off]
                    ok = len(hit) == 1 and hit[0][2][2] == P['size_comm'] and (hit[0][1] == 'memset' or hit[0][2][1] == P[who])
                    c.ob(ok, 'trailer:' + who, '%s: %s is not stored at its trailer slot' % (fn.where(last), who))
            else:
                c.ob(not [t for t in p.trace if t[0] == 'mem'], 'trailer:dry', 'sizing pass writes the trailer')
    c.need('trailer_paths', 2)
    # readers of the trailer: row at +0, column at +sizeof(MPI_Comm)
    for src in ('src/mpi/ext_mpi_native.c', 'src/mpi/shmem.c'):
        m = driver.compile_one(src)
        for f in m.fns.values():
            sem = Sem(f)
            for i in f.instrs():
                if i.op == 'load' and i.ty == 'ptr':
                    a = aslin(sem.val(i.ops[0]))
                    st = [t for t, k in a[2] if t[0] == 'ld' and t[1] and t[1][1] == 'size_to_return']
                    if st:
                        c.fn(f.name)
                        c.count('trailer_reads')
                        c.ob(a[1] in (0, 8), 'trailer:read:%s' % f.name, '%s: trailer read at offset %d after the code' % (f.where(i), a[1]))
                        hb = base_of(st[0][2])
                        others = ('lin', 0, tuple((t, k) for t, k in a[2] if t != st[0]))
                        c.ob(others == ('lin', 0, aslin(st[0][2])[2]), 'trailer:read-base:%s' % f.name, '%s: trailer of one program located with the length of another' % f.where(i))
                        nm = [x.lower() for x in m.varnames(f, i.res)]
                        slot = 'column' if any('col' in x for x in nm) else ('row' if any('row' in x for x in nm) else None)
                        if slot:
                            c.ob((slot == 'column') == (a[1] == 8), 'trailer:slot:%s' % f.name, '%s: %s communicator read from the wrong trailer slot' % (f.where(i), slot))
    c.need('trailer_reads', 4)


if __name__ == '__main__':
    driver.run(main, 'P01', RULE)
