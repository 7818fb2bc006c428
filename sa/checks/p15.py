"""P15 settings of the user are found, shared with all ranks and used."""
import sys
import os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
import re  # noqa: E402
import driver  # noqa: E402
from driver import AnalysisError  # noqa: E402
from irlib import *  # noqa: E402
from aint import Interp, State, Lost  # noqa: E402

RULE = ('Abstract interpretation over LLVM IR with the environment and the info object as cases: every documented variable sets its own setting to the value given '
        'and no other one; every setting is handed from rank 0 to all other ranks; a setting goes before the info entry of the same name, the entry before the default; '
        'every collective asks for each setting under its own name and passes it to the planner in its role; the ports come from the first source that has them; '
        'the self-check runs exactly if asked for, with the arguments of the caller, and the lists are freed once.')

F = 'src/mpi/ext_mpi.c'
NP = 'src/mpi/num_ports_factors.c'
NAT = 'src/mpi/ext_mpi_native.c'
isp = lambda x: isinstance(x, tuple) and x[0] == 'p'


def variables():
    """the variables of the README"""
    p = os.path.join(driver.REPO, 'README.md')
    t = open(p, errors='replace').read() if os.path.exists(p) else ''
    v = sorted(set(re.findall(r'^\|\s*(EXT_MPI_[A-Z_]+)\s*\|', t, re.M)))
    return v or ['EXT_MPI_ALTERNATING', 'EXT_MPI_COPYIN', 'EXT_MPI_DEBUG', 'EXT_MPI_NOT_RECURSIVE', 'EXT_MPI_NUM_PORTS', 'EXT_MPI_NUM_SOCKETS_PER_NODE',
                 'EXT_MPI_NUM_TASKS_PER_SOCKET', 'EXT_MPI_VERBOSE']


def plain(ty):
    return 4 if ty == 'i32' else 8 if ty == 'ptr' else None


def glob_init(m, s):
    """the global variables of the file with their initial values: {name: value}"""
    g = {}
    for n, t in m.globs.items():
        r = re.search(r'\bglobal (i32|ptr) (-?\d+|null|zeroinitializer)', t)
        if r:
            v = int(r.group(2)) if re.match(r'-?\d', r.group(2)) else 0
            g[n] = v
            s.put(('p', '@' + n, 0), v, 4 if r.group(1) == 'i32' else 8)
            s.size['@' + n] = 4 if r.group(1) == 'i32' else 8
    return g


def put_list(s, p, vs):
    for j, v in enumerate(vs):
        s.put(('p', p[1], p[2] + 4 * j), v, 4)


def get_list(s, p, n=20):
    out = []
    if not isp(p):
        return None
    for j in range(n):
        v = s.get(('p', p[1], p[2] + 4 * j), 4)
        out.append(v)
        if v == 0:
            break
    return out


PORTS, GROUPS, METHOD, FACTORS = [-1, -1, -1, -1, 1, 1, 1, 1, 0], [16, 16, 16, -16, 16, 16, 16, -16, 0], 5, [2, 3, 0]
RANKS = 16
WIDTH = {'@ompi_mpi_int': 4, '@ompi_mpi_integer': 4, '@ompi_mpi_unsigned': 4, '@ompi_mpi_float': 4, '@ompi_mpi_long': 8, '@ompi_mpi_double': 8, '@ompi_mpi_aint': 8,
         '@ompi_mpi_long_long_int': 8, '@ompi_mpi_int32_t': 4, '@ompi_mpi_char': 1, '@ompi_mpi_byte': 1}


# ------------------------------------------------------------------ the environment
class Rank:
    """one rank in EXT_MPI_Init; rank 0 records what it sends, the others take it from there"""

    def __init__(self, c, m, rank, name, value, log):
        self.c, self.m, self.rank, self.name, self.value, self.log = c, m, rank, name, value, log
        self.calls = {n: getattr(self, n.replace('__isoc99_', '').replace('__isoc23_', '').replace('P', '', 1) if n.startswith('PMPI') else
                                 n.replace('__isoc99_', '').replace('__isoc23_', ''))
                      for n in ('MPI_Comm_rank', 'MPI_Comm_size', 'PMPI_Comm_rank', 'PMPI_Comm_size', 'getenv', 'secure_getenv', 'sscanf', '__isoc99_sscanf', '__isoc23_sscanf',
                                'atoi', 'strtol', '__isoc23_strtol', 'MPI_Bcast', 'PMPI_Bcast', 'ext_mpi_scan_ports_groups', 'ext_mpi_scan_copyin')}

    def everybody(self, comm, ins):
        self.c.ob(not isp(comm) or comm[1] == '@ompi_mpi_comm_world', 'env:comm', '%s:%d: %s shares the settings in a communicator without all ranks' % (F, ins.line, ins.fn.name))

    def MPI_Comm_rank(self, I, ins, a, s):
        self.everybody(a[0], ins)
        s.put(a[1], self.rank, 4)
        return 0

    def MPI_Comm_size(self, I, ins, a, s):
        self.everybody(a[0], ins)
        s.put(a[1], RANKS, 4)
        return 0

    def getenv(self, I, ins, a, s):
        n = I.text(a[0], s)
        if n is None:
            raise Lost('%s: unknown name of an environment variable' % ins.fn.name)
        n = n.split('\0')[0]
        self.log.setdefault('asked', set()).add(n)
        if n != self.name:
            return 0
        s.mem[('env', 0)] = (ord(str(self.value)) if isinstance(self.value, int) else ord('7'), 0, 1)
        s.mem[('env', 1)] = (0, 0, 1)
        return ('p', 'env', 0)

    secure_getenv = getenv

    def num(self, a, s):
        return self.value if a == ('p', 'env', 0) else None

    def sscanf(self, I, ins, a, s):
        t = I.text(a[1], s)
        if a[0] == ('p', 'env', 0) and t and t.strip('\0 ') in ('%d', '%i') and isp(a[2]):
            s.put(a[2], self.value, 4)
            return 1
        return None

    def atoi(self, I, ins, a, s):
        return self.num(a[0], s)

    def strtol(self, I, ins, a, s):
        return self.num(a[0], s)

    def ext_mpi_scan_ports_groups(self, I, ins, a, s):
        if a[0] == ('p', 'env', 0):
            p, g = s.new('ports', 4 * len(PORTS)), s.new('groups', 4 * len(GROUPS))
            put_list(s, p, PORTS)
            put_list(s, g, GROUPS)
            s.put(a[1], p, 8)
            s.put(a[2], g, 8)
        return 0

    def ext_mpi_scan_copyin(self, I, ins, a, s):
        if a[0] == ('p', 'env', 0):
            p = s.new('factors', 12)
            put_list(s, p, FACTORS)
            s.put(a[1], METHOD, 4)
            s.put(a[2], p, 8)
        return 0

    def MPI_Bcast(self, I, ins, a, s):
        k = sum(1 for e in s.ev if e[0] == 'bcast')
        n = a[1]
        w = '%s:%d in %s' % (F, ins.line, ins.fn.name)
        if not isp(a[0]) or not isinstance(n, int):
            raise Lost('%s: a broadcast of unknown extent' % w)
        self.everybody(a[4], ins)
        self.c.ob(a[3] == 0, 'env:root', '%s: the broadcast starts at another rank than the one which read the environment' % w)
        z = n * WIDTH.get(a[2][1] if isp(a[2]) else None, 4)
        s.inside(ins, a[0], z, 'broadcast')
        if self.rank == 0:
            cont = [s.get(('p', a[0][1], a[0][2] + 4 * j), 4) for j in range(z // 4)]
            s.ev.append(('bcast', (z, a[3], a[4], cont), ins))
        else:
            sent = self.log['sent']
            s.ev.append(('bcast', (z, a[3], a[4], None), ins))
            if k < len(sent):
                self.c.ob(sent[k][:3] == (z, a[3], a[4]), 'env:bcast', '%s: the broadcast does not fit the one of rank 0' % w)
                for j, v in enumerate(sent[k][3]):
                    if 4 * j >= z:
                        break
                    q = ('p', a[0][1], a[0][2] + 4 * j)
                    if v is None:
                        for b in range(4):
                            s.mem.pop((q[1], q[2] + b), None)
                    else:
                        s.put(q, v, 4)
        return 0


def lists_of(s, g):
    """the settings, lists followed"""
    out = {}
    for n in g:
        z = s.size['@' + n]
        v = s.get(('p', '@' + n, 0), z)
        out[n] = tuple(get_list(s, v)) if isp(v) else v
    return out


def environment(c, m):
    fn = m.fns.get('EXT_MPI_Init')
    if fn is None:
        raise AnalysisError('EXT_MPI_Init is gone')
    c.fn('EXT_MPI_Init')
    owner = {}

    def run(name, value):
        log = {}
        R = Rank(c, m, 0, name, value, log)
        s0 = State()
        g = glob_init(m, s0)
        res = Interp(m, R.calls).run(fn, [], s0)
        outs = []
        for r, s in res:
            log['sent'] = [e[1] for e in s.ev if e[0] == 'bcast']
            R1 = Rank(c, m, 1, name, ('other',), log)
            s1 = State()
            glob_init(m, s1)
            for r1, t in Interp(m, R1.calls).run(fn, [], s1):
                nb = sum(1 for e in t.ev if e[0] == 'bcast')
                d = 'with %s set' % name if name else 'with an empty environment'
                c.ob(nb == len(log['sent']), 'env:step', 'EXT_MPI_Init: rank 0 takes part in %d broadcasts, other ranks in %d (%s)' % (len(log['sent']), nb, d))
                a, b = lists_of(s, g), lists_of(t, g)
                for n in g:
                    c.ob(a[n] == b[n], 'env:shared:' + n, 'EXT_MPI_Init: rank 0 and the other ranks have different %s (%s)' % (n, d))
                for i, x in t.bad:
                    c.ob(False, 'env:bounds', '%s:%d: %s' % (F, i.line, x))
            for i, x in s.bad:
                c.ob(False, 'env:bounds', '%s:%d: %s' % (F, i.line, x))
            outs.append(lists_of(s, g))
        c.count('environments')
        return g, outs, log

    g, base, log = run(None, 1)
    ini = {n: v for n, v in g.items()}
    for o in base:
        for n in g:
            if n != 'is_initialised' and n.startswith('ext_mpi'):
                c.ob(o[n] == ini[n], 'env:default:' + n, 'EXT_MPI_Init: %s is changed although no variable is set' % n)
    asked = log.get('asked', set())
    for v in variables():
        if not c.ob(v in asked, 'env:asked:' + v, 'EXT_MPI_Init: the variable %s of the README is not looked at' % v):
            continue
        for val in (0, 1, ('value', v)):
            g, outs, log = run(v, val)
            for o in outs:
                ch = {n: o[n] for n in g if n.startswith('ext_mpi') and o[n] != base[0][n]}
                if v == 'EXT_MPI_NUM_PORTS':
                    want = {'ext_mpi_fixed_factors_ports': tuple(PORTS), 'ext_mpi_fixed_factors_groups': tuple(GROUPS)}
                elif v == 'EXT_MPI_COPYIN':
                    want = {'ext_mpi_copyin_method': METHOD, 'ext_mpi_copyin_factors': tuple(FACTORS)}
                else:
                    n = v.lower()
                    if n not in g:
                        # the setting has another name: the one that changes
                        n = next((x for x in ch if x not in owner.values() or owner.get(v) == x), None) or owner.get(v)
                    if not isinstance(val, int) and n in ch and isinstance(ch[n], int):
                        # any value counts as one of a few
                        want = {n: ch[n]}
                    elif not isinstance(val, int) and n not in ch and v == 'EXT_MPI_ALTERNATING':
                        want = {}
                    else:
                        want = {n: val} if base[0].get(n) != val else {}
                for n in set(want) | set(ch):
                    c.ob(n in want, 'env:other:' + v, 'EXT_MPI_Init: %s changes %s' % (v, n))
                    c.ob(n in ch and n in want and ch[n] == want[n] or n not in want, 'env:value:' + v,
                         'EXT_MPI_Init: %s=%s sets %s to %s' % (v, val if isinstance(val, int) else '<value>', n, o.get(n)))
                    if n in want:
                        owner[v] = n
            c.count('settings')
    key = {n: v.lower() for v, n in owner.items() if v not in ('EXT_MPI_NUM_PORTS', 'EXT_MPI_COPYIN')}
    return g, key


# ------------------------------------------------------------------ info and defaults
def info_models(c, flag, seen, conv=None):
    def get(I, ins, a, s):
        seen.append((a[0], I.text(a[1], s) if isp(a[1]) and a[1][1][0] == '@' else a[1]))
        if flag:
            s.ev.append(('value', a[3], ins))
        for q in a[4:5]:
            s.put(q, flag, 4)
        return 0

    def number(I, ins, a, s):
        if any(e[0] == 'value' and e[1] == a[0] for e in s.ev) and isp(a[2]):
            s.put(a[2], ('info',), 4)
            return 1
        return None

    def atoi(I, ins, a, s):
        return ('info',) if any(e[0] == 'value' and e[1] == a[0] for e in s.ev) else None
    d = {'MPI_Info_get': get, 'PMPI_Info_get': get, 'atoi': atoi, 'strtol': atoi, '__isoc23_strtol': atoi}
    for n in ('sscanf', '__isoc99_sscanf', '__isoc23_sscanf'):
        d[n] = number

    def scan_ports(I, ins, a, s):
        ok = any(e[0] == 'value' and e[1] == a[0] for e in s.ev)
        p, g = s.new('ports', 4 * len(PORTS)), s.new('groups', 4 * len(GROUPS))
        if ok:
            put_list(s, p, PORTS)
            put_list(s, g, GROUPS)
        s.put(a[1], p, 8)
        s.put(a[2], g, 8)
        return 0

    def scan_copyin(I, ins, a, s):
        ok = any(e[0] == 'value' and e[1] == a[0] for e in s.ev)
        p = s.new('factors', 12)
        if ok:
            put_list(s, p, FACTORS)
            s.put(a[1], METHOD, 4)
        s.put(a[2], p, 8)
        return 0
    d['ext_mpi_scan_ports_groups'] = scan_ports
    d['ext_mpi_scan_copyin'] = scan_copyin
    return d


def sources(c):
    m = driver.compile_one(NP, tag='p15')
    names = ('ext_mpi_get_param', 'ext_mpi_copyin_info', 'ext_mpi_num_ports_factors_info', 'ext_mpi_num_ports_factors_env')
    for n in names:
        if n not in m.fns:
            raise AnalysisError('%s is gone' % n)
        c.fn(n)
    null = info_null(m)
    # one number
    fn = m.fns['ext_mpi_get_param']
    for own in (-1, 0, 1, 7):
        for info in (null, ('p', 'info', 0)):
            for flag in (0, 1):
                seen = []
                res = Interp(m, info_models(c, flag, seen)).run(fn, [own, ('c', 'comm'), info, ('k', 'name'), ('d', 'default')], State())
                want = own if own >= 0 else ('info',) if info != null and flag else ('d', 'default')
                for r, s in res:
                    c.ob(r == want, 'param:order', 'ext_mpi_get_param: own setting %s, %s: the result is %s instead of %s' % (
                        own, 'no info' if info == null else 'entry in info' if flag else 'info without entry', r, want))
                for i, k in seen:
                    c.ob(i == info and k == ('k', 'name') and info != null, 'param:key', 'ext_mpi_get_param: another info entry than the one named is used')
                c.count('sources')
    # the lists
    for n, key, outs in (('ext_mpi_copyin_info', 'ext_mpi_copyin', (METHOD, FACTORS)), ('ext_mpi_num_ports_factors_info', 'ext_mpi_num_ports', (PORTS, GROUPS))):
        fn = m.fns[n]
        for info in (null, ('p', 'info', 0)):
            for flag in (0, 1):
                seen = []
                s0 = State()
                s0.size['X'] = s0.size['Y'] = 8
                for r, s in Interp(m, info_models(c, flag, seen)).run(fn, [('c', 'comm'), info, ('p', 'X', 0), ('p', 'Y', 0)], s0):
                    have = info != null and flag
                    c.ob(isinstance(r, int) and (r >= 0) == bool(have), 'info:found:' + n, '%s: says %s although the info %s an entry' % (n, r, 'has' if have else 'has not'))
                    if have:
                        x = s.get(('p', 'X', 0), 8)
                        x = get_list(s, x) if isp(x) else s.get(('p', 'X', 0), 4)
                        y = get_list(s, s.get(('p', 'Y', 0), 8))
                        c.ob((x, y) == outs, 'info:value:' + n, '%s: the entry is not delivered' % n)
                for i, k in seen:
                    c.ob(i == info and k == key, 'info:key:' + n, '%s: asks for %s instead of %s' % (n, k, key))
                c.count('sources')
    fn = m.fns['ext_mpi_num_ports_factors_env']
    for ports, groups in ((None, None), (PORTS, GROUPS), ([1, 0], [2, 0]), ([-1, 0], [-1, 0]), ([2, 1, 0], [6, -6, 0]), ([-1, -1, 1, 1, 0], [-2, 4, -4, -2, 0])):
        s0 = State()
        for b in 'PGXY':
            s0.size[b] = 4 * len(ports) if ports else 20
        if ports:
            put_list(s0, ('p', 'P', 0), ports + [0] * 4)
            put_list(s0, ('p', 'G', 0), groups + [0] * 4)
            for b in 'XY':
                put_list(s0, ('p', b, 0), [99] * len(ports) + [0] * 4)
        a = [('p', 'P', 0), ('p', 'G', 0)] if ports else [0, 0]
        for r, s in Interp(m, {'abs': lambda I, i, a, s: abs(a[0]) if isinstance(a[0], int) else None}).run(fn, [('c', 'comm')] + a + [('p', 'X', 0), ('p', 'Y', 0)], s0):
            c.ob(r is None or isinstance(r, int) and (r >= 0) == bool(ports), 'env:found', 'ext_mpi_num_ports_factors_env: says %s although the ports are %s' % (r, 'set' if ports else 'not set'))
            if ports and len(ports) > 2 and any(x > 0 for x in ports):
                w = 1
                for x in ports:
                    w *= x + 1 if x > 0 else 1
                c.ob(r == w, 'env:nodes', 'ext_mpi_num_ports_factors_env: the ports %s are taken as those of %s nodes, not of %d' % (ports, r, w))
            if ports:
                c.ob((get_list(s, ('p', 'X', 0)), get_list(s, ('p', 'Y', 0))) == (ports, groups), 'env:ports', 'ext_mpi_num_ports_factors_env: the ports of the user are not delivered')
            for i, x in s.bad:
                c.ob(False, 'env:bounds', '%s:%d: %s' % (NP, i.line, x))
        c.count('sources')


def scanned(I, ins, a, s):
    """sscanf of one number in a text with opaque numbers"""
    t = I.text(a[1], s)
    if not t or t.strip('\0 ') not in ('%d', '%i') or not isp(a[0]) or not isp(a[2]):
        return None
    k = a[0][2]
    while s.get(('p', a[0][1], k), 1) == 32:
        k += 1
    v = s.get(('p', a[0][1], k), 1)
    if isinstance(v, tuple) and v[0] == 'num':
        s.inside(ins, a[2], 4, 'write')
        s.put(a[2], v[1], 4)
        return 1
    return 0


def atoi_scanned(I, ins, a, s):
    if not isp(a[0]):
        return None
    k = a[0][2]
    while s.get(('p', a[0][1], k), 1) == 32:
        k += 1
    v = s.get(('p', a[0][1], k), 1)
    return v[1] if isinstance(v, tuple) and v[0] == 'num' else None


def textforms(c):
    """what is printed is read back"""
    f = 'src/core/ports_groups.c'
    m = driver.compile_one(f, tag='p15')
    mods = {n: scanned for n in ('sscanf', '__isoc99_sscanf', '__isoc23_sscanf')}
    mods.update({n: atoi_scanned for n in ('atoi', 'strtol', '__isoc23_strtol')})

    def run(n, args, s):
        rs = Interp(m, mods).run(m.fns[n], args, s)
        if len(rs) != 1:
            raise Lost('%s: the way of the text is not determined' % n)
        return rs[0]
    for n in ('ext_mpi_print_ports_groups', 'ext_mpi_scan_ports_groups', 'ext_mpi_print_copyin', 'ext_mpi_scan_copyin'):
        if n not in m.fns:
            raise AnalysisError('%s is gone' % n)
        c.fn(n)
    for P, G in (([31, 0], [-4, 0]), ([-31, 32, 0], [4, -4, 0]), ([-31, -32, 33, 34, 0], [4, 4, 4, -4, 0]), ([31, -32, 0], [-2, -4, 0]),
                 ([-31, 32, -33, 34, 35, 0], [2, -2, 4, 4, -4, 0]), ([-1, 0], [-1, 0]), (list(range(31, 43)) + [0], [4] * 11 + [-4, 0])):
        for sep in (32, 44):
            s = State()
            put_list(s, ('p', 'P', 0), P + [0])
            put_list(s, ('p', 'G', 0), G + [0])
            s.size['P'] = s.size['G'] = 4 * len(P)
            r, s = run('ext_mpi_print_ports_groups', [('p', 'P', 0), ('p', 'G', 0)], s)
            cs = Interp(m).chars(r, s)
            if not c.ob(cs is not None, 'text:print', 'ext_mpi_print_ports_groups: the text does not end'):
                continue
            cs = [32] + cs
            t = s.new('text', len(cs) + 1)
            for j, x in enumerate(cs + [0]):
                s.mem[(t[1], j)] = (sep if x == 32 else x, 0, 1)
            s.size['X'] = s.size['Y'] = 8
            _, s = run('ext_mpi_scan_ports_groups', [t, ('p', 'X', 0), ('p', 'Y', 0)], s)
            x, y = (get_list(s, s.get(('p', b, 0), 8)) for b in 'XY')
            c.ob((x, y) == (P, G), 'text:ports',
                 'ext_mpi_print_ports_groups / ext_mpi_scan_ports_groups: the ports %s(%s) are read as %s(%s)' % (P, G, x, y))
            for i, b in s.bad:
                c.ob(False, 'text:bounds', '%s:%d in %s: %s' % (f, i.line, i.fn.name, b))
            c.count('texts')
    for K, L in ((0, [2, 0]), (5, [2, 3, 0]), (1, [6, 1, 2, 7, 0])):
        s = State()
        put_list(s, ('p', 'L', 0), L)
        r, s = run('ext_mpi_print_copyin', [K, ('p', 'L', 0)], s)
        s.size['X'], s.size['Y'] = 4, 8
        _, s = run('ext_mpi_scan_copyin', [r, ('p', 'X', 0), ('p', 'Y', 0)], s)
        x, y = s.get(('p', 'X', 0), 4), get_list(s, s.get(('p', 'Y', 0), 8))
        c.ob((x, y) == (K, L), 'text:copyin', 'ext_mpi_print_copyin / ext_mpi_scan_copyin: %s(%s) is read as %s(%s)' % (K, L, x, y))
        for i, b in s.bad:
            c.ob(False, 'text:bounds', '%s:%d in %s: %s' % (f, i.line, i.fn.name, b))
        c.count('texts')


def info_null(m):
    """MPI_INFO_NULL as the source sees it: the object info is compared with"""
    fn = m.fns['ext_mpi_get_param']
    for ins in fn.instrs():
        if ins.op == 'icmp' and any(o[0] == 'glob' for o in ins.ops):
            return next(('p', '@' + o[1], 0) for o in ins.ops if o[0] == 'glob')
    return ('p', '@ompi_mpi_info_null', 0)


# ------------------------------------------------------------------ the collectives
KINDS = {  # init function: (native function, way of the ports)
    'allgatherv': 'up', 'gatherv': 'up', 'reduce_scatter': 'down', 'scatterv': 'down', 'allreduce': 'both', 'reduce': 'both', 'bcast': 'up'}
LISTS = {'env': ([31, -21, 0], [4, -4, 0]), 'info': ([32, -22, 12, 0], [4, 4, -4, 0]), 'meas': ([33, 0], [-4, 0])}
COPY = {'env': (41, [2, 3, 0]), 'info': (42, [3, 2, 0]), 'meas': (43, [6, 0])}
VALUES = {'ext_mpi_num_tasks_per_socket': 2, 'ext_mpi_alternating': 1011, 'ext_mpi_not_recursive': 1013, 'ext_mpi_bit_identical': 1017,
          'ext_mpi_minimum_computation': 1019}
ROLES = {'alt': 'ext_mpi_alternating', 'not_recursive': 'ext_mpi_not_recursive', 'num_sockets_per_node': 'ext_mpi_num_sockets_per_node',
         'my_cores_per_node_row': 'ext_mpi_num_tasks_per_socket', 'bit': 'ext_mpi_bit_identical'}


class Init:
    def __init__(self, c, m, nat, name, key, src, cps, single, socks, repro, wh, chosen=0):
        self.c, self.m, self.name, self.key, self.src, self.cps, self.single, self.socks, self.repro, self.wh = c, m, name, key, src, cps, single, socks, repro, wh
        self.chosen = chosen

    def copy(self, which):
        return (COPY[which][0] if self.repro else 0, COPY[which][1])

    def lists(self, which):
        if self.single:
            return [-1, 0], [-1, 0]
        return LISTS[which]

    def models(self):
        c = self.c

        def rank(I, ins, a, s):
            s.put(a[1], 1, 4)
            return 0

        def size(I, ins, a, s):
            s.put(a[1], 2 * self.socks if self.single else 8, 4)
            return 0

        def tsize(I, ins, a, s):
            s.put(a[1], 8, 4)
            return 0

        def allreduce(I, ins, a, s):
            if isp(a[1]):
                s.put(a[1], ('common',), 4)
            return 0

        def tasks(I, ins, a, s):
            return ('default', 'tasks')

        def param(I, ins, a, s):
            k = I.text(a[3], s)
            w = '%s:%d in %s' % (F, ins.line, ins.fn.name)
            c.ob(a[1] == ('a', 'comm') and a[2] == ('a', 'info'), 'ask:object', '%s: the info object or the communicator is not the one of the caller' % w)
            g = a[0][1] if isinstance(a[0], tuple) and a[0][0] == 'g' else None
            if c.ob(g is not None, 'ask:own', '%s: %s has no setting of its own' % (w, k)):
                c.ob(self.key.get(g, g) == k, 'ask:name:%s:%s' % (self.name, k), '%s: the setting %s is looked up in info as %s' % (w, g, k))
            if k == 'ext_mpi_num_sockets_per_node':
                c.ob(a[4] == 1, 'ask:default', '%s: the default of %s is not 1' % (w, k))
            if k == 'ext_mpi_not_recursive' and isinstance(a[4], int):
                n = (2 * self.socks if self.single else 8) // VALUES['ext_mpi_num_tasks_per_socket']
                gs = {'env': 2 if self.repro else 0, 'info': 1, 'meas': 2 if self.single else 4}[self.src]
                c.ob((a[4] != 0) == (gs != n), 'ask:recursive', '%s: the plan is %s by default although the ports are those of %d nodes and there are %d (%s)' % (
                    w, 'not recursive' if a[4] else 'recursive', gs, n, self.wh))
            c.count('questions')
            return {'ext_mpi_num_sockets_per_node': self.socks, 'ext_mpi_bit_reproducible': self.repro}.get(k, VALUES.get(k))

        def fill(which, p, g, s, new):
            P, G = self.lists(which)
            if new:
                x, y = s.new('ports', 4 * 12), s.new('groups', 4 * 12)
                s.put(p, x, 8)
                s.put(g, y, 8)
            else:
                x, y = p, g
            put_list(s, x, P)
            put_list(s, y, G)

        def env(I, ins, a, s):
            c.ob(a[1:3] == [('g', 'ext_mpi_fixed_factors_ports'), ('g', 'ext_mpi_fixed_factors_groups')], 'ask:ports', '%s:%d in %s: not the ports of the user' % (F, ins.line, ins.fn.name))
            if self.src != 'env':
                return -1
            fill('env', a[3], a[4], s, False)
            return 2 if self.repro else 0

        def info(I, ins, a, s):
            c.ob(a[1] == ('a', 'info'), 'ask:object', '%s:%d in %s: the info object is not the one of the caller' % (F, ins.line, ins.fn.name))
            if self.src != 'info':
                return -1
            fill('info', a[2], a[3], s, True)
            return 1

        def meas(I, ins, a, s):
            s.ev.append(('measured', a, ins))
            fill('meas', a[6], a[7], s, True)
            return 2 if self.single else 4

        def cinfo(I, ins, a, s):
            c.ob(a[1] == ('a', 'info'), 'ask:object', '%s:%d in %s: the info object is not the one of the caller' % (F, ins.line, ins.fn.name))
            if self.cps != 'info':
                s.put(a[2], -1, 4)
                return -1
            x = s.new('factors', 48)
            put_list(s, x, self.copy('info')[1])
            s.put(a[2], self.copy('info')[0], 4)
            s.put(a[3], x, 8)
            return self.copy('info')[0]

        def cmeas(I, ins, a, s):
            ps = [x for x in a if isp(x) and x[1].startswith('&')]
            # method, factors, sockets
            if len(ps) >= 3:
                x = s.new('factors', 48)
                put_list(s, x, self.copy('meas')[1])
                s.put(ps[-3], self.copy('meas')[0], 4)
                s.put(ps[-2], x, 8)
                if self.chosen:
                    s.put(ps[-1], self.chosen, 4)
            s.ev.append(('copyin measured', a, ins))
            return 0

        def free(I, ins, a, s):
            if isp(a[0]):
                c.ob(a[0][1] not in [e[1] for e in s.ev if e[0] == 'freed'], 'free:twice:' + self.name, '%s: %s:%d frees a list twice (%s)' % (self.name, F, ins.line, self.wh))
                s.ev.append(('freed', a[0][1], ins))
            return None

        def zero(I, ins, a, s):
            return 0
        d = {'ext_mpi_get_param': param, 'ext_mpi_num_ports_factors_env': env, 'ext_mpi_num_ports_factors_info': info, 'ext_mpi_num_ports_factors': meas,
             'ext_mpi_copyin_info': cinfo, 'EXT_MPI_Allreduce_measurement': cmeas, 'free': free, 'ext_mpi_get_num_tasks_per_socket': tasks,
             'ext_mpi_is_rank_zero': zero, 'printf': zero, 'abs': lambda I, i, a, s: abs(a[0]) if isinstance(a[0], int) else None,
             'ext_mpi_print_ports_groups': lambda I, i, a, s: None, 'ext_mpi_print_copyin': lambda I, i, a, s: None}
        for p in ('', 'P'):
            d[p + 'MPI_Comm_rank'], d[p + 'MPI_Comm_size'], d[p + 'MPI_Type_size'], d[p + 'MPI_Allreduce'] = rank, size, tsize, allreduce
        for n in ('ext_mpi_revert_num_ports', 'ext_mpi_set_ports_single_node'):
            d[n] = self.other
        return d

    def other(self, I, ins, a, s):
        """a function on the lists, wherever it is defined"""
        n = ins.extra
        mm = next((x for x in self.mods if n in x.fns and x.fns[n].blocks), None)
        if mm is None:
            raise Lost('%s is gone' % n)
        J = Interp(mm, self.models())
        r, t = J.run(mm.fns[n], a, s.copy())[0]
        s.mem, s.size, s.ev, s.bad, s.n = t.mem, t.size, t.ev, t.bad, t.n
        return r


def covers(p, q, n, back=True):
    """a reduction over n sockets and, where asked for, back: groups closed by a negative entry, every one with the steps that cover it"""
    if not p or not q or len(p) != len(q) or not all(isinstance(x, int) for x in p + q) or p[-1] or q[-1]:
        return False
    tot, i = {1: 1, -1: 1}, 0
    while p[i]:
        w, e, z = 1, abs(q[i]), 1 if p[i] > 0 else -1
        while True:
            if abs(q[i]) != e or p[i] * z <= 0:
                return False
            w *= abs(p[i]) + 1
            i += 1
            if q[i - 1] < 0:
                break
            if not p[i]:
                return False
        if w != e:
            return False
        tot[z] *= w
    return tot[-1] == n and tot[1] == (n if back else 1)


def single_node(c, np):
    n = 'ext_mpi_set_ports_single_node'
    fn = np.fns.get(n)
    if fn is None:
        return
    c.fn(n)
    for socks in range(1, 9):
        for P, G in (([-1, 0], [-1, 0]), ([-1, 1, 0], [-2, -2, 0]), ([3, 0], [-4, 0])):
            s = State()
            p, g = s.new('ports', 64), s.new('groups', 64)
            put_list(s, p, P)
            put_list(s, g, G)
            for r, t in Interp(np, {}).run(fn, [socks, p, g], s):
                a, b = get_list(t, p), get_list(t, g)
                if len(P) == 2 and P[0] == -1 and socks > 1:
                    c.ob(covers(a, b, socks), 'node:cover', '%s: the ports %s(%s) do not cover %d sockets' % (n, a, b, socks))
                else:
                    c.ob((a, b) == (P, G), 'node:keep', '%s: the ports %s(%s) of %d sockets become %s(%s)' % (n, P, G, socks, a, b))
            c.count('nodes')


def collectives(c, m, g, key):
    nat = driver.compile_one(NAT, tag='p15')
    np = driver.compile_one(NP, tag='p15')
    single_node(c, np)
    for k, way in KINDS.items():
        fn = m.fns.get('ext_mpi_%s_init_general' % k)
        if fn is None:
            raise AnalysisError('ext_mpi_%s_init_general is gone' % k)
        c.fn(fn.name)
        nn = 'EXT_MPI_%s_init_native' % k.capitalize()
        pn = [n for _, n in nat.fns[nn].params] if nn in nat.fns else []
        uses = {i.extra for i in fn.instrs() if i.op == 'call'}
        cases = [(src, cps, single, socks, repro, dbg, 0) for src in ('env', 'info', 'meas') for cps in ('env', 'info', 'meas') for single in (0, 1) for socks in (1, 2)
                 for repro in (0, 1) for dbg in (0, 1) if (src == cps or 'ext_mpi_copyin_info' in uses) and (not dbg or src == cps == 'env') and (repro or src == 'env')]
        if 'ext_mpi_copyin_info' in uses:
            # the measurement of the copyin finds another number of sockets
            cases += [(src, 'meas', single, 1, 1, 0, n) for src in ('env', 'info', 'meas') for single in (0, 1) for n in (2, 4)]
        for src, cps, single, socks, repro, dbg, chosen in cases:
            wh = 'ports from %s, %s, %d sockets' % ({'env': 'the environment', 'info': 'info', 'meas': 'measurement'}[src], 'one node' if single else 'several nodes', socks)
            st = State()
            for n, v in g.items():
                z = 4 if '4' in str(m.globs[n].split('align')[-1][:3]) else 8
                st.size['@' + n] = z
                st.put(('p', '@' + n, 0), ('g', n), z)
            st.put(('p', '@ext_mpi_debug', 0), dbg, 4)
            st.put(('p', '@ext_mpi_verbose', 0), 0, 4)
            st.put(('p', '@ext_mpi_blocking', 0), 0, 4)
            st.put(('p', '@ext_mpi_copyin_method', 0), (COPY['env'][0] if repro else 0) if cps == 'env' else -1, 4)
            if cps == 'env':
                st.put(('p', '@ext_mpi_copyin_factors', 0), ('p', 'userfactors', 0), 8)
                put_list(st, ('p', 'userfactors', 0), COPY['env'][1])
            args = []
            for ty, n in fn.params:
                if n == 'handle':
                    args.append(('p', 'handle', 0))
                elif n in ('recvcounts', 'sendcounts', 'displs'):
                    args.append(('p', n, 0))
                else:
                    args.append(('a', n))
            X = Init(c, m, nat, k, key, src, cps, single, socks, repro, wh, chosen)
            X.mods = [m, np]
            mods = X.models()
            snap = []

            def native(I, ins, a, s, X=X):
                s.ev.append(('native', (a, X.seen(s, a)), ins))
                return None

            def debug(I, ins, a, s):
                s.ev.append(('debug', (a, s.get(('p', '@ext_mpi_debug', 0), 4)), ins))
                return 0

            X.seen = lambda s, a: {j: get_list(s, x) for j, x in enumerate(a) if isp(x) and x[1].startswith(('heap', 'ports', 'groups', 'factors', 'userfactors'))}
            for n in {i.extra for i in fn.instrs() if i.op == 'call' and isinstance(i.extra, str)}:
                if n.endswith('_init_native'):
                    mods[n] = native
                if n.endswith('_init_debug'):
                    mods[n] = debug
            for r, s in Interp(m, mods).run(fn, args, st):
                nv = [e for e in s.ev if e[0] == 'native']
                db = [e for e in s.ev if e[0] == 'debug']
                c.ob(len(db) == (1 if dbg else 0), 'check:run:' + k, '%s: the self-check runs %d times with ext_mpi_debug = %d' % (fn.name, len(db), dbg))
                for e in db:
                    c.ob(e[1][1] == 0, 'check:off:' + k, '%s: the operations of the self-check are checked themselves' % fn.name)
                    c.ob(e[1][0] == args, 'check:args:' + k, '%s: the self-check does not get the arguments of the caller' % fn.name)
                c.ob(s.get(('p', '@ext_mpi_debug', 0), 4) == dbg, 'check:restore:' + k, '%s: ext_mpi_debug is not restored after the self-check' % fn.name)
                me = [e for e in s.ev if e[0] == 'measured']
                c.ob(bool(me) == (src == 'meas'), 'ports:source:' + k, '%s: the ports are %smeasured although they %s given (%s)' % (fn.name, '' if me else 'not ', 'are' if src != 'meas' else 'are not', wh))
                for e in me:
                    a = e[1]
                    c.ob(a[5] == VALUES['ext_mpi_minimum_computation'] and a[4] == socks and a[3] == VALUES['ext_mpi_num_tasks_per_socket'], 'ports:shape:' + k,
                         '%s: the ports are chosen for another shape of the nodes (%s)' % (fn.name, wh))
                if not c.ob(len(nv) == 1, 'plan:once:' + k, '%s: the planner is called %d times (%s)' % (fn.name, len(nv), wh)):
                    continue
                a, seen = nv[0][1]
                at = lambda n: pn.index(n) if n in pn and pn.index(n) < len(a) else None
                want = dict(VALUES)
                want['ext_mpi_num_sockets_per_node'] = chosen or socks
                if at('my_cores_per_node_column') is not None:
                    c.ob(a[at('my_cores_per_node_column')] == 1, 'role:%s:column' % k, '%s: the planner gets %s tasks in columns where there are none' % (fn.name, a[at('my_cores_per_node_column')]))
                for role, kk in ROLES.items():
                    j = at(role)
                    if j is not None and role == 'bit' and k == 'reduce':
                        continue
                    if j is not None:
                        c.ob(a[j] == want[kk], 'role:%s:%s' % (k, role), '%s: the planner gets %s as %s, not the setting %s (%s)' % (fn.name, a[j], role, kk, wh))
                        c.count('roles')
                j = at('waitany')
                if j is not None:
                    c.ob(a[j] == 1 - repro, 'role:%s:waitany' % k, '%s: the order of reductions is %s although reproducible results are %s' % (fn.name, 'free' if a[j] else 'fixed', 'asked for' if repro else 'not asked for'))
                P, G = X.lists(src)
                jp, jg = at('num_ports'), at('groups')
                if jp is not None and jg is not None:
                    p, q = seen.get(jp), seen.get(jg)
                    if not single:
                        P2 = [-x for x in reversed(P[:-1])] + [0] if way == 'down' else P
                        c.ob(p == P2 and q == G, 'ports:value:' + k, '%s: the planner gets the ports %s(%s) instead of %s(%s) (%s)' % (fn.name, p, q, P2, G, wh))
                    elif chosen:
                        c.ob(covers(p, q, chosen, way == 'both'), 'ports:sockets:' + k, '%s: the measurement asks for %d sockets, the ports %s(%s) do not cover them (%s)' % (fn.name, chosen, p, q, wh))
                    elif socks == 1 and k != 'scatterv':
                        P2 = [1, 0] if way == 'up' else [-1, 0]
                        c.ob(p == P2 and q == G, 'ports:single:' + k, '%s: on a single node the planner gets the ports %s(%s) instead of %s(%s) (%s)' % (fn.name, p, q, P2, G, wh))
                jc, jf = at('copyin'), at('copyin_factors')
                if 'ext_mpi_copyin_info' in uses and jc is not None and jf is not None:
                    c.ob(a[jc] == X.copy(cps)[0] and seen.get(jf) == COPY[cps][1], 'copyin:value:' + k, '%s: the planner gets the copyin method %s(%s), not the one from %s' % (
                        fn.name, a[jc], seen.get(jf), {'env': 'the environment', 'info': 'info', 'meas': 'measurement'}[cps]))
                    cm = [e for e in s.ev if e[0] == 'copyin measured']
                    c.ob(bool(cm) == (cps == 'meas'), 'copyin:source:' + k, '%s: the copyin method is %smeasured' % (fn.name, '' if cm else 'not '))
                freed = [e[1] for e in s.ev if e[0] == 'freed']
                heap = [b for b in s.size if b.startswith(('heap#', 'ports#', 'groups#', 'factors#'))]
                for b in heap:
                    c.ob(b in freed, 'free:lost:' + k, '%s: a list is not freed (%s)' % (fn.name, wh))
                c.ob(set(freed) <= set(heap), 'free:foreign:' + k, '%s: a list that belongs to the user settings is freed (%s)' % (fn.name, wh))
                for i, x in s.bad:
                    c.ob(False, 'init:bounds:' + k, '%s:%d: %s (%s)' % (F, i.line, x, wh))
            c.count('setups')


def main(c):
    m = driver.compile_one(F, tag='p15')
    try:
        g, key = environment(c, m)
        sources(c)
        textforms(c)
        collectives(c, m, g, key)
    except Lost as e:
        raise AnalysisError(str(e))
    c.need('environments', 10)
    c.need('sources', 10)
    c.need('questions', 30)
    c.need('roles', 30)
    c.need('setups', 30)


if __name__ == '__main__':
    driver.run(main, 'P15', RULE)
