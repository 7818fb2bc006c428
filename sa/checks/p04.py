"""P04 request dispatch of the interface layer: Start/Wait/Test/Request_free and registration at init."""
from paths import *
import re

RULE = ('Path rule on the MPI entry points: the handle is looked up with the caller\'s request; if the lookup succeeds the request '
        'operation of the library is applied to exactly that handle and MPI is not called for it, otherwise the same MPI operation is '
        'forwarded with the caller\'s arguments and its result returned; initialisation registers request -> handle exactly on success.')

IF = 'src/mpi/ext_mpi_interface.c'
INITS = ['Allreduce', 'Allgatherv', 'Reduce_scatter', 'Bcast', 'Reduce', 'Gatherv', 'Scatterv']


def known_sign(F, h, path):
    """True: handle known >= 0, False: known < 0, None: not tested"""
    f = path.facts.get(('val', aslin(h)))
    if f and f[0] == 'ne' and -1 in f[1]:
        return True
    return F.truth(mkcmp('sge', h, C(0), 32), path)


def single_op(c, m, name, ext):
    fn = m.fns.get(name)
    if fn is None:
        raise AnalysisError('%s is not defined' % name)
    c.fn(name)
    pm = [n for t, n in fn.params]
    F = FP(fn, tracked=pm)
    req = F.param(0)
    own = foreign = 0
    for x in F.paths:
        w = fn.where(x['last'])
        if x['kind'] != 'ret':
            c.ob(False, name + ':exit', '%s: %s ends the program' % (w, name))
            continue
        c.count('paths')
        cs = calls(x['trace'])
        hs = [t for t in cs if t[1] == 'ext_mpi_hash_search']
        if not c.ob(len(hs) >= 1, name + ':search', '%s: %s does not look up the request' % (w, name)):
            continue
        c.ob(all(t[2][0] == req for t in hs), name + ':key', '%s: %s looks up something else than the caller\'s request' % (w, name))
        h = hs[0][3]
        sg = known_sign(F, h, x['path'])
        e = [t for t in cs if t[1] == ext]
        p = [t for t in cs if t[1] == 'P' + name]
        if not c.ob(sg is not None, name + ':undecided', '%s: %s acts without testing whether the request belongs to the library' % (w, name)):
            continue
        if sg:
            own += 1
            c.ob(len(e) == 1 and e[0][2] == [h], name + ':own', '%s: %s does not apply %s exactly once to the handle of its request' % (w, name, ext))
            if name == 'MPI_Request_free':
                d = [t for t in cs if t[1] == 'ext_mpi_hash_delete']
                c.ob(len(d) == 1 and d[0][2] == [req], name + ':delete', '%s: freeing a request does not remove it from the request table' % w)
                # the table entry must be removed while the request value is still intact
                k = [t[1] for t in cs]
                if d and p:
                    c.ob(k.index('ext_mpi_hash_delete') < k.index('PMPI_Request_free'), name + ':order',
                         '%s: the request is destroyed before its table entry is removed' % w)
                c.ob(len(p) == 1 and p[0][2] == [F.param(i) for i in range(len(pm))] and x['ret'] == p[0][3], name + ':dummy',
                     '%s: the MPI request behind the handle is not freed' % w)
            else:
                c.ob(not p, name + ':own-mpi', '%s: %s also calls MPI for a request of the library' % (w, name))
                c.ob(x['ret'] == C(0) or x['ret'] == (e[0][3] if e else None) and name != 'MPI_Test', name + ':own-ret',
                     '%s: %s does not report success for a request of the library' % (w, name))
            if name == 'MPI_Test' and e:
                fl = final(x, F.param(1))
                c.ob(fl == e[0][3], name + ':flag', '%s: the flag of MPI_Test is not the result of %s' % (w, ext))
        else:
            foreign += 1
            c.ob(not any(t[1].startswith('EXT_MPI_') or t[1].startswith('ext_mpi_hash_d') or t[1].startswith('ext_mpi_hash_i') for t in cs),
                 name + ':foreign-ext', '%s: %s touches the library for a request that is not its own' % (w, name))
            c.ob(len(p) == 1 and p[0][2] == [F.param(i) for i in range(len(pm))], name + ':forward',
                 '%s: %s does not forward its arguments unchanged to P%s' % (w, name, name))
            c.ob(bool(p) and x['ret'] == p[0][3], name + ':forward-ret', '%s: %s does not return the result of P%s' % (w, name, name))
            if name == 'MPI_Test':
                c.ob(not any(t[0] == 'mst' for t in x['trace']), name + ':foreign-flag', '%s: MPI_Test overwrites the result of PMPI_Test' % w)
    c.ob(own >= 1, name + ':no-own', '%s never handles a request of the library' % name)
    c.ob(foreign >= 1, name + ':no-foreign', '%s never forwards a foreign request' % name)
    c.count('functions')


def final(x, addr):
    """last value stored at an address (None: not stored)"""
    v = None
    for t in x['trace']:
        if t[0] == 'mst' and t[1] == addr:
            v = t[2]
    return v


def init(c, m, name):
    f = 'MPI_%s_init' % name
    fn = m.fns.get(f)
    if fn is None:
        raise AnalysisError('%s is not defined' % f)
    c.fn(f)
    F = FP(fn)
    n = len(fn.params)
    req = F.param(n - 1)
    ok = bad = 0
    for x in F.paths:
        w = fn.where(x['last'])
        if x['kind'] != 'ret':
            c.ob(False, f + ':exit', '%s: %s ends the program' % (w, f))
            continue
        c.count('paths')
        cs = calls(x['trace'])
        e = [(i, t) for i, t in enumerate(cs) if t[1] == 'EXT_MPI_%s_init' % name]
        if not c.ob(len(e) == 1, f + ':once', '%s: %s builds the collective %d times' % (w, f, len(e))):
            continue
        ei, et = e[0]
        for i in range(n - 1):
            c.ob(et[2][i] == F.param(i), '%s:arg%d' % (f, i), '%s: %s passes something else than its argument "%s" as argument %d of %s' % (
                fn.where(et[4]), f, fn.params[i][1], i + 1, et[1]))
        hp = et[2][n - 1]
        ret = et[3]
        z = F.truth(mkcmp('eq', ret, C(0), 32), x['path'])
        ins = [(i, t) for i, t in enumerate(cs) if t[1] == 'ext_mpi_hash_insert']
        mk = [i for i, t in enumerate(cs) if t[2] and t[2][-1] == req and t[1] not in ('ext_mpi_hash_insert',)]
        c.ob(x['ret'] == ret or (z and x['ret'] == C(0)), f + ':ret', '%s: %s does not return the result of building the collective' % (w, f))
        if ins:
            c.ob(z is True, f + ':insert-on-error', '%s: %s registers a handle although building the collective failed' % (w, f))
        if z is True:
            ok += 1
            c.ob(len(ins) == 1 and ins[0][0] > ei, f + ':insert', '%s: %s does not register the new collective under its request' % (w, f))
            if len(ins) == 1:
                a = ins[0][1][2]
                s = single(a[1])
                c.ob(a[0] == req and bool(s) and s[0] == 'ld' and s[2] == hp, f + ':insert-args',
                     '%s: %s registers another request or another handle' % (fn.where(ins[0][1][4]), f))
                c.ob(bool(mk) and mk[0] < ins[0][0], f + ':request', '%s: %s registers a request that has not been created yet' % (w, f))
        elif z is False:
            bad += 1
        else:
            c.ob(False, f + ':unchecked', '%s: %s does not check whether building the collective succeeded' % (w, f))
    c.ob(ok > 0 and bad > 0, f + ':paths', '%s has no success or no failure path' % f)
    c.count('functions')


def main(c):
    m = driver.compile_one(IF)
    for a, b in (('MPI_Start', 'EXT_MPI_Start'), ('MPI_Wait', 'EXT_MPI_Wait'), ('MPI_Test', 'EXT_MPI_Test'), ('MPI_Request_free', 'EXT_MPI_Done')):
        single_op(c, m, a, b)
    for n in INITS:
        init(c, m, n)
    # EXT_MPI_Start .. Done forward to the native layer with the same handle
    m2 = driver.compile_one('src/mpi/ext_mpi.c')
    for n in ('Start', 'Test', 'Wait', 'Done'):
        f = 'EXT_MPI_' + n
        fn = m2.fns.get(f)
        if fn is None:
            raise AnalysisError('%s is not defined' % f)
        c.fn(f)
        c.count('functions')
        F = FP(fn)
        h = F.param(0)
        pos = 0
        for x in F.paths:
            cs = calls(x['trace'])
            sg = known_sign(F, h, x['path'])
            if sg is False:
                c.ob(not cs, f + ':negative', '%s: %s uses an invalid handle' % (fn.where(x['last']), f))
                continue
            pos += 1
            c.ob([t[1] for t in cs] == [f + '_native'] and cs[0][2] == [h] and x['ret'] == cs[0][3], f + ':native',
                 '%s: %s does not forward its handle to %s_native and return the result' % (fn.where(x['last']), f, f))
        c.ob(pos > 0, f + ':none', '%s never reaches %s_native' % (f, f))
    c.need('functions', 15)
    c.need('paths', 20)


if __name__ == '__main__':
    driver.run(main, 'P04', RULE)
