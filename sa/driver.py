"""Compiles /repo's current sources to analysed IR (in a scratch dir) and the
common command-line / evidence / reporting code of the checks."""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, HERE)
import irlib  # noqa: E402

CLANG = 'clang-18'
OPT = 'opt-18'
MPIINC = ['-I/usr/lib/x86_64-linux-gnu/openmpi/include',
          '-I/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi']


class AnalysisError(Exception):
    pass


_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='sa_ir_')
        os.makedirs(os.path.join(_scratch, 'stub'))
        open(os.path.join(_scratch, 'stub', 'latency_bandwidth.tmp'), 'w').close()
        import atexit
        atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch


def cflags():
    return (['-I.', '-Iinclude/core', '-Iinclude/mpi', '-Iinclude/noopt', '-DDEBUG', '-DM_MAP',
             '-I' + os.path.join(scratch(), 'stub')] + MPIINC)


def all_sources():
    out = []
    for d in ('src/core', 'src/mpi', 'src/fortran', 'src/noopt'):
        p = os.path.join(REPO, d)
        if os.path.isdir(p):
            for f in sorted(os.listdir(p)):
                if f.endswith('.c'):
                    out.append(d + '/' + f)
    return out


def api_names():
    """functions with external linkage that exist in the reference tree: never inlined.
    Every other function (static, or added later) is treated as a helper and inlined."""
    with open(os.path.join(HERE, 'api_functions.txt')) as f:
        return {x.strip() for x in f if x.strip() and not x.startswith('#')}


DEFPASSES = 'always-inline,globaldce,function(sroa,early-cse,simplifycfg)'


def compile_one(src, passes=DEFPASSES, inline=True, tag='o', extra_inline=(), keep=()):
    d = scratch()
    base = src.replace('/', '_')
    raw = os.path.join(d, base + '.ll')
    if not os.path.exists(raw):
        tmp = raw + '.%d.tmp' % os.getpid()
        r = subprocess.run([CLANG, '-O1', '-Xclang', '-disable-llvm-passes', '-g',
                            '-fno-discard-value-names', '-fstandalone-debug', '-fno-builtin-printf', '-S', '-emit-llvm', '-w']
                           + cflags() + [src, '-o', tmp], cwd=REPO, capture_output=True, text=True)
        if r.returncode:
            raise AnalysisError('cannot compile %s:\n%s' % (src, r.stderr[-2000:]))
        os.rename(tmp, raw)
    out = os.path.join(d, base + '.' + tag + '.ll')
    mid = raw
    if inline:
        mid = os.path.join(d, base + '.' + tag + '.in.ll')
        api = api_names()
        with open(raw) as f, open(mid, 'w') as g:
            for L in f:
                if L.startswith('define '):
                    m = re.search(r'@("[^"]*"|[-\w$.]+)\(', L)
                    nm = m.group(1).strip('"')
                    if ((' internal ' in L[:m.start()] or nm not in api or nm in extra_inline) and nm not in keep
                            and '...)' not in L):
                        L = L.replace('define dso_local', 'define internal')
                        L = re.sub(r'(#\d+)?( !dbg [^ ]+)? \{$', lambda k: '%s alwaysinline%s {' % (k.group(1) or '', k.group(2) or ''), L.rstrip('\n')) + '\n'
                g.write(L)
    r = subprocess.run([OPT, '-S', '-passes=' + passes, mid, '-o', out], capture_output=True, text=True)
    if r.returncode:
        raise AnalysisError('opt failed on %s:\n%s' % (src, r.stderr[-2000:]))
    m = irlib.Module(out)
    m.src = src
    m.raw = raw
    return m


def _job(a):
    return compile_one(*a)


def modules(srcs=None, passes=DEFPASSES, tag='o', extra_inline=(), keep=()):
    srcs = srcs or all_sources()
    scratch()
    for s in srcs:
        if not os.path.exists(os.path.join(REPO, s)):
            raise AnalysisError('analysed source %s is gone' % s)
    with cf.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda s: compile_one(s, passes, True, tag, extra_inline, keep), srcs))
    return dict(zip(srcs, res))


# ------------------------------------------------------------- known findings

def known_findings():
    out = {}
    p = os.path.join(ROOT, 'known_findings.jsonl')
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                line = line.strip()
                if line and not line.startswith('#'):
                    e = json.loads(line)
                    if e.get('status') == 'known':
                        out[(e['property'], e['key'])] = e
    return out


class Check:
    def __init__(self, pid, rule, level='other'):
        self.pid = pid
        self.rule = rule
        self.level = level
        self.t0 = time.time()
        self.viol = []
        self.counts = {}
        self.samples = []
        self.analysed = set()
        self.notes = []
        self.oblig = 0
        self.minimum = {}
        self.errors = []
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if '--thorough' in sys.argv:
            self.tier = 'thorough'

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def ob(self, cond, key, msg, sample=None):
        """one discharged/failed obligation"""
        self.oblig += 1
        if sample and len(self.samples) < 12:
            self.samples.append(sample)
        if not cond:
            self.violation(key, msg)
        return cond

    def violation(self, key, msg):
        if (key, msg) not in self.viol:
            self.viol.append((key, msg))

    def need(self, k, n):
        """instance floor: fewer than n instances of k is an analysis error"""
        self.minimum[k] = n

    def error(self, msg):
        self.errors.append(msg)

    def fn(self, name):
        self.analysed.add(name)

    def finish(self):
        known = known_findings()
        rep = os.environ.get('VERIF_EVID') or os.path.join(ROOT, 'evidence')
        os.makedirs(rep, exist_ok=True)
        newv, seen = [], []
        for key, msg in self.viol:
            if (self.pid, key) in known:
                seen.append((key, msg))
            else:
                newv.append((key, msg))
        for k, n in self.minimum.items():
            if self.counts.get(k, 0) < n:
                self.errors.append('analysis-broken: %s: %d instances, at least %d expected' % (
                    k, self.counts.get(k, 0), n))
        rp = os.path.join(rep, self.pid + '.violations.txt')
        with open(rp, 'w') as f:
            for key, msg in newv:
                f.write('%s\n    rule: %s\n    instance: %s\n' % (msg, self.rule, key))
            for key, msg in seen:
                f.write('KNOWN %s\n    instance: %s\n' % (msg, key))
            for e in self.errors:
                f.write('ERROR %s\n' % e)
        cov = {
            'explanation': self.rule,
            'obligations': self.oblig,
            'discharged': max(0, self.oblig - len(self.viol)),
            'functions_analysed': len(self.analysed),
            'functions': sorted(self.analysed)[:200],
            'instances': dict(sorted(self.counts.items())),
            'samples': self.samples or ['(none)'],
        }
        if self.notes:
            cov['notes'] = self.notes
        ev = {'property': self.pid, 'tier': self.tier if self.tier in ('quick', 'thorough') else 'quick',
              'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': self.level,
              'coverage': cov, 'assumptions': ASSUME, 'wall_s': round(time.time() - self.t0, 2),
              'violations': len(newv)}
        with open(os.path.join(rep, self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, sort_keys=True)
            f.write('\n')
        print('%s: %d functions, %d obligations, instances %s' % (
            self.pid, len(self.analysed), self.oblig, dict(sorted(self.counts.items()))))
        for key, msg in seen:
            print('KNOWN-FINDING: property=%s %s [%s]' % (self.pid, msg, key))
        for key, msg in newv:
            print('  %s [%s]' % (msg, key))
        if newv:
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            for e in self.errors:
                print('note: ' + e)
            return 1
        if self.errors:
            for e in self.errors:
                print('ANALYSIS-ERROR property=%s %s' % (self.pid, e))
            return 2
        return 0


ASSUME = [
    'the build configuration of the Makefile (-DDEBUG -DM_MAP, no GPU, no NCCL, C compiled for x86-64 with Open MPI headers)',
    'clang 18 front end and the LLVM passes always-inline/sroa/early-cse/simplifycfg preserve the semantics of the source',
]


def run(main, pid, rule, level='other'):
    c = Check(pid, rule, level)
    try:
        main(c)
    except AnalysisError as e:
        c.error(str(e))
    except Exception as e:  # a crash of the analyser is an error exit, never a verdict
        import traceback
        traceback.print_exc()
        c.error('analyser crashed: %r' % e)
    sys.exit(c.finish())
