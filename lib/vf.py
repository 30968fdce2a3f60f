"""Shared machinery of the checks: scratch space, building, running TLC, reporting."""
import atexit, json, os, random, re, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick') or 'quick'
THOROUGH = TIER == 'thorough'
T0 = time.time()
JOBS = min(8, os.cpu_count() or 4)
TLCJAR = '/opt/veriftools/tla/tla2tools.jar'
TLCDEPS = '/opt/veriftools/tla/CommunityModules-deps.jar'

_scratch = None


def scratch():
    """A private directory, removed when the check ends."""
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='vf.')
        pid = os.getpid()

        def clean():
            if os.getpid() == pid and not os.environ.get('VF_KEEP'):
                shutil.rmtree(_scratch, ignore_errors=True)
        atexit.register(clean)
        signal.signal(signal.SIGTERM, lambda *a: sys.exit(3))
    return _scratch


class Fail(Exception):
    """The check itself could not do its work."""


def log(*a):
    print('[%6.1f]' % (time.time() - T0), *a, file=sys.stderr, flush=True)


def cleanenv(**kw):
    e = {k: v for k, v in os.environ.items()
         if k not in ('MAKEFLAGS', 'CFLAGS', 'CPPFLAGS', 'LDFLAGS', 'LDADD', 'MFLAGS')}
    e.update(LC_ALL='C.UTF-8', LANG='C.UTF-8', TZ='UTC',
             ASAN_OPTIONS='detect_leaks=0:exitcode=99:allocator_may_return_null=1')
    e.update(kw)
    return e


_built = None
_block = threading.Lock()


def build(sanitize=False):
    with _block:
        return _build(sanitize)


def _build(sanitize):
    """Build the tools from the working tree of the repository, in scratch space.  The first call
    says whether with the address sanitizer."""
    global _built
    if _built:
        return _built
    d = os.path.join(scratch(), 'src')

    def ign(path, names):
        out = {n for n in names if n == '.git' or n.endswith(('.o', '.a', '.so'))}
        if os.path.abspath(path) == os.path.abspath(REPO):
            out |= {'Makefile.configure', 'config.h', 'config.log', 'regress', 'node_modules',
                    'ort', 'ort-audit', 'ort-audit-json', 'ort-c-header', 'ort-c-manpage',
                    'ort-c-source', 'ort-diff', 'ort-javascript', 'ort-json', 'ort-nodejs',
                    'ort-rust', 'ort-sql', 'ort-sqldiff', 'ort-xliff', 'ort-paths.h',
                    'ort-version.h', '.npm'} & set(names)
        return out
    shutil.copytree(REPO, d, ignore=ign, symlinks=True)
    env = cleanenv(CC='gcc')
    if sanitize:
        env['CC'] = os.path.join(scratch(), 'cc')
        with open(env['CC'], 'w') as f:
            f.write('#!/bin/sh\nexec gcc -fsanitize=address -O1 "$@"\n')
        os.chmod(env['CC'], 0o755)
        env['ASAN_OPTIONS'] = 'detect_leaks=0'
    for cmd in (['sh', './configure'], ['bmake', '-j8', 'all']):
        r = subprocess.run(cmd, cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, errors='replace')
        if r.returncode:
            raise Fail('build failed (%s): %s' % (' '.join(cmd), r.stdout[-2000:]))
    _built = d
    log('built the tools')
    return d


def tool(name):
    return os.path.join(build(), name)


def run(cmd, inp=None, timeout=60, cwd=None, env=None, text=True):
    """Run a tool; returns (status, stdout, stderr); status is negative for a signal, 'hang'."""
    try:
        r = subprocess.run(cmd, input=inp, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=timeout, cwd=cwd, env=env or cleanenv(),
                           **(dict(encoding='utf-8', errors='surrogateescape') if text else {}))
        return r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired:
        return 'hang', '' if text else b'', 'timed out' if text else b'timed out'


def pmap(fn, items, jobs=None):
    items = list(items)
    with ThreadPoolExecutor(jobs or JOBS) as ex:
        return list(ex.map(fn, items))


# ------------------------------------------------------------------ TLC
class TLCResult:
    pass


def tlc(module, cfg=None, env=None, workers=None, heap='6g', timeout=800, args=(), simulate=None):
    """Run TLC on spec/<module>.tla.  Returns an object with .out, .rc, .states, .distinct,
    .prints (the tuples printed with PrintT as raw lines)."""
    md = tempfile.mkdtemp(prefix='tlc.', dir=scratch())
    e = cleanenv(VERBOSE='0')
    e.update({k: str(v) for k, v in (env or {}).items()})
    cmd = ['java', '-Xmx' + heap, '-Xss64m', '-XX:+UseParallelGC', '-Djava.io.tmpdir=' + md,
           '-cp', TLCJAR + ':' + TLCDEPS,
           'tlc2.TLC', '-metadir', md, '-noGenerateSpecTE', '-workers', str(workers or JOBS),
           '-config', os.path.join(SPEC, (cfg or module) + '.cfg')] + list(args) + \
          [os.path.join(SPEC, module + '.tla')]
    t = time.time()
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, cwd=md,
                           timeout=timeout, encoding='utf-8', errors='replace')
    except subprocess.TimeoutExpired:
        raise Fail('TLC timed out on %s' % module)
    finally:
        shutil.rmtree(md, ignore_errors=True)
    o = TLCResult()
    o.out, o.rc, o.wall = r.stdout, r.returncode, time.time() - t
    m = re.findall(r'([\d,]+) states generated.*?, ([\d,]+) distinct', r.stdout)
    o.states, o.distinct = (int(m[-1][0].replace(',', '')), int(m[-1][1].replace(',', ''))) \
        if m else (0, 0)
    o.completed = 'Model checking completed' in r.stdout or 'Finished in' in r.stdout
    return o


def tlc_ok(o, what=''):
    """Error exit if TLC did not evaluate everything."""
    if o.rc != 0:
        i = o.out.find('Error:')
        raise Fail('TLC failed on %s (rc %d): %s' % (what, o.rc, o.out[max(0, i - 200):i + 3000]))
    return o


def printed(o, tag):
    """Numbers printed as <<"TAG", n, ...>> (first number of each)."""
    return [tuple(int(x) for x in re.findall(r'-?\d+', m))
            for m in re.findall(r'<<"%s"((?:, *-?\d+)+)' % tag, o.out)]


# ------------------------------------------------------------ reporting
class Check:
    def __init__(self, prop, level):
        self.prop, self.level = prop, level
        self.cov = {}
        self.assume = []
        self.viol = []
        self.known = load_known(prop)
        self.hit = {}

    def violation(self, key, what, data):
        """Record a violation.  "key" identifies the failing input/site/history; a listed known
        finding with that key is reported as such."""
        for k, text in self.known:
            if k == key:
                self.hit[k] = text
                return
        self.viol.append((key, what, data))

    def finish(self):
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        for k, text in self.known:
            if k in self.hit:
                print('KNOWN-FINDING: property=%s %s' % (self.prop, text))
        rp = None
        if self.viol:
            rp = os.path.join(VERIF, 'evidence', '%s-replay.json' % self.prop)
            with open(rp, 'w') as f:
                json.dump([dict(key=k, what=w, data=d) for k, w, d in self.viol[:int(os.environ.get("VF_KEEPN", "20"))]], f, indent=1,
                          default=repr)
        ev = dict(property=self.prop, tier=TIER, seed=SEED, level=self.level, coverage=self.cov,
                  assumptions=self.assume, wall_s=round(time.time() - T0, 2),
                  violations=len(self.viol))
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=repr)
        if self.viol:
            for k, w, d in self.viol[:5]:
                print('  %s: %s' % (k, w))
            print('VIOLATION property=%s replay=%s' % (self.prop, rp))
            sys.stdout.flush()
            sys.exit(1)
        print('%s: held on everything explored (%.0f s)' % (self.prop, time.time() - T0))
        sys.exit(0)


def load_known(prop):
    out = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p, encoding='utf-8'):
            m = re.match(r'KNOWN: property=(\S+) key=(\S+) (.*)', line.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def main(fn, sanitize=False):
    """Run a check; anything unexpected is an error of the check (exit 2)."""
    try:
        build(sanitize)
        fn()
    except SystemExit:
        raise
    except Fail as e:
        print('CHECK-ERROR', e, file=sys.stderr)
        sys.exit(2)
    except BaseException:
        import traceback
        traceback.print_exc()
        sys.exit(2)
