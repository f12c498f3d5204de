"""Building the harness from /repo, running it, running TLC, and reporting."""
import atexit, fcntl, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
BUILD = os.path.join(VERIF, '.build')
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
CPUS = min(8, os.cpu_count() or 4)

_tmp = None


class ToolError(Exception):
    """The check itself could not work (not a verdict about the code)."""


def tmpdir():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix='yuubind-verif-')
        atexit.register(shutil.rmtree, _tmp, True)
    return _tmp


_n = [0]


def tmpfile(name):
    _n[0] += 1
    return os.path.join(tmpdir(), '%d-%s' % (_n[0], name))


# ---------------------------------------------------------------------------- building

CRATES = ['smtp-message', 'smtp-server', 'smtp-queue']


def source_hash():
    h = hashlib.sha256()
    for c in CRATES:
        for root, dirs, files in os.walk(os.path.join(REPO, c)):
            dirs.sort()
            if 'target' in dirs:
                dirs.remove('target')
            for f in sorted(files):
                if f.endswith(('.rs', '.toml')):
                    p = os.path.join(root, f)
                    h.update(p.encode())
                    with open(p, 'rb') as fd:
                        h.update(fd.read())
    return h.hexdigest()


def build():
    """Builds the harness against /repo's working tree; returns the directory of binaries."""
    os.makedirs(BUILD, exist_ok=True)
    env = dict(os.environ)
    env['PATH'] = '/root/.cargo/bin:' + env.get('PATH', '')
    env.update(CARGO_TARGET_DIR=BUILD, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never',
               RUSTUP_TOOLCHAIN='stable', RUSTC_WRAPPER='', CARGO_INCREMENTAL='0')
    env.pop('RUSTFLAGS', None)
    with open(os.path.join(BUILD, '.lock-verif'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        stamp = os.path.join(BUILD, '.source-hash')
        want = source_hash()
        have = open(stamp).read() if os.path.exists(stamp) else ''
        cwd = os.path.join(VERIF, 'harness')
        if have != want and have:
            # do not rely on time stamps to notice changed sources
            subprocess.run(['cargo', 'clean', '--offline'] + sum((['-p', c] for c in CRATES), []),
                           cwd=cwd, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if os.path.exists(stamp):
            os.unlink(stamp)
        r = subprocess.run(['cargo', 'build', '--offline', '--bins'], cwd=cwd, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            errors = [l for l in r.stdout.split('\n') if l.startswith('error')]
            print(r.stdout[-6000:], file=sys.stderr)
            raise ToolError('the harness does not build against %s: %s' % (REPO, errors[:5]))
        with open(stamp, 'w') as f:
            f.write(want)
    return os.path.join(BUILD, 'debug')


# ---------------------------------------------------------------------------- harness runs

class Unit:
    """One or more input lines of the harness that belong together, and the ids they produce."""
    __slots__ = ('lines', 'ids')

    def __init__(self, lines, ids):
        self.lines, self.ids = lines, ids


incomplete = set()     # harnesses given up on: too many crashes or hangs


def run_shard(binary, units, args, timeout):
    out = []
    pos = 0
    restarts = hangs = 0
    while pos < len(units):
        text = '\n'.join(l for u in units[pos:] for l in u.lines) + '\n'
        try:
            r = subprocess.run([binary] + args, input=text.encode(), stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, timeout=timeout)
            rc, data, err = r.returncode, r.stdout, r.stderr
        except subprocess.TimeoutExpired as e:
            rc, data, err = None, e.stdout or b'', e.stderr or b''
        got = []
        complete = False
        for l in data.decode('utf-8', 'replace').split('\n'):
            if not l.strip():
                continue
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d.get('eof') is True:
                complete = True
            else:
                got.append(d)
        out += got
        if complete:
            return out
        # it died or was stopped in some unit: the first one without output, or the last with
        seen = set(d['id'] for d in got)
        last = -1
        for i in range(pos, len(units)):
            if any(x in seen for x in units[i].ids):
                last = i
        hung = bool(got) and got[-1].get('hang') or (
            bool(got) and 'ev' in got[-1] and got[-1]['ev'] and got[-1]['ev'][-1].get('e') == 'hang')
        culprit = last if hung else last + 1
        if culprit >= len(units):
            raise ToolError('harness ended early with code %s: %s' % (rc, err[-2000:]))
        if not hung:
            out.append({'id': units[culprit].ids[0], 'crash': rc,
                        'stderr': err.decode('utf-8', 'replace')[-300:]})
        pos = culprit + 1
        restarts += 1
        hangs += 1 if hung or rc is None else 0
        if restarts > 40 or hangs > 4:
            incomplete.add(binary)
            return out
    return out


def run_harness(name, units, args=(), timeout=600, shards=None):
    """Runs units through a harness binary, in parallel; returns the output records in no
    particular order.  A case that ends the process gives a record with 'crash'."""
    binary = os.path.join(BUILD, 'debug', name)
    shards = shards or CPUS
    parts = [units[i::shards] for i in range(shards)]
    parts = [p for p in parts if p]
    with ThreadPoolExecutor(max_workers=max(1, len(parts))) as ex:
        res = list(ex.map(lambda p: run_shard(binary, p, list(args), timeout), parts))
    return [d for r in res for d in r]


# ---------------------------------------------------------------------------- TLC

class TlcResult:
    def __init__(self):
        self.states = 0        # distinct
        self.transitions = 0   # generated
        self.prints = {}       # tag -> list of value lists
        self.violated = None   # text of a violated invariant or property
        self.trace = ''
        self.out = ''
        self.wall = 0
        self.coverage = {}


_tuple_re = re.compile(r'^<<"([A-Z]+)", (.*)>>$')


def parse_tuple(s):
    """Values of a printed TLA+ tuple of numbers, booleans and strings."""
    s = s.replace('TRUE', 'true').replace('FALSE', 'false') if '"' not in s else s
    try:
        return json.loads('[' + s + ']')
    except ValueError:
        out, i = [], 0
        for m in re.finditer(r'"(?:[^"\\]|\\.)*"|TRUE|FALSE|-?\d+', s):
            t = m.group(0)
            out.append(True if t == 'TRUE' else False if t == 'FALSE' else json.loads(t))
        return out


def tlc(module, body, cfg, env=None, workers=None, timeout=1200, args=(), xmx='6g', name=None):
    """Checks a module made on the fly (body: what it contains besides its header) that
    extends modules of /verif/spec."""
    d = tempfile.mkdtemp(dir=tmpdir())
    mod = name or 'Run'
    with open(os.path.join(d, mod + '.tla'), 'w') as f:
        f.write('---- MODULE %s ----\nEXTENDS %s\n%s\n====\n' % (mod, module, body))
    with open(os.path.join(d, mod + '.cfg'), 'w') as f:
        f.write(cfg)
    e = dict(os.environ)
    e.pop('JAVA_TOOL_OPTIONS', None)
    e.update(env or {})
    cmd = ['java', '-XX:+UseParallelGC', '-Xss256m', '-Xmx' + xmx, '-DTLA-Library=' + SPEC,
           '-Djava.io.tmpdir=' + d,
           '-cp', JAR, 'tlc2.TLC', '-metadir', os.path.join(d, 'meta'), '-noGenerateSpecTE',
           '-workers', str(workers or CPUS), '-config', mod + '.cfg'] + list(args) + [mod + '.tla']
    t0 = time.time()
    try:
        r = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout)
        rc, out = r.returncode, r.stdout.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired as ex:
        raise ToolError('TLC took longer than %d s on %s' % (timeout, module))
    res = TlcResult()
    res.wall = time.time() - t0
    res.out = out
    rest = []
    for l in out.split('\n'):
        m = _tuple_re.match(l.strip())
        if m:
            res.prints.setdefault(m.group(1), []).append(parse_tuple(m.group(2)))
        else:
            rest.append(l)
    rest = '\n'.join(rest)
    m = None
    for m in re.finditer(r'([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found', rest):
        pass
    if m:
        res.transitions = int(m.group(1).replace(',', ''))
        res.states = int(m.group(2).replace(',', ''))
    m = re.search(r'Error: (Invariant (\S+) is violated|Action property .* is violated|Temporal properties were violated|Deadlock reached)', rest)
    if m:
        res.violated = m.group(1)
        res.trace = rest[m.start():][:12000]
    elif rc != 0:
        raise ToolError('TLC failed (%s) on %s:\n%s' % (rc, module, rest[-3500:]))
    shutil.rmtree(d, True)
    return res


def cfg_text(spec=None, init=None, next_=None, constants=None, invariants=(), properties=(),
             constraint=None, view=None):
    t = []
    if spec:
        t.append('SPECIFICATION ' + spec)
    else:
        t += ['INIT ' + init, 'NEXT ' + next_]
    for k, v in (constants or {}).items():
        t.append('CONSTANT %s %s' % (k, v if v.startswith(('=', '<-')) else '= ' + v))
    for i in invariants:
        t.append('INVARIANT ' + i)
    for p in properties:
        t.append('PROPERTY ' + p)
    if constraint:
        t.append('CONSTRAINT ' + constraint)
    if view:
        t.append('VIEW ' + view)
    t.append('CHECK_DEADLOCK FALSE')
    return '\n'.join(t) + '\n'


# ---------------------------------------------------------------------------- reporting

class Report:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.states = self.transitions = 0
        self.traces = 0            # runs of the real code compared with the specification
        self.executions = 0        # runs of the real code
        self.samples = []
        self.notes = {}
        self.violations = []       # (what, replay dict)
        self.assumptions = []
        self.exhaustive = False

    def model(self, r):
        self.states += r.states
        self.transitions += r.transitions

    def count(self, key, n=1):
        self.notes[key] = self.notes.get(key, 0) + n

    def sample(self, x, limit=6):
        if len(self.samples) < limit:
            self.samples.append(x)

    def violation(self, what, replay):
        self.violations.append((what, replay))

    def finish(self):
        known = known_findings(self.prop)
        fresh = []
        for what, replay in self.violations:
            k = next((k for k in known if k['match'] and k['match'] in what), None)
            if k:
                k['seen'] = True
            else:
                fresh.append((what, replay))
        for k in known:
            if k.get('seen'):
                print('KNOWN-FINDING: property=%s %s' % (self.prop, k['text']))
        cov = {
            'states': self.states,
            'transitions': self.transitions,
            'traces_validated_against_impl': self.traces,
            'samples': self.samples or ['none'],
        }
        if self.executions:
            cov['executions_of_the_implementation'] = self.executions
        if self.exhaustive:
            cov['exhaustive'] = True
        cov.update(self.notes)
        ev = {
            'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': 'model_checking',
            'coverage': cov, 'assumptions': self.assumptions,
            'wall_s': round(time.time() - self.t0, 2), 'violations': len(fresh),
        }
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        p = os.path.join(VERIF, 'evidence', self.prop + '.json')
        with open(p + '.tmp', 'w') as f:
            json.dump(ev, f, indent=1)
        os.replace(p + '.tmp', p)
        print('%s: %d model states, %d runs of the implementation, %d compared, %.0f s' % (
            self.prop, self.states, self.executions, self.traces, time.time() - self.t0))
        if not fresh:
            return 0
        d = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, '%s-%s.json' % (self.prop, self.tier))
        with open(p, 'w') as f:
            json.dump([{'what': w, 'replay': r} for w, r in fresh[:20]], f, indent=1)
        for w, _ in fresh[:10]:
            print('  ' + w)
        print('VIOLATION property=%s replay=%s' % (self.prop, p))
        return 1


def known_findings(prop):
    """Lines 'property=<id> match=<json string> <text>' of known-findings.txt; lines starting
    with 'fixed:' or '#' suppress nothing."""
    res = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'property=(\S+) match=("(?:[^"\\]|\\.)*") (.*)$', l.strip())
            if m and m.group(1) == prop:
                res.append({'match': json.loads(m.group(2)), 'text': m.group(3)})
    return res


_runs = re.compile(b'y+')


def runs(b):
    """Bytes as the specification reads them in recordings: each run of n "y" as 1000 + n."""
    b = bytes(b)
    out, p = [], 0
    for m in _runs.finditer(b):
        out += b[p:m.start()]
        out.append(1000 + m.end() - m.start())
        p = m.end()
    return out + list(b[p:])


def hexs(b):
    return bytes(b).hex()


def show(b, limit=200):
    s = ''.join(chr(x) if 32 <= x < 127 and x != 92 else {13: '\\r', 10: '\\n', 92: '\\\\'}.get(x, '\\x%02x' % x)
                for x in b)
    return s if len(s) <= limit else s[:limit] + '...(%d bytes)' % len(b)
