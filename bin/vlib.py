"""Shared machinery: build /repo into a scratch tree, run harness scenarios,
run TLC, collect verdicts, write evidence.  Exit codes: 0 held, 1 violation,
2 machinery error (never reported as a violation)."""
import hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
EVIDENCE = os.environ.get('VERIF_EVIDENCE', os.path.join(VERIF, 'evidence'))
SPEC = os.path.join(VERIF, 'spec')
TLAJARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NPROC = 8
M64 = (1 << 64) - 1


class Machinery(Exception):
    pass


def word(v):
    v &= M64
    return [v & 0xffff, (v >> 16) & 0xffff, (v >> 32) & 0xffff, (v >> 48) & 0xffff]


def unword(l):
    v = l[0] | l[1] << 16 | l[2] << 32 | l[3] << 48
    return v - (1 << 64) if v >> 63 else v


# ---------------------------------------------------------------- building
def _files(root, exts):
    r = []
    for d, ds, fs in os.walk(root):
        ds.sort()
        for f in sorted(fs):
            if f.endswith(exts):
                r.append(os.path.join(d, f))
    return r


def tree_hash():
    h = hashlib.sha256()
    for root in (os.path.join(REPO, 'src'), os.path.join(VERIF, 'harness')):
        for f in _files(root, ('.h', '.hpp', '.cpp', '.c', '.cc', '.txt', '.cmake', '.inc')):
            h.update(f.encode())
            h.update(open(f, 'rb').read())
    h.update(open(os.path.abspath(__file__), 'rb').read().split(b'#BUILD-END')[0][-4000:])
    return h.hexdigest()[:20]


def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    return p.returncode, p.stdout


def build():
    """Build the current tree and the harness against it; returns the directory
    with `harness`, `t86-cli`, `dbg-cli`.  Cached by content hash."""
    base = os.path.join(VERIF, '.build')
    os.makedirs(base, exist_ok=True)
    key = tree_hash()
    out = os.path.join(base, key)
    if os.path.exists(os.path.join(out, 'ok')):
        os.utime(out)
        return out
    for d in sorted((os.path.join(base, x) for x in os.listdir(base)), key=os.path.getmtime)[:-6]:
        shutil.rmtree(d, ignore_errors=True)
    tmp = out + '.tmp%d' % os.getpid()
    os.makedirs(tmp)
    flags = '-g1 -DLOG_LEVEL=0 -fsanitize=address'
    env = dict(os.environ, HOME='/root', LANG='C.UTF-8')
    rc, o = sh(['cmake', '-S', os.path.join(REPO, 'src'), '-B', tmp + '/b', '-G', 'Ninja',
                '-DCMAKE_BUILD_TYPE=Verif', '-DCMAKE_CXX_FLAGS_VERIF=' + flags,
                '-DCMAKE_C_COMPILER=/usr/bin/gcc', '-DCMAKE_CXX_COMPILER=/usr/bin/g++',
                '-DFETCHCONTENT_FULLY_DISCONNECTED=ON', '-DFETCHCONTENT_TRY_FIND_PACKAGE_MODE=ALWAYS',
                '-DCMAKE_FIND_PACKAGE_TARGETS_GLOBAL=ON',
                '-DFETCHCONTENT_SOURCE_DIR_GOOGLETEST=/usr/src/googletest'], env=env)
    if rc:
        raise Machinery('cmake failed:\n' + o[-3000:])
    srcs = [f for f in _files(os.path.join(VERIF, 'harness'), ('.cpp',))]
    inc = ['-I' + os.path.join(REPO, 'src'), '-I' + os.path.join(REPO, 'src/common')]

    def comp(s):
        obj = os.path.join(tmp, os.path.basename(s)[:-4] + '.o')
        rc, o = sh(['g++', '-std=c++20', '-c', s, '-o', obj] + flags.split() + inc, env=env)
        return rc, o, obj

    def nin(_):
        return sh(['ninja', '-C', tmp + '/b', 't86-cli', 'dbg-cli'], env=env) + (None,)
    with ThreadPoolExecutor(NPROC) as ex:
        fs = [ex.submit(nin, None)] + [ex.submit(comp, s) for s in srcs]
        rs = [f.result() for f in fs]
    lost = [o for rc, o, obj in rs[1:] if rc and obj and not obj.endswith('main.o')]
    for rc, o, obj in rs:
        if rc and (obj is None or obj.endswith('main.o') or len(lost) == len(rs) - 2):
            raise Machinery('build failed:\n' + o[-4000:])
    for o in lost:
        # the other parts of the harness can still be used
        print('NOTE: a part of the harness does not compile against this tree:\n' + o[-1500:])
    libs = {os.path.basename(p): p for p in _files(tmp + '/b', ('.a',))}
    order = [libs[n] for n in ('libdebugger.a', 'libt86.a', 'libt86-parser.a', 'libcommon.a') if n in libs]
    rest = [p for n, p in libs.items() if p not in order]
    rc, o = sh(['g++'] + flags.split() + ['-o', tmp + '/harness'] + [r[2] for r in rs[1:] if not r[0]] +
               ['-Wl,--start-group'] + order + rest + ['-Wl,--end-group', '-lfmt', '-lpthread', '-ldl'], env=env)
    if rc:
        raise Machinery('harness link failed:\n' + o[-4000:])
    for exe in ('t86-cli', 'dbg-cli'):
        for d, _, fs in os.walk(tmp + '/b'):
            if exe in fs and os.access(os.path.join(d, exe), os.X_OK) and os.path.isfile(os.path.join(d, exe)):
                shutil.copy(os.path.join(d, exe), os.path.join(tmp, exe))
    shutil.rmtree(tmp + '/b')
    for f in os.listdir(tmp):
        if f.endswith('.o'):
            os.unlink(os.path.join(tmp, f))
    open(os.path.join(tmp, 'ok'), 'w').close()
    try:
        os.rename(tmp, out)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return out
#BUILD-END


# ---------------------------------------------------------------- harness
class Scratch:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='verif-')

    def path(self, *a):
        return os.path.join(self.dir, *a)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def render(sid, lines):
    return '@ %s\n%s\n.\n' % (sid, '\n'.join('%s %s' % kv for kv in lines))


def parse_trace(path):
    """-> {id: (status, [lines])}"""
    res, cur, lines = {}, None, []
    with open(path, encoding='latin-1') as f:
        for l in f:
            l = l.rstrip('\n')
            if l.startswith('@ '):
                cur, lines = l[2:], []
            elif l.startswith('. '):
                if cur is None:
                    raise Machinery('trace without scenario: ' + l)
                res[cur] = (l[2:], lines)
                cur = None
            elif l and cur is not None:
                lines.append(l)
    return res


DEADLINE = 240      # seconds in which run_harness starts scenarios; the rest is skipped


def run_harness(bdir, mode, scens, scratch, batch=50, limit=20, nproc=NPROC, tag='h'):
    """scens: list of (id, [(key, value)...]) -> {id: (status, lines)} of those
    that were run (all, unless many of them hang)"""
    n = min(nproc, max(1, len(scens)))
    procs = []
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=77:detect_stack_use_after_return=0')
    for k in range(n):
        part = scens[k::n]
        sf, tf = scratch.path('%s%d.s' % (tag, k)), scratch.path('%s%d.t' % (tag, k))
        with open(sf, 'w', encoding='latin-1') as f:
            for sid, lines in part:
                f.write(render(sid, lines))
        ef = open(scratch.path('%s%d.e' % (tag, k)), 'w')
        procs.append((subprocess.Popen([os.path.join(bdir, 'harness'), mode, sf, tf, str(batch), str(limit), str(DEADLINE)],
                                       stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=ef, env=env,
                                       cwd=scratch.dir), tf, ef))
    res, cut = {}, False
    for p, tf, ef in procs:
        rc = p.wait()
        ef.close()
        if rc:
            raise Machinery('harness %s exited %d: %s' % (mode, rc, open(ef.name).read()[-2000:]))
        res.update(parse_trace(tf))
        cut = cut or '# skipped\n' in open(tf, encoding='latin-1').read()[-40:]
    if cut:
        print('NOTE: %d of %d scenarios skipped, %d hang' % (len(scens) - len(res), len(scens), sum(v[0] == 'hang' for v in res.values())))
    if len(res) != len(scens) and not cut:
        raise Machinery('harness %s: %d scenarios, %d traces' % (mode, len(scens), len(res)))
    return res


def retry(bad, tr, first=()):
    """Which rejections to run again: not all, when there are very many."""
    ids = sorted(bad, key=lambda s: (s not in first, tr[s][0] == 'hang'))[:48]
    return {s: bad[s] for s in ids}


def confirm(run, first, second, tr, total):
    """Keep what a second run, alone in its process, shows again.  Losing more
    than stray timeouts that way means the harness is not deterministic."""
    lost = [s for s in first if s not in second and tr[s][0] != 'hang']
    run.count(unconfirmed=len(lost))
    if len(lost) > max(2, total // 50):
        raise Machinery('%d of %d rejections did not repeat, e.g. %s: %s' % (len(lost), len(first), lost[0], first[lost[0]][:600]))
    return second


# ---------------------------------------------------------------- TLC
def tlc(module, cfg, scratch, env=None, workers=NPROC, timeout=800, extra=(), heap='6g', tag='', deadlock=False):
    """Run TLC; returns (output, states, distinct).  cfg: text."""
    d = scratch.path('tlc' + tag + '-' + module)
    os.makedirs(d, exist_ok=True)
    for f in os.listdir(SPEC):
        if f.endswith('.tla'):
            dst = os.path.join(d, f)
            if not os.path.exists(dst):
                os.symlink(os.path.join(SPEC, f), dst)
    cf = os.path.join(d, module + '.run.cfg')
    with open(cf, 'w') as f:
        f.write(cfg)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ['java', '-Djava.io.tmpdir=' + d, '-Xss64m', '-Xmx' + heap, '-XX:+UseParallelGC', '-cp', TLAJARS, 'tlc2.TLC', '-workers', str(workers)] + ([] if deadlock else ['-deadlock']) + [
            '-metadir', os.path.join(d, 'meta'), '-noGenerateSpecTE', '-config', cf] + list(extra) + [module + '.tla']
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=d, env=e, timeout=timeout)
    except subprocess.TimeoutExpired as ex:
        raise Machinery('TLC timed out on ' + module + '\n' + ((ex.stdout or b'').decode()[-500:] if isinstance(ex.stdout, bytes) else str(ex.stdout)[-500:]))
    shutil.rmtree(os.path.join(d, 'meta'), ignore_errors=True)
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', p.stdout)
    if not m:
        m = re.findall(r'(\d+) states checked', p.stdout)
        m = [(x, x) for x in m]
    states, distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    return p.returncode, p.stdout, states, distinct


VRE = re.compile(r'^<<"V", "([^"]*)", "([a-z]+)", (.*)>>$')


def validate(module, recs, scratch, cfg=None, timeout=800, tag='', shards=1):
    """Trace validation: recs are JSON records with an `id`; the module prints
    <<"V", id, verdict, detail>> once per record.
    -> ({id: (verdict, detail)}, states, distinct)"""
    if not recs:
        return {}, 0, 0
    cfg = cfg or 'INIT TraceInit\nNEXT TraceNext\n'
    parts = [recs[i::shards] for i in range(shards)] if shards > 1 else [recs]
    parts = [p for p in parts if p]

    def one(i):
        f = scratch.path('%s%s-%d.ndjson' % (module, tag, i))
        with open(f, 'w') as fh:
            for r in parts[i]:
                fh.write(json.dumps(r) + '\n')
        w = max(1, NPROC // len(parts))
        rc, out, st, di = tlc(module, cfg, scratch, env={'TRACE': f}, workers=w, timeout=timeout, tag='%s%d' % (tag, i),
                              heap='%dg' % max(2, 16 // len(parts)))
        v = {}
        # a verdict may be wrapped over several lines by TLC's pretty printer
        txt = re.sub(r'\n\s+', ' ', out)
        for l in txt.split('\n'):
            m = VRE.match(re.sub(r'<<\s*"V"', '<<"V"', l.strip()).replace('>> >>', '>>>>').rstrip())
            if m:
                v[m.group(1)] = (m.group(2), m.group(3))
        if rc != 0 or len(v) != len(parts[i]):
            raise Machinery('TLC %s rc=%d verdicts %d/%d\n%s' % (module, rc, len(v), len(parts[i]), out[-3000:]))
        return v, st, di
    with ThreadPoolExecutor(len(parts)) as ex:
        rs = list(ex.map(one, range(len(parts))))
    v, st, di = {}, 0, 0
    for a, b, c in rs:
        v.update(a)
        st += b
        di += c
    return v, st, di


# ---------------------------------------------------------------- reporting
class Run:
    """One check run of one property."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        if tier != 'quick':
            global DEADLINE
            DEADLINE = 7200
        self.t0 = time.time()
        self.rng = random.Random('%s-%d' % (prop, seed))
        self.scratch = Scratch()
        self.states = self.transitions = self.traces = 0
        self.samples, self.violations, self.known = [], [], []
        self.notes = {}
        self.bdir = None

    def quick(self):
        return self.tier == 'quick'

    def n(self, quick, thorough):
        return quick if self.quick() else thorough

    def build(self):
        if self.bdir is None:
            t = time.time()
            self.bdir = build()
            self.notes['build_s'] = round(time.time() - t, 1)
        return self.bdir

    def count(self, **kw):
        for k, v in kw.items():
            self.notes[k] = self.notes.get(k, 0) + v

    def violation(self, sid, what, scen=None):
        """what: text; scen: dict written to the replay file"""
        for k in known_findings(self.prop):
            if k['match'](scen, what):
                self.known.append(k['what'])
                return
        d = os.path.join(EVIDENCE, 'replay')
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, '%s-%d.json' % (self.prop, len(self.violations)))
        with open(p, 'w') as f:
            json.dump({'property': self.prop, 'scenario': sid, 'what': what, 'input': scen, 'seed': self.seed,
                       'tier': self.tier}, f, indent=1)
        self.violations.append((p, what))

    def finish(self, assumptions=()):
        cov = {'states': self.states, 'transitions': self.transitions, 'traces_validated_against_impl': self.traces,
               'samples': self.samples[:5]}
        cov.update(self.notes)
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': 'model_checking', 'coverage': cov,
              'assumptions': list(assumptions), 'wall_s': round(time.time() - self.t0, 1), 'violations': len(self.violations)}
        os.makedirs(os.path.join(EVIDENCE), exist_ok=True)
        with open(os.path.join(EVIDENCE, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        self.scratch.close()
        for k in sorted(set(self.known)):
            print('KNOWN-FINDING: property=%s %s' % (self.prop, k))
        for p, w in self.violations[:10]:
            print('  ' + w[:1500])
            print('VIOLATION property=%s replay=%s' % (self.prop, p))
        print('%s %s: %d traces validated, %d states, %.0fs, %d violation(s)' % (
            self.prop, self.tier, self.traces, self.states, time.time() - self.t0, len(self.violations)))
        return 1 if self.violations else 0


def known_findings(prop):
    """Known findings are matched by the exact scenario family they name."""
    f = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(f):
        return []
    r = []
    for k in json.load(open(f)).get('findings', []):
        if k['property'] == prop and k.get('status') == 'known':
            key = k['key']
            r.append({'what': k['what'], 'match': (lambda scen, what, key=key: bool(scen) and scen.get('known') == key)})
    return r
