"""C20: sessions of the real dbg-cli validated against CliSession.  Commands are
fed on standard input; a help text between any two of them separates the answers."""
import os, pty, re, select, struct, subprocess, termios, time
from concurrent.futures import ThreadPoolExecutor
from isa import *
from gen import Prog, INTERESTING, WIDE, FLOATS
from vlib import *
from srcinfo import *
import models
import props_dbg as dbg

ANSI = re.compile(r'\x1b\[[0-9;]*m')
ROW = r'[@ ](?:->|  )(?: {3}\d| {2}\d\d| \d{3}|\d{4,}):[^\n]*\n'
FUN = r'function (?P<fn>\S+) at (?P<fb>\d+)-(?P<fe>\d+)(?:; active variables: (?P<fv>[^\n]*))?\n'
LIST = r'(?:%s)?(?P<rows>(?:%s)*)\Z' % (FUN, ROW)
STOP = re.compile(r'(?:Process stopped, reason: (?P<ev>[^\n]*)\n)?' + LIST)
NOFUN = {'n': '', 'b': -1, 'e': -1, 'vars': []}
MARK = 'help frame'


# ---------------------------------------------------------------- running
def session(exe, file, text, cwd, limit=20):
    """-> (exit code or None if it did not end, what it printed)"""
    m, s = pty.openpty()
    a = termios.tcgetattr(s)
    a[1] &= ~termios.OPOST
    termios.tcsetattr(s, termios.TCSANOW, a)
    env = dict(os.environ, NODBGPROMPT='1', ASAN_OPTIONS='detect_leaks=0:exitcode=77')
    inp = os.path.join(cwd, os.path.basename(file) + '.in')
    with open(inp, 'w', encoding='latin-1') as f:
        f.write(text)
    with open(inp) as fi:
        p = subprocess.Popen([exe] + ([file] if file else []), stdin=fi, stdout=s, stderr=subprocess.DEVNULL, env=env, cwd=cwd)
    os.close(s)
    out, end = b'', time.time() + limit
    while True:
        left = end - time.time()
        if left <= 0 or len(out) > 4000000:
            p.kill()
            break
        r, _, _ = select.select([m], [], [], min(left, 1))
        if r:
            try:
                b = os.read(m, 65536)
            except OSError:
                b = b''
            if not b:
                break
            out += b
    try:
        rc = p.wait(timeout=max(1, end - time.time()))
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        rc = None
    if time.time() >= end or len(out) > 4000000:
        rc = None
    os.close(m)
    return rc, ANSI.sub('', out.decode('latin-1'))


# ---------------------------------------------------------------- answers
def rows(txt):
    """-> (kind, rows) of a listing"""
    rs, kinds = [], set()
    for l in txt.split('\n')[:-1]:
        m = re.match(r'([@ ])(->|  ) *(\d+):(.*)\Z', l)
        body = m.group(4)
        i = parse_ins(body[2:]) if body.startswith('  ') else None
        row = {'n': int(m.group(3)), 'cur': m.group(2) == '->', 'bp': m.group(1) == '@', 'ins': {'op': '?'}, 'x': CODES(body)}
        if i is not None or body == '  ':
            kinds.add('asm')
            row['ins'] = ijson(i) if i else {'op': '?'}
        else:
            kinds.add('src')
        rs.append(row)
    return ('none' if not rs else kinds.pop() if len(kinds) == 1 else 'bad'), rs


def fun(m):
    if not m.group('fn'):
        return dict(NOFUN)
    return {'n': m.group('fn'), 'b': int(m.group('fb')), 'e': int(m.group('fe')), 'vars': m.group('fv').split(', ') if m.group('fv') else []}


# (the frame page separates the commands of a recorded session)
HELP = ['breakpoint', 'istep', 'inext', 'run', 'disassemble', 'assemble', 'continue', 'register', 'memory', 'watchpoint', 'next', 'step', 'finish',
        'source', 'expression']


def bad(s):
    return {'t': 'bad', 's': s[:300]}


def answer(q, txt, usage):
    """What was printed, as a record"""
    if txt.startswith('Error: ') and q['k'] != 'go':
        return {'t': 'error'}
    if 'Use the `run` or `attach` command' in txt:
        return {'t': 'inactive'}
    k = q['k']
    try:
        if k == 'go':
            return stop(txt)
        if k == 'run':
            return {'t': 'started'} if re.fullmatch(r"Started process '[^\n]*'\n", txt) else bad(txt)
        if k == 'attach':
            return {'t': 'ok'} if txt == '' else bad(txt)
        if k in ('help', 'usage'):
            return {'t': 'usage', 'of': txt.split()[0]} if txt.strip() else bad(txt)
        if k == 'loc' or (k == 'nat' and q['q']['k'] in ('bps', 'bpu', 'bpe', 'bpd')):
            m = re.fullmatch(r"Breakpoint (set|removed|enabled|disabled) (?:on|from|at) (address|line) (\d+)(?: \(addr (\d+)\))?(?:: ('?)([^\n]*?)(\5))?\n", txt)
            if not m:
                return bad(txt)
            line = m.group(2) == 'line'
            return {'t': 'bp', 'v': m.group(1), 'a': int(m.group(4) if line else m.group(3)), 'l': int(m.group(3)) if line else 0,
                    'ins': dbg.tins(m.group(6)) if m.group(6) and not line else {'op': '?'}}
        if k == 'bplist':
            l = []
            for x in txt.split('\n')[:-1]:
                m = re.fullmatch(r'addr: (\d+)(?:, line: (\d+))?; (enabled|disabled)(?:; function: (\S+))?', x)
                if not m:
                    return bad(txt)
                l.append({'a': int(m.group(1)), 'l': int(m.group(2) or 0), 'on': m.group(3) == 'enabled', 'f': m.group(4) or ''})
            return {'t': 'bps', 'l': l}
        if k == 'wplist':
            if txt == 'No active watchpoints\n':
                return {'t': 'wps', 'l': []}
            if not re.fullmatch(r'Active watchpoints:\n( - address \d+\n)+', txt):
                return bad(txt)
            return {'t': 'wps', 'l': [int(x) for x in re.findall(r'address (\d+)', txt)]}
        if k == 'regs':
            return {'t': 'regs', 'm': {x.split(':')[0]: word(int(x.split(':')[1])) for x in txt.split('\n')[:-1]}}
        if k in ('dis', 'src'):
            m = re.match(LIST, txt)
            if not m:
                return bad(txt)
            v, rs = rows(m.group('rows'))
            return {'t': 'list', 'v': v, 'fun': fun(m), 'rows': rs}
        if k == 'frame':
            if txt == '':
                return {'t': 'frame', 'fun': dict(NOFUN), 'l': []}
            m = re.match(FUN, txt)
            if not m:
                return bad(txt)
            rest = txt[m.end():]
            at = [x for x in re.finditer(r'^\(([^\n]*?)\) (%s) = ' % '|'.join(v['n'] for v in q['names']), rest, re.M)]
            if rest and (not at or at[0].start()):
                return bad(txt)
            ends = [x.start() for x in at[1:]] + [len(rest)]
            return {'t': 'frame', 'fun': fun(m), 'l': [{'ty': CODES(x.group(1)), 'n': x.group(2), 's': CODES(rest[x.end():e - 1])} for x, e in zip(at, ends)]}
        if k == 'expr':
            m = re.fullmatch(r'\((.*?)\) \$(\d+) = (.*)\n', txt, re.S)
            return {'t': 'show', 'i': int(m.group(2)), 'ty': CODES(m.group(1)), 's': CODES(m.group(3))} if m else bad(txt)
        if k == 'nat':
            n = q['q']['k']
            if n == 'rm' and q['str']:
                # \% and a line end follow, unless the string ends with a line end itself
                b = txt[:-3] if txt.endswith('\\%\n') else txt
                if (b == txt) != (b == '' or b.endswith('\n')):
                    return bad(txt)
                return {'t': 'bytes', 'b': CODES(b)}
            if n == 'rm':
                l = [x.split(':') for x in txt.split('\n')[:-1]]
                return {'t': 'cells', 'n': [int(x[0]) for x in l], 'm': [word(int(x[1])) for x in l]}
            if n == 'reg':
                return {'t': 'num', 'v': word(int(txt))}
            if n == 'freg':
                return {'t': 'num', 'v': dbg.fbits(bits(float(txt)))}
        if txt == '':
            return {'t': 'ok'}
    except (ValueError, IndexError):
        pass
    return bad(txt)


def stop(txt):
    if re.fullmatch(r'Error: [^\n]*\n', txt):
        return {'t': 'error'}
    r = {'t': 'stop', 'a': -1, 'l': 0, 'fun': dict(NOFUN), 'rows': [], 'v': 'none'}
    i = txt.find('Process stopped, reason: Inner CPU error')
    if i >= 0:
        return dict(r, e='err', out=CODES(txt[:i]))
    m = STOP.search(txt)
    if not m:
        return bad(txt)
    r['out'] = CODES(txt[:m.start()])
    r['v'], r['rows'] = rows(m.group('rows'))
    r['fun'] = fun(m)
    ev = m.group('ev')
    if ev is None:
        r['e'] = 'step'
    elif ev == 'The program finished execution':
        r['e'] = 'end'
    else:
        x = re.fullmatch(r'(Software breakpoint hit at (line|address)|Watchpoint triggered at memory (address)) (\d+)', ev)
        if not x:
            return bad(txt)
        r['e'] = 'bp' if ev[0] == 'S' else 'wp'
        r['l' if x.group(2) == 'line' else 'a'] = int(x.group(4))
    return r


# ---------------------------------------------------------------- one scenario
def observe(b, sid, sc, scratch, mark, limit=20):
    d = scratch.path('cli-' + sid)
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, 'prog.t86')
    with open(f, 'w', encoding='latin-1') as fh:
        fh.write(sc['file'])
    text = ''.join(l + '\n' + MARK + '\n' for l, _ in sc['cmds'])
    vm = None
    if sc.get('vm'):
        vo = open(os.path.join(d, 'vm.out'), 'w+b')
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:exitcode=77')
        vm = subprocess.Popen([os.path.join(b, 't86-cli'), f, '--debug'] + sc['vm'], stdin=subprocess.DEVNULL, stdout=vo, stderr=subprocess.DEVNULL, env=env, cwd=d)
        end = time.time() + 15
        while not listening(9110) and vm.poll() is None and time.time() < end:
            time.sleep(.01)
    rc, out = session(os.path.join(b, 'dbg-cli'), f, text, d, limit)
    vout = b''
    if vm:
        try:
            vm.wait(timeout=5)
        except subprocess.TimeoutExpired:
            vm.kill()
            vm.wait()
            rc = 'the VM did not end' if rc == 0 else rc
        vo.seek(0)
        vout = vo.read()
        vo.close()
    return rc, out, list(vout)


def listening(port):
    try:
        return any(l.split()[1].endswith(':%04X' % port) and l.split()[3] == '0A' for l in open('/proc/net/tcp').readlines()[1:])
    except OSError:
        return False


def events(rc, out, vout, cmds, mark):
    segs = out.split(mark)
    ev = []
    for (l, q), s in zip(cmds, segs[:-1]):
        ev.append({'k': 'cmd', 'q': q, 'r': answer(q, s, mark)})
    if len(ev) < len(cmds):
        q = cmds[len(ev)][1]
        if rc is None and q['k'] == 'go':
            ev.append({'k': 'cmd', 'q': q, 'r': {'t': 'hang'}})
        ev.append({'k': 'died', 's': '%s at %s: %s' % (rc, cmds[min(len(ev), len(cmds) - 1)][0], segs[-1][-200:])})
    elif rc is None:
        ev.append({'k': 'died', 's': 'does not end'})
    else:
        ev.append({'k': 'exit', 'code': rc if segs[-1] == '' and isinstance(rc, int) else -1, 'out': vout})
    return ev


def run_cli(run, scens, known=None):
    b = run.build()
    sc = run.scratch
    os.makedirs(sc.path('cli0'), exist_ok=True)
    rc, mark = session(os.path.join(b, 'dbg-cli'), '', MARK + '\n', sc.path('cli0'))
    if rc != 0 or len(mark) < 5:
        run.violation('start', 'dbg-cli cannot be started: exit %s, printed %r' % (rc, mark[:300]), {'mode': 'cli', 'file': '', 'cmds': [MARK]})
        return
    todo = list(scens)
    verdicts = {}
    for tag, limit in (('a', 12), ('b', 40)):
        with ThreadPoolExecutor(NPROC) as ex:
            loc = [s for s in todo if not scens[s].get('vm')]
            obs = dict(zip(loc, ex.map(lambda s: observe(b, s, scens[s], sc, mark, limit), loc)))
        for s in todo:
            if s not in obs:        # one at a time: the port is fixed
                obs[s] = observe(b, s, scens[s], sc, mark, limit)
        recs = [dict(scens[s]['rec'], ev=events(*obs[s], scens[s]['cmds'], mark)) for s in todo]
        v, st, di = validate('CliTrace', recs, sc, tag=tag)
        if tag == 'a':
            run.states += di
            run.transitions += st
            run.traces += sum(1 for x in v.values() if x[0] in ('ok', 'bad'))
            run.count(undefined=sum(1 for x in v.values() if x[0] == 'undef'), unbounded=sum(1 for x in v.values() if x[0] == 'long'),
                      commands=sum(len(r['ev']) for r in recs))
            for r in recs:
                for e in r['ev']:
                    if e['k'] == 'cmd':
                        run.count(**{'n_%s%s' % (e['q']['k'], '_rejected' if e['r']['t'] == 'error' else ''): 1})
            for s in todo:
                if v[s][0] == 'ok' and len(run.samples) < 3:
                    run.samples.append({'id': s, 'commands': [l for l, _ in scens[s]['cmds']][:60], 'verdict': 'accepted ' + v[s][1]})
        verdicts = {s: x[1] for s, x in v.items() if x[0] == 'bad'}
        todo = list(verdicts)
        if not todo:
            return
    for s, d in list(verdicts.items())[:20]:
        run.violation(s, '%s: recorded dbg-cli session is not a behaviour of the specification: %s' % (s, d[:900]),
                      {'mode': 'cli', 'file': scens[s]['file'], 'cmds': [l for l, _ in scens[s]['cmds']], 'printed': obs[s][1][-6000:],
                       'known': known[s](obs[s]) if known and s in known else None})


# ---------------------------------------------------------------- generation
GO = {'cont': ['c', 'cont', 'continue'], 'si': ['is', 'istep'], 'so': ['in', 'inext'], 'sin': ['s', 'step'], 'sov': ['n', 'next'], 'sout': ['fin', 'finish']}
BPV = {'bps': (['set', 's'], ['iset', 'is'], 'set'), 'bpu': (['remove', 'rem', 'unset', 'un'], ['iremove', 'irem', 'iunset'], 'removed'),
       'bpe': (['enable', 'en'], ['ienable', 'ie'], 'enabled'), 'bpd': (['disable', 'dis'], ['idisable', 'id'], 'disabled')}
JUNK = ['x', '5x', '-1', '1.5', '0x10', '99999999999999999999999', '+3', '1,2']


class Session:
    def __init__(self, r, sid):
        self.r = r
        self.sid = sid
        while True:
            self.p = p = dbg.anyprog(r, faults=r.choice([0, 0, .03])) if r.random() < .6 else dbg.CallProg(r, ram=40).generate()
            if not any(i['op'] == 'GETCHAR' for i in p.code):
                break
        self.info = Info(r, p) if p.ram >= 40 and r.random() < .7 else None
        self.lines = dbg.linemap(p, r) if r.random() < .7 else []
        top = max([l for l, _ in self.lines] or [0])
        self.hassrc = bool(self.lines) and r.random() < .85
        self.src = [r.choice(['', '    ', ' ', '\t']) + r.choice(['int x = %d;', 'f(%d);', '', '}', '// NOP %d', 'return %d; /* 3: */', 'a[%d] = "s  t";']).replace('%d', str(k))
                    for k in range(max(1, top + r.choice([1, 1, 3, -1])))] if self.hassrc else []
        if self.hassrc and not self.src[-1].strip():
            self.src[-1] = '}'
        self.cmds = []
        self.bk, self.wk = set(), set()
        self.runs = 0
        self.names = sorted({v['name'] for v in self.info.vars}) if self.info else []
        self.vt = [{'n': n, 'ts': tokens(n)} for n in self.names]
        self.g = ExprGen(self.info, r) if self.info else None

    # -- text of a command
    def add(self, words, q, raw=False):
        r = self.r
        if isinstance(words, str):
            words = [words]
        sp = ' ' if raw or r.random() < .8 else '  '
        t = sp.join(words)
        if not raw and r.random() < .1:
            t = ' ' + t + '  '
        self.cmds.append((t, q))

    def go(self, k):
        self.add(self.r.choice(GO[k]), {'k': 'go', 'c': k})

    def nat(self, words, c, **kw):
        self.add(words, dict({'k': 'nat', 'q': dbg.parse_cmd(c), 'verb': '', 'str': False}, **kw))

    def bad(self, *words):
        self.add(list(words), {'k': 'bad'})

    def b(self):
        return self.r.choice(['b', 'br', 'breakpoint'])

    def run(self):
        r, p = self.r, self.p
        o = {'--reg-count': r.choice([p.nr, p.nr, max(8, p.nr), max(10, p.nr)]), '--float-reg-count': r.choice([p.nf, p.nf, max(4, p.nf)]) or 1,
             '--data-size': p.ram if r.random() < .93 else p.ram + 7}
        if p.data and r.random() < .04:
            o['--data-size'] = len(p.data) - 1
        d = {'--reg-count': 8, '--float-reg-count': 4, '--data-size': 1024}
        w = [r.choice(['r', 'run'])]
        for k in r.sample(list(o), 3):
            if r.random() < (.97 if k == '--data-size' else .8) or (d[k] < o[k]):
                w.append('%s=%d' % (k, o[k]))
                d[k] = o[k]
        self.add(w, {'k': 'run', 'nr': d['--reg-count'], 'nf': d['--float-reg-count'], 'ram': d['--data-size']})
        self.runs += 1

    def bp(self):
        r = self.r
        c = dbg.bpcmd(self.p, r, self.bk).split()
        line, inst, verb = BPV[c[0]]
        if r.random() < .04:
            return self.bad(self.b(), r.choice(inst), r.choice(JUNK))
        self.nat([self.b(), r.choice(inst), c[1]], ' '.join(c), verb=verb)

    def loc(self):
        r = self.r
        k = r.choice(['bps', 'bps', 'bpu', 'bpe', 'bpd', 'bpd'])
        q = {'k': 'loc', 'v': k, 'verb': BPV[k][2], 'num': True, 'l': 0, 'n': ''}
        if self.info and r.random() < .35:
            q.update(num=False, n=r.choice(FUNCS + ['nosuch', 'ma']))
        else:
            far = [l for l, a in self.lines if a >= len(self.p.code)]
            q['l'] = r.choice(far) + 1 if far and r.random() < .3 else r.choice(self.lines)[0] + 1 if self.lines and r.random() < .85 else r.choice([0, 1, 2, 5, 100])
        self.add([self.b(), r.choice(BPV[k][0]), q['n'] or str(q['l'])], q)

    def wp(self):
        r = self.r
        c = dbg.wpcmd(self.p, r, self.wk).split()
        w = r.choice(['w', 'watch', 'watchpoint'])
        s = r.choice(['iset', 'is'] if c[0] == 'wps' else ['irem', 'ir'])
        if r.random() < .04:
            return self.bad(w, s, r.choice(JUNK))
        self.nat([w, s, c[1]], ' '.join(c))

    def poke(self):
        r = self.r
        c = dbg.poke(self.p, r).split()
        if c[0] == 'sreg':
            if r.random() < .1:
                return self.bad('reg', 'set', c[1], r.choice(['x', '5x', '1.5', '0x10', '99999999999999999999999']))
            self.nat(['reg', 'set', c[1], c[2]], ' '.join(c))
        elif c[0] == 'sfreg':
            if r.random() < .1:
                return self.bad('reg', 'fset', c[1], r.choice(['x', '1.5x', '1,5']))
            v = struct.unpack('<d', struct.pack('<Q', int(c[2]) & M64))[0]
            if v == v and abs(v) != float('inf'):
                self.nat(['reg', 'fset', c[1], repr(v)], ' '.join(c))
        else:
            m = r.choice(['m', 'mem', 'memory'])
            if r.random() < .1:
                return self.bad(m, 'set', *r.choice([[r.choice(JUNK), '1'], [c[1], r.choice(['x', '5x', '1.5', '0x10'])], [c[1], '1', 'y']]))
            if r.random() < .25:
                return self.string(m, int(c[1]))
            self.nat([m, 'set'] + c[1:], ' '.join(c))

    def look(self):
        r, p = self.r, self.p
        n = len(p.code)
        x = r.randrange(16)
        if x < 2:
            self.add([self.b(), r.choice(['list', 'l'])], {'k': 'bplist'})
        elif x < 4:
            self.add([r.choice(['w', 'watch']), r.choice(['list', 'l'])], {'k': 'wplist'})
        elif x == 4:
            self.add(r.choice(['reg', 'register']), {'k': 'regs'})
        elif x == 5:
            c = dbg.look(p, r)
            while c.split()[0] not in ('reg', 'freg'):
                c = dbg.look(p, r)
            self.nat(['reg', {'reg': 'get', 'freg': 'fget'}[c.split()[0]], c.split()[1]], c)
        elif x < 8:
            a = r.randrange(p.ram + 1)
            k = r.randint(0, p.ram - a) if r.random() < .9 else p.ram - a + 1
            if r.random() < .3:
                a = r.randrange(p.lim)
                k = min(k, r.randint(0, 8))
                self.nat(['m', r.choice(['gets', 'getstr']), str(a), str(k)], 'rm %d %d' % (a, k), str=True)
            else:
                self.nat(['m', 'get', str(a), str(k)], 'rm %d %d' % (a, k))
        elif x == 8:
            self.add(r.choice(['d', 'disas', 'disassemble']), {'k': 'dis', 'm': 'here'})
        elif x == 9:
            a = r.randrange(n + 1)
            k = r.choice([-1, 0, r.randint(0, n - a), n - a, n - a + 1])
            self.add(['disas', 'from', str(a)] + ([str(k)] if k >= 0 else []), {'k': 'dis', 'm': 'from', 'lo': a, 'n': k})
        elif x == 10:
            a, b = r.randrange(n + 1), r.randrange(n + 1)
            if a > b and r.random() < .8:
                a, b = b, a
            self.add(['disas', r.choice(['range', 'r']), str(a), str(b)], {'k': 'dis', 'm': 'range', 'lo': a, 'hi': b})
        elif x == 11:
            f = r.choice(FUNCS + ['nosuch', 'ma'])
            self.add(['disas', r.choice(['function', 'fun']), f], {'k': 'dis', 'm': 'fun', 'f': f})
        elif x == 12:
            self.add(['source'], {'k': 'src', 'm': 'here'})
        elif x == 13:
            a = r.randint(0, len(self.src) + 2)
            k = r.choice([-1, 0, 1, 3, 100, 1000000])
            self.add([r.choice(['source', 'so']), r.choice(['from', 'f']), str(a)] + ([str(k)] if k >= 0 else []), {'k': 'src', 'm': 'from', 'lo': a, 'n': k})
        else:
            self.add(r.choice(['frame', 'fr']), {'k': 'frame', 'names': self.vt})

    def odd(self):
        r = self.r
        x = r.randrange(5)
        if x == 0:
            c = r.choice(['', 'nosuch'] + HELP)
            n = r.choice(sorted(k for k in range(1, len(c) + 1) if [h for h in HELP if h.startswith(c[:k])] == [c]) or [len(c)])
            self.add([r.choice(['h', 'help'])] + ([c[:n]] if c else []), {'k': 'help', 'of': c if c in HELP else '<command>'})
        elif x == 1:
            self.add(r.choice([['foo'], ['b'], ['b', 'iset'], ['b', 'foo', '1'], ['w'], ['w', 'iset'], ['m'], ['m', 'get', '1'], ['m', 'set', '1'], ['reg', 'foo'],
                               ['reg', 'set', 'R0'], ['disas', 'foo'], ['as'], ['as', 'interactive'], ['source', 'foo'], ['e'], ['step', '2'], ['istep', 'x'],
                               ['next', 'x'], ['finish', 'x'], ['in', '3'], ['b', 'set']]), {'k': 'usage'})
        elif x == 2:
            self.bad(*r.choice([['disas', 'from', 'x'], ['disas', 'range', '0', 'x'], ['disas', 'range', 'y', '1'], ['as', 'interactive', 'x'], ['source', 'from', 'x'],
                                ['m', 'get', 'x', '1'], ['m', 'get', '0', '1x'], ['m', 'gets', '0', '-1'], ['b', 'set', '5x'], ['b', 'en', 'no', 'such'],
                                ['m', 'sets', '0', 'abc'], ['m', 'sets', '0', '"abc'], ['m', 'sets', '0', '"a\\q"'], ['m', 'sets', 'x', '"a"'], ['reg', 'get', 'R0x'],
                                ['reg', 'set', 'R1x', '1'], ['reg', 'fget', 'F0x']]))
        elif x == 3:
            self.add(r.choice([['attach'], ['attach', 'x'], ['attach', '1'], ['att', '1', '2']]), {'k': 'noattach'})
        else:
            self.add('  ', {'k': 'blank'})
            self.cmds.pop()

    def assemble(self):
        r = self.r
        c = 'GETCHAR'
        while 'GETCHAR' in c:           # would read the commands
            c = dbg.wtcmd(self.p, r)
        k, a, body = c.split(' ', 2)
        self.add('%s %s %s\n%s\n' % (r.choice(['as', 'assemble']), r.choice(['int', 'interactive']), a, body.replace(';', '\n')),
                 {'k': 'nat', 'q': dbg.parse_cmd(c), 'verb': '', 'str': False}, raw=True)

    def string(self, m, a):
        r = self.r
        e = [(x, ord(x)) for x in 'aabc  XYZ,.!#;'] + [('\\n', 10), ('\\n', 10), ('\\t', 9), ('\\t', 9), ('\\0', 0)]
        if r.random() < .6:
            a = r.randrange(max(1, self.p.lim - 5))
        t = [r.choice(e) for _ in range(r.choice([0, 1, 2, 3, 4, 5, 8]))]
        v = [x[1] for x in t] + [0]
        if a + len(v) > self.p.lim and a + len(v) <= self.p.ram and r.random() < .9:
            return
        self.add('%s %s %d "%s"' % (m, r.choice(['sets', 'setstr']), a, ''.join(x[0] for x in t)),
                 {'k': 'nat', 'q': {'k': 'sm', 'a': a, 'v': [word(x) for x in v]}, 'verb': '', 'str': False}, raw=True)
        if r.random() < .8 and a + len(v) <= self.p.ram:
            k = r.randint(0, len(v))
            if r.random() < .7:
                self.nat([m, r.choice(['gets', 'getstr']), str(a), str(k)], 'rm %d %d' % (a, k), str=True)
            else:
                self.nat([m, 'get', str(a), str(k)], 'rm %d %d' % (a, k))

    def expr(self):
        r = self.r
        if not self.g:
            return
        if r.random() < .3:
            for c in self.info.contents():
                c = c.split()
                if c[0] == 'sm':
                    self.nat(['m', 'set'] + c[1:], ' '.join(c))
        for _ in range(r.randint(1, 3)):
            t = (self.g.assign() if r.random() < .3 else self.g.expr()).strip()
            if not t or '"' in t or '\n' in t:
                continue
            self.g.old += 1
            self.add('%s %s' % (r.choice(['e', 'expr', 'p', 'print']), t), {'k': 'expr', 'ts': tokens(t)}, raw=True)

    def attach(self):
        self.add([self.r.choice(['at', 'att', 'attach']), '9110'], {'k': 'attach', 'nr': 10, 'nf': 4, 'ram': 1024})
        self.runs += 1

    def lists(self):
        self.add([self.b(), 'list'], {'k': 'bplist'})
        self.add(['w', 'list'], {'k': 'wplist'})

    def generate(self, attach=False):
        r = self.r
        for _ in range(r.choice([0, 0, 1, 3])):
            r.choice([self.bp, self.wp, self.look, self.odd, lambda: self.go(r.choice(list(GO)))])()
        flavour = r.choice(['bp', 'mix', 'mix', 'src'])
        for k in range(r.choice([1, 2, 2, 3]) if not attach else r.choice([1, 1, 2])):
            (self.attach if attach and not k else self.run)()
            for _ in range(r.randint(2, 9)):
                for _ in range(r.choice([0, 1, 2, 3])):
                    x = r.random()
                    if x < .3:
                        (self.loc if flavour == 'src' and r.random() < .6 or r.random() < .2 else self.bp)()
                        if r.random() < .25:
                            self.lists()
                    elif x < .42:
                        self.wp()
                        if r.random() < .3:
                            self.lists()
                    elif x < .72:
                        self.look()
                    elif x < .79:
                        self.poke()
                    elif x < .84:
                        self.odd()
                    elif x < .88:
                        self.assemble()
                    else:
                        self.expr()
                self.go(r.choice(['cont', 'cont', 'si', 'so'] + (['sin', 'sov'] if self.lines else []) + ['sout'] * (r.random() < .3)))
            if r.random() < .7:
                for _ in range(r.randint(1, 8)):
                    self.go('cont')
            for _ in range(r.randint(0, 3)):
                self.look()
        return self

    def scenario(self):
        r, p = self.r, self.p
        parts = []
        t = ['.text'] + ['%d %s' % (k, itext(i)) for k, i in enumerate(p.code)]
        parts.append(t)
        if p.data:
            parts.append(['.data', ' '.join(str(d) for d in p.data)])
        if self.lines:
            parts.append(['.debug_line'] + ['%d: %d' % x for x in self.lines])
        if self.info:
            parts.append(['.debug_info'] + emit(self.info.die, r))
        r.shuffle(parts)
        if self.hassrc:
            parts.append(['.debug_source'] + self.src)
        rec = {'id': self.sid, 'prog': [ijson(i) for i in p.code], 'data': [word(d) for d in p.data], 'lines': [{'l': a, 'a': b} for a, b in self.lines],
               'die': self.info.die if self.info else {'tag': 'none'}, 'order': [{'n': n, 'nc': CODES(n)} for n in self.info.order] if self.info else [],
               'src': [CODES(x) for x in self.src], 'hassrc': self.hassrc, 'loads': True, 'strict': False}
        return {'file': '\n'.join(x for q in parts for x in q), 'cmds': self.cmds, 'rec': rec}


def cli_model(run, s, limit):
    """Adds the sessions TLC finds in CliModel: every transition of the graph
    of small sessions with re-runs."""
    r = run.rng
    items, recs = [], []
    for f in (models.loop_prog, models.call_prog, models.fault_prog, models.self_prog, models.loop_prog) * run.n(1, 3):
        p = f(r)
        x = Session(r, 'g')
        x.p, x.info, x.hassrc, x.src = p, None, False, []
        x.lines = [(2 * k, a) for k, a in enumerate(sorted(r.sample(range(len(p.code)), 3)))]
        x.bk, x.wk, x.cmds = set(), set(), []
        o = 'run --data-size=%d' % p.ram
        for _ in range(1):
            x.add(o, {'k': 'run', 'nr': 8, 'nf': 4, 'ram': p.ram}, raw=True)
        a, far = r.randrange(1, len(p.code)), len(p.code) + r.choice([0, 3])
        for c, q, verb in (('iset', 'bps', 'set'), ('idisable', 'bpd', 'disabled'), ('ienable', 'bpe', 'enabled'), ('iremove', 'bpu', 'removed')):
            x.nat(['b', c, str(a)], '%s %d' % (q, a), verb=verb)
        l = r.choice(x.lines)[0]
        if r.random() < .5:
            x.add('b set %d' % (l + 1), {'k': 'loc', 'v': 'bps', 'verb': 'set', 'num': True, 'l': l + 1, 'n': ''}, raw=True)
        else:
            x.nat(['b', 'iset', str(far)], 'bps %d' % far, verb='set')
        m = r.choice([1, 2, 3])
        x.nat(['w', 'iset', str(m)], 'wps %d' % m)
        if r.random() < .5:
            x.nat(['w', 'irem', str(m)], 'wpr %d' % m)
        x.go('cont')
        x.go(r.choice(['si', 'so', 'sov', 'sin', 'sout']))
        if r.random() < .5:
            x.add('b foo', {'k': 'usage'}, raw=True)
        alphabet, x.cmds = x.cmds, []
        sc = x.scenario()
        items.append((x, sc, alphabet))
        recs.append(dict(sc['rec'], cmds=[q for _, q in alphabet], depth=run.n(5, 7)))
    for n, (i, h) in enumerate(models.graph(run, recs, limit, 'CliModel', 'PROPERTY Keeps\nPROPERTY Refuses\nPROPERTY Fresh\n')):
        x, sc, alphabet = items[i]
        x.cmds = []
        for c in h:
            x.cmds.append(alphabet[c - 1])
            if r.random() < .3:
                x.lists()
        x.lists()
        for _ in range(r.choice([0, 1, 2])):
            x.go('cont')
        sid = 'g%d' % n
        s[sid] = dict(sc, cmds=x.cmds, rec=dict(sc['rec'], id=sid))


def C20(run):
    r = run.rng
    s = {}
    for k in range(run.n(350, 6000)):
        s['d%d' % k] = Session(r, 'd%d' % k).generate().scenario()
    cli_model(run, s, run.n(150, 4000))
    # strings in memory
    for k in range(run.n(12, 150)):
        x = Session(r, 's%d' % k)
        x.p = Prog(r, nr=3, nf=0, ram=30)
        x.p.code = [ins('MOV', R(0), I(1)), ins('MOV', M(o=1), R(0)), ins('HALT')]
        x.p.data, x.info, x.lines, x.hassrc, x.src, x.p.lim = [r.choice([10, 65, 32, 0]) for _ in range(8)], None, [], False, [], 30
        x.cmds = []
        x.add('run --reg-count=3 --data-size=30', {'k': 'run', 'nr': 3, 'nf': 4, 'ram': 30}, raw=True)
        for _ in range(18):
            x.string(r.choice(['m', 'mem', 'memory']), r.randint(0, 28))
        x.nat(['m', 'get', '0', '30'], 'rm 0 30')
        s['s%d' % k] = x.scenario()
    # attaching to a t86-cli that waits for a debugger
    if not listening(9110):
        for k in range(run.n(5, 150)):
            y = Session(r, 't%d' % k)
            while y.p.nr > 10 or y.p.nf > 4:
                y = Session(r, 't%d' % k)
            x = s['t%d' % k] = y.generate(True).scenario()
            x['vm'] = ['--register-cnt', '10', '--float-register-cnt', '4', '--memory-size', '1024']
    else:
        run.notes['attach_skipped'] = 'port 9110 is in use'
    # files that cannot be loaded
    for k in range(run.n(6, 60)):
        x = Session(r, 'm%d' % k).generate().scenario()
        x['file'] = r.choice([lambda f: f.replace('.text\n', '.text\n0 FOO R1\n', 1), lambda f: '@ ' + f, lambda f: '.debug_line\n1: x\n' + f,
                              lambda f: f.replace('.text\n', '.debug_info\nDIE_x: {\n.text\n', 1)])(x['file'])
        x['rec']['loads'] = False
        s['m%d' % k] = x
    # a program that is run again with a disabled breakpoint
    x = Session(r, 'rerun-disabled')
    x.p = Prog(r, nr=3, nf=0, ram=8)
    x.p.code = [ins('MOV', R(0), I(1)), ins('MOV', R(1), I(2)), ins('HALT')]
    x.p.data, x.info, x.lines, x.hassrc, x.src = [], None, [], False, []
    x.run()
    x.cmds = []
    rq = {'k': 'run', 'nr': 3, 'nf': 4, 'ram': 8}
    x.add('run --reg-count=3 --data-size=8', rq, raw=True)
    x.nat(['b', 'iset', '1'], 'bps 1', verb='set')
    x.nat(['b', 'idisable', '1'], 'bpd 1', verb='disabled')
    x.add('run --reg-count=3 --data-size=8', rq, raw=True)
    x.add('disas from 0', {'k': 'dis', 'm': 'from', 'lo': 0, 'n': -1}, raw=True)
    s['rerun-disabled'] = x.scenario()
    s['rerun-disabled']['rec']['strict'] = True
    run_cli(run, s, known={'rerun-disabled': lambda o: o[0] == 0 and '@     1:  \n' in o[1] and 'rerun-disabled'})


CHECKS = {'C20': C20}
