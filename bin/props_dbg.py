"""C08..C12: debugger sessions (Native, Source) validated against DebugSession."""
import re
import models
from isa import *
from gen import Prog, mkscen, rndcfg, INTERESTING, WIDE, FLOATS
from vlib import *

RES = ('cont', 'si', 'so', 'sout', 'sin', 'sov')
NANS = 0x7ff8000000000000


def fbits(v):
    v &= M64
    if (v & 0x7ff0000000000000) == 0x7ff0000000000000 and v & 0xfffffffffffff:
        v = NANS
    return word(v)


def tins(t):
    i = parse_ins(t)
    return ijson(i) if i else {'op': '?' + t[:60]}


def num(t):
    """TLC's integers are small; all addresses from here on are outside everything"""
    return min(int(t), 10**9)


HUGE = [2**64 - 1, 2**64 - 2, 2**63, 2**63 - 1, 2**32, 10**9]


def parse_cmd(s):
    c = s.split(' ')
    k = c[0]
    q = {'k': k}
    if k in ('bps', 'bpu', 'bpe', 'bpd', 'wps', 'wpr', 'a2l'):
        q['a'] = num(c[1])
    elif k in ('lbs', 'lbu', 'lbe', 'lbd', 'l2a'):
        q['l'] = int(c[1])
    elif k in ('rt', 'rm'):
        q.update(a=num(c[1]), n=num(c[2]))
    elif k == 'sm':
        q.update(a=num(c[1]), v=[word(int(x)) for x in c[2:]])
    elif k == 'wt':
        body = s.split(' ', 2)[2]
        its = [x for x in body.split(';') if x != '']
        ps = [parse_ins(x) for x in its]
        ok = all(p is not None and valid_ins(p) for p in ps)
        q.update(a=num(c[1]), ok=ok, ins=[ijson(p) if ok else 0 for p in ps])
    elif k in ('reg', 'freg'):
        q['r'] = c[1]
    elif k == 'sreg':
        q.update(r=c[1], v=word(int(c[2])))
    elif k == 'sfreg':
        q.update(r=c[1], v=fbits(int(c[2])))
    elif k == 'sab':
        q['l'] = [{'a': int(x.split(':')[0]), 'on': x.endswith(':1')} for x in c[1:]]
    elif k == 'saw':
        q['l'] = [int(x) for x in c[1:]]
    elif k not in RES + ('ts', 'ip'):
        raise Machinery('unknown command ' + s)
    return q


ARITY = {}
for _o in ['NOP', 'HALT', 'BREAK', 'BKPT', 'RET']:
    ARITY[_o] = 0
for _o in CONDJ + UN + ['JMP', 'CALL', 'PUSH', 'POP', 'FPUSH', 'FPOP', 'PUTCHAR', 'PUTNUM', 'GETCHAR']:
    ARITY[_o] = 1
for _o in BIN + FBIN + ['MOV', 'LEA', 'CMP', 'FCMP', 'LOOP', 'EXT', 'NRW']:
    ARITY[_o] = 2


def valid_ins(i):
    """Generated texts are either documented instructions or plainly broken:
    wrong mnemonic, operand count, or an immediate where a register must be."""
    n = (i['a']['k'] != 'N') + (i['b']['k'] != 'N')
    if ARITY.get(i['op']) != n:
        return False
    if i['op'] in BIN + UN + ['MOV', 'CMP', 'LEA', 'POP', 'LOOP'] and i['a']['k'] in ('I', 'D'):
        return False
    return True


def parse_res(k, s):
    try:
        if k in RES:
            e = s.split(' ')
            return {'t': 'ev', 'e': e[0], 'a': int(e[1]) if len(e) > 1 else -1}
        if k in ('reg', 'ip', 'ts', 'lbs', 'lbu', 'lbe', 'lbd'):
            return {'t': 'num', 'v': word(int(s))}
        if k == 'freg':
            return {'t': 'num', 'v': fbits(int(s))}
        if k in ('a2l', 'l2a'):
            return {'t': 'none'} if s == '-' else {'t': 'num', 'v': word(int(s))}
        if k == 'rt':
            return {'t': 'text', 'ins': [tins(x) for x in s.split(';') if x]}
        if k == 'rm':
            return {'t': 'mem', 'm': [word(int(x)) for x in s.split()]}
        if s == 'ok':
            return {'t': 'ok'}
    except (ValueError, IndexError):
        pass
    return {'t': 'bad', 's': s[:200]}


def parse_dbg(status, lines, parse_cmd=parse_cmd, parse_res=parse_res):
    ev, st, cmd, fin = [], {}, None, {}
    for l in lines:
        k, _, v = l.partition(' ')
        if k == '>':
            if cmd is not None:
                raise Machinery('command without result: ' + cmd)
            cmd = v
        elif k in ('=', '!', '!!'):
            if cmd is None:
                if l != '= begin':
                    ev.append({'k': 'died', 's': 'first event ' + v})
                continue
            name = cmd.split(' ')[0]
            res = parse_res(name, v) if k == '=' else {'t': 'error'} if k == '!' else {'t': 'exception', 's': v[:200]}
            ev.append({'k': 'cmd', 'q': parse_cmd(cmd), 'res': res})
            cmd = None
        elif k == 'state':
            d = {}
            regs = dict(x.split(':') for x in st['regs'].split())
            d['pc'] = word(int(regs.pop('IP')))
            d['regs'] = {r: word(int(x)) for r, x in regs.items()}
            d['fregs'] = {x.split(':')[0]: fbits(int(x.split(':')[1])) for x in st['fregs'].split()}
            d['mem'] = [word(int(x)) for x in st['mem'].split()]
            d['text'] = [tins(x) for x in st['text'].split(';') if x]
            d['bp'] = [{'a': int(x.split(':')[0]), 'on': x.endswith(':1')} for x in st['bps'].split()]
            d['wp'] = [int(x) for x in st['wps'].split()]
            d['out'] = list(bytes.fromhex(st['out']))
            ev.append(dict(d, k='see'))
        elif k == 'ret':
            fin = {'k': 'fin', 'ret': v == 'true'}
        elif fin and k == 'out':
            fin['out'] = list(bytes.fromhex(v))
            ev.append(fin)
        else:
            st[k] = v
    if status != 'ok':
        if status == 'hang' and cmd and cmd.split(' ')[0] in RES:
            ev.append({'k': 'cmd', 'q': parse_cmd(cmd), 'res': {'t': 'hang'}})     # right if the program never stops
        ev.append({'k': 'died', 's': '%s in %s' % (status, cmd)})
    return ev


def run_dbg(run, scens, batch=20, limit=8, known=None, module='DebugSessionTrace', conv=parse_dbg):
    b = run.build()
    tr = run_harness(b, 'dbg', [(s, l) for s, (l, _) in scens.items()], run.scratch, batch=batch, limit=limit)
    scens = {s: x for s, x in scens.items() if s in tr}
    bad = _judge(run, scens, tr, 'a', module, conv)
    if bad:
        bad = retry(bad, tr, known or ())
        again = list(bad)
        tr2 = run_harness(b, 'dbg', [(s, scens[s][0]) for s in again], run.scratch, batch=1, limit=25, tag='r')
        bad = confirm(run, bad, _judge(run, {s: scens[s] for s in again}, tr2, 'b', module, conv), tr, len(scens))
    for s, d in list(bad.items())[:20]:
        run.violation(s, '%s: recorded session is not a behaviour of the specification: %s' % (s, d[:900]),
                      {'mode': 'dbg', 'lines': scens[s][0], 'observed': tr[s], 'known': known[s](tr[s]) if known and s in known else None})
    return bad


def _judge(run, scens, tr, tag, module, conv):
    recs = []
    for sid, (lines, rec) in scens.items():
        r = dict(rec)
        r['ev'] = conv(*tr[sid])
        recs.append(r)
    v, st, di = validate(module, recs, run.scratch, tag=tag)
    if tag == 'a':
        run.states += di
        run.transitions += st
        run.traces += sum(1 for x in v.values() if x[0] in ('ok', 'bad'))
        run.count(undefined=sum(1 for x in v.values() if x[0] == 'undef'), unbounded=sum(1 for x in v.values() if x[0] == 'long'),
                  events=sum(len(r['ev']) for r in recs))
        for r in recs:
            for e in r['ev']:
                if e['k'] == 'cmd':
                    q = 'n_' + e['q']['k'] + ('' if e['res']['t'] != 'error' else '_rejected')
                    run.count(**{q: 1})
    for s, (l, r) in scens.items():
        if v[s][0] == 'ok' and len(run.samples) < 3:
            run.samples.append({'id': s, 'scenario': [' '.join(x) for x in l], 'verdict': 'accepted ' + v[s][1]})
    return {s: tr[s][0] + ' | ' + x[1] for s, x in v.items() if x[0] == 'bad'}


def dbgscen(sid, p, script, cfg, lines=(), extra=(), blind=False):
    l, rec = mkscen(sid, p.code, p.nr, p.nf, p.ram, p.data, p.inp, cfg)
    for k in ('ir', 'ifr', 'im', 'ifl'):
        rec.pop(k)
    rec['blind'] = blind
    rec['die'], rec['order'] = {'tag': 'none'}, []
    rec['lines'] = [{'l': a, 'a': b} for a, b in lines]
    if lines:
        l.append(('src', '.debug_line'))
        l += [('src', '%d: %d' % x) for x in lines]
    l += [('src', x) for x in extra]
    return l + [('cmd', c) for c in script], rec


class CallProg(Prog):
    """Programs of functions that call each other, with and without frames,
    with recursion (in functions that save BP)."""

    def __init__(self, rng, **kw):
        o = dict(nr=rng.randint(5, 7), nf=1, ram=rng.choice([32, 40]), memory=.3, floats=.05, io=.08, calls=0, loops=.05, branchy=.15, stack=.08)
        if rng.random() < .05:
            o.update(nr=rng.choice([9, 10, 11, 12, 17]), nf=rng.choice([1, 4, 11]), ram=rng.choice([40, 70, 130, 260]))
        o.update(kw)
        super().__init__(rng, **o)
        self.lim = 10
        self.loopregs = ['R2']      # the recursion counter
        self.usedctr = {'R2'}

    def counters(self):
        return []       # no loops: functions share registers

    def generate(self):
        r = self.rng
        n = r.randint(1, 4)
        fs = [{'frame': r.random() < .6, 'rec': False, 'calls': []} for _ in range(n)]
        for f in fs:
            f['rec'] = f['frame'] and r.random() < .5
        fix = []

        def call(i):
            fix.append((self.emit(ins('CALL', I(0))), i))
        self.funcs = None
        for i in range(r.randint(1, 3)):
            self.block(r.randint(0, 2))
            self.emit(ins('MOV', R(2), I(r.randint(0, 3))))
            call(r.randrange(n))
            if r.random() < .3:
                call(r.randrange(n))
        self.block(r.randint(0, 2))
        self.emit(ins('HALT'))
        for i, f in enumerate(fs):
            f['at'] = len(self.code)
            if f['frame']:
                self.emit(ins('PUSH', R('BP')))
                self.emit(ins('MOV', R('BP'), R('SP')))
            self.block(r.randint(0, 2))
            if f['rec']:
                self.emit(ins('DEC', R(2)))
                self.emit(ins('CMP', R(2), I(0)))
                j = self.emit(ins('JLE', I(0)))
                call(i)
                self.block(r.randint(0, 1))
                if r.random() < .3:
                    self.emit(ins('DEC', R(2)))
                    self.emit(ins('CMP', R(2), I(0)))
                    j2 = self.emit(ins('JL', I(0)))
                    call(i)
                    self.code[j2]['a'] = I(len(self.code))
                self.code[j]['a'] = I(len(self.code))
            if i + 1 < n and r.random() < .6:
                call(r.randrange(i + 1, n))
                if r.random() < .3:
                    self.emit(ins('MOV', R(2), I(1)))
                    call(r.randrange(i + 1, n))
            self.block(r.randint(0, 2))
            if f['frame']:
                self.emit(ins('POP', R('BP')))
            self.emit(ins('RET'))
        for k, i in fix:
            self.code[k]['a'] = I(fs[i]['at'])
        return self


def anyprog(r, **kw):
    if r.random() < .5:
        return CallProg(r, **{k: v for k, v in kw.items() if k in ('faults', 'memory', 'nf')}).generate()
    return Prog(r, **dict(dict(size=r.randint(3, 14), wrongpath=r.choice([0, .3])), **kw)).generate()


def bpcmd(p, r, known):
    """known: addresses with breakpoints, tracked loosely to bias the choice"""
    n = len(p.code)
    x = r.random()
    a = r.choice(sorted(known)) if known and r.random() < .7 else r.randrange(n)
    if x < .45:
        a = r.randrange(n)
        known.add(a)
        return 'bps %d' % a
    if x < .65:
        return 'bpd %d' % a
    if x < .85:
        return 'bpe %d' % a
    if x < .95:
        known.discard(a)
        return 'bpu %d' % a
    a = n + r.choice([0, 1, 1000])
    known.add(a)      # and come back to it
    return r.choice(['bps', 'bps', 'bpu', 'bpe', 'bpd']) + ' %d' % a


def wpcmd(p, r, known):
    a = r.choice([r.randrange(4), r.randrange(p.ram), p.ram - 1, p.ram - 2, p.ram - 3])
    if r.random() < .35:
        a = r.choice(sorted(known)) if known and r.random() < .8 else a
        known.discard(a)
        return 'wpr %d' % a
    known.add(a)
    return 'wps %d' % a


GARBAGE = ['FOO R1', 'MOV R0', 'ADD 1, R0', 'HALT R1', 'JMP', 'MOV R0, R1, R2', 'mov R0, 1', 'PUSH', 'POP 5', 'SUB', 'CALL', 'X', 'INC 3']


def editable(p):
    return [k for k, c in enumerate(p.code) if c['op'] not in ('HALT', 'RET', 'CALL', 'JMP', 'PUSH', 'POP', 'FPUSH', 'FPOP', 'LOOP')
            and c['op'] not in CONDJ and not (c['op'] == 'MOV' and c['a'].get('r') in ('BP', 'SP'))
            and c['a'].get('r') not in p.loopregs + ['R2']]


def newins(p, r):
    q = Prog(r, nr=p.nr, nf=p.nf, ram=p.ram, io=.1, div=False)
    q.lim = p.lim
    q.loopregs = ['R2']
    q.code = []
    q.straight()
    return q.code[-1]


def wtcmd(p, r):
    n = len(p.code)
    idx = editable(p)
    if r.random() < .25 or not idx:
        x = r.random()
        if x < .4:
            a = r.choice(idx or [0])
            return 'wt %d %s' % (a, r.choice(GARBAGE))
        if x < .7:
            k = r.randint(1, 2)
            return 'wt %d %s' % (n - r.randint(0, k - 1) + r.choice([0, 0, 5]), ';'.join(itext(newins(p, r)) for _ in range(k)))
        # good instructions followed by a broken one, and more
        m = r.choice([1, 1, 2, 3, 4, 6])
        runs = [a for a in idx if a + m in idx] or [a for a in range(n - m)] or [0]
        return 'wt %d %s' % (r.choice(runs), ';'.join([itext(newins(p, r)) for _ in range(m)] + [r.choice(GARBAGE)]
                                                      + [itext(newins(p, r)) for _ in range(r.choice([0, 0, 1]))]))
    m = r.choice([1, 1, 1, 1, 2, 2, 3, 4, 5, 8])
    a = r.choice([a for a in idx if a + m - 1 in idx] or idx)
    k = 1
    while k < m and a + k in idx:
        k += 1
    return 'wt %d %s' % (a, ';'.join(itext(newins(p, r)) for _ in range(k)))


def look(p, r):
    n = len(p.code)
    x = r.randrange(6)
    if r.random() < .03:
        h, l = r.choice(HUGE), r.choice([1, 2, 3])
        return r.choice(['rt %d %d' % (h, l), 'rt %d %d' % (l, h), 'rm %d %d' % (h, l), 'bps %d' % h, 'bpe %d' % h, 'wt %d NOP' % h, 'wt %d NOP;NOP' % h])
    if x == 0:
        a = r.randrange(n + 1)
        return 'rt %d %d' % (a, r.randint(0, n - a) if r.random() < .9 else n - a + 1)
    if x == 1:
        a = r.randrange(p.ram + 1)
        return 'rm %d %d' % (a, r.randint(0, p.ram - a) if r.random() < .9 else p.ram - a + 1)
    if x == 2:
        return 'reg ' + r.choice(['R0', 'R1', 'IP', 'SP', 'BP', 'R%d' % (p.nr - 1), 'R%d' % p.nr, 'XX', 'F0'])
    if x == 3:
        return 'freg ' + r.choice(['F0', 'F%d' % p.nf, 'R0'])
    return r.choice(['ts', 'ip'])


def poke(p, r):
    x = r.randrange(4)
    if x == 0:
        return 'sreg %s %d' % (r.choice(p.data_regs() + ['R%d' % p.nr, 'FOO']), r.choice(WIDE))
    if x == 1 and p.nf:
        return 'sfreg %s %d' % (r.choice(['F0', 'F%d' % (p.nf - 1), 'F%d' % p.nf]), bits(r.choice([f for f in FLOATS if abs(f) < 1e11])))
    a = r.randrange(p.lim)
    k = r.randint(1, 3)
    if r.random() < .15:
        a = p.ram - k + 1
    elif a + k > p.lim:
        k = 1
    return 'sm %d %s' % (a, ' '.join(str(r.choice(WIDE) if r.random() < .4 else r.randint(0, 3)) for _ in range(k)))


def ending(r, k=8):
    s = []
    for _ in range(k):
        s += ['cont', 'dump']
    return s


BPS = ['bps', 'bpu', 'bpe', 'bpd']


def generated(run, s, items, quick, thorough):
    """Adds the sessions TLC finds in SessionModel: every transition of the
    state graph of each program under its alphabet of commands."""
    r = run.rng
    for n, (i, cmds) in enumerate(models.explore(run, items, parse_cmd, run.n(quick, thorough))):
        p, lines = items[i][0], items[i][3]
        script = []
        for c in cmds:
            script += [c, 'dump']
        s['m%d' % n] = dbgscen('m%d' % n, p, script + ending(r, 3), r.choice([(1, 1, 2), (1, 2, 8), (2, 1, 8), rndcfg(r)]), lines)


def at(names, addrs):
    return ['%s %d' % (n, a) for a in addrs for n in names]


def gen08(run, s):
    r = run.rng
    p, q, f, l = models.call_prog(r), models.rec_prog(r), models.fault_prog(r), models.loop_prog(r)
    z = models.self_prog(r)
    zl = [k for k, c in enumerate(z.code) if c['op'] == 'LOOP']
    some = lambda p, k: sorted(r.sample(range(len(p.code)), k))
    w = models.loop_prog(r)
    wl = [k for k, c in enumerate(w.code) if c['op'] == 'MOV' and c['a'].get('k') != 'R']
    generated(run, s, [(w, ['cont', 'si', 'so'] + at(['wps', 'wpr'], [1, 2]) + at(BPS[:2], [r.choice(wl)]), run.n(7, 20), ()),
                       (p, ['cont', 'si'] + at(BPS, some(p, 3)), run.n(8, 30), ()),
                       (q, ['cont', 'si', 'so'] + at(BPS, some(q, 2)), run.n(8, 30), ()),
                       (f, ['cont', 'si'] + at(BPS, some(f, 3)), run.n(8, 30), ()),
                       (z, ['cont', 'si', 'so', 'sout'] + at(BPS, zl) + at(BPS[:2], some(z, 1)), run.n(8, 30), ()),
                       (l, ['cont', 'si'] + at(BPS, some(l, 3)), run.n(8, 30), ())], 400, 12000)


def gen09(run, s):
    r = run.rng
    items = []
    for mk in (models.call_prog, models.loop_prog, models.fault_prog):
        p = mk(r)
        free = [k for k, c in enumerate(p.code) if c['op'] in ('MOV', 'NOP', 'INC', 'PUTNUM', 'DEC') and not (c['op'] == 'MOV' and c['a'].get('r') in ('BP', 'SP'))]
        a = r.choice(free)
        new = ['NOP', 'MOV R2, 5', 'HALT', 'MOV [1], 4']
        wt = ['wt %d %s' % (a, x) for x in r.sample(new, 2)]
        if a + 1 in free:
            wt.append('wt %d NOP;INC R2' % a)
        items.append((p, ['cont', 'si'] + wt + at(BPS, [a]) + at(['bps', 'bpd', 'bpu'], [(a + 1) % len(p.code)]), run.n(6, 12), ()))
    generated(run, s, items, 400, 12000)


def gen10(run, s):
    r = run.rng
    l, m, f, z = models.loop_prog(r), models.loop_prog(r), models.fault_prog(r), models.self_prog(r)
    generated(run, s, [(l, ['cont', 'si'] + at(['wps', 'wpr'], [1, 2, 3]), run.n(7, 12), ()),
                       (m, ['cont', 'so'] + at(['wps', 'wpr'], [1, 2]) + at(BPS[:2], [r.randrange(len(m.code))]), run.n(7, 12), ()),
                       (m, ['cont'] + at(['wps', 'wpr'], [0, 1, 2, 3, 5]), run.n(7, 9), ()),
                       (z, ['cont', 'so'] + at(['wps', 'wpr'], [1, z.ram - 1]) + at(['bps', 'bpd'], [3]), run.n(7, 12), ()),
                       (f, ['cont', 'si'] + at(['wps', 'wpr'], [2, 3]) + at(['bps', 'bpd'], [1, 2]), run.n(7, 12), ())], 400, 12000)


def gen11(run, s):
    r = run.rng
    p, q, f, z = models.call_prog(r), models.rec_prog(r), models.fault_prog(r), models.rec_prog(r)
    y = models.self_prog(r)
    run3 = ['so', 'sout', 'si', 'cont']
    calls = [k + 1 for k, c in enumerate(q.code) if c['op'] == 'CALL']
    generated(run, s, [(p, run3 + at(BPS, [1]) + at(BPS[:2], [r.randrange(len(p.code))]), run.n(8, 30), ()),
                       (q, run3 + at(BPS, [r.choice(calls)]) + at(BPS[:2], [r.randrange(len(q.code))]), run.n(8, 30), ()),
                       (z, run3 + at(BPS, calls), run.n(7, 30), ()),
                       (y, run3 + at(BPS, [1, 3]), run.n(7, 30), ()),
                       (f, run3 + at(BPS[:2], [1, 2]) + at(['wps', 'wpr'], [2]), run.n(7, 30), ())], 400, 12000)


def gen12(run, s):
    r = run.rng
    items = []
    for mk in (models.call_prog, models.rec_prog, models.loop_prog, models.fault_prog, models.self_prog):
        p = mk(r)
        addrs = sorted(r.sample(range(len(p.code)), r.randint(1, len(p.code) - 1)))
        lines = list(enumerate(addrs)) if r.random() < .7 else sorted(zip(r.sample(range(9), len(addrs)), addrs))
        l = r.choice(lines)[0]
        items.append((p, ['sin', 'sov', 'cont', 'si'] + at(['lbs', 'lbu', 'lbd', 'lbe'], [l]) + at(['bps', 'bpd'], [r.randrange(len(p.code))]), run.n(7, 20), lines))
    generated(run, s, items, 400, 12000)


def C08(run):
    r = run.rng
    s = {}
    gen08(run, s)
    for k in range(run.n(420, 6000)):
        p = anyprog(r, faults=r.choice([0, 0, .03]))
        known, script, wk = set(), [], set()
        dumps = r.choice([1, 1, .5, .2])
        watch = r.choice([0, 0, .3])
        for _ in range(r.randint(3, 25)):
            for _ in range(r.choice([0, 1, 1, 2, 4])):
                script.append(wpcmd(p, r, wk) if r.random() < watch else bpcmd(p, r, known))
                if r.random() < dumps * .3:
                    script.append('dump')
            script.append(r.choice(['cont', 'cont', 'cont', 'si', 'si', 'so']))
            if r.random() < dumps:
                script.append('dump')
        s['b%d' % k] = dbgscen('b%d' % k, p, script + ending(r), rndcfg(r))
    run_dbg(run, s)


def C09(run):
    r = run.rng
    s = {}
    gen09(run, s)
    for k in range(run.n(420, 6000)):
        p = anyprog(r)
        if r.random() < .2:
            p.code = [newins(p, r) for _ in range(r.randint(6, 16))] + [ins('HALT')]
        known, script = set(), []
        # after SetAllBreakpoints with disabled ones their text reads as empty
        # (known finding), so sessions doing that do not look at the text
        blind = r.random() < .25
        for _ in range(r.randint(3, 20)):
            for _ in range(r.choice([1, 2, 3, 5])):
                x = r.random()
                if blind and .8 <= x < .9:
                    continue
                if x < .45:
                    script.append(bpcmd(p, r, known))
                elif x < .8:
                    script.append(wtcmd(p, r))
                    if known and r.random() < .5:
                        a = r.choice(sorted(known))
                        if a in editable(p):
                            script.append('wt %d %s' % (a, itext(newins(p, r)) if r.random() < .8 else r.choice(GARBAGE)))
                elif x < .9:
                    script.append(look(p, r))
                else:
                    script.append('sab ' + ' '.join('%d:%d' % (a, not blind or r.random() < .6) for a in sorted(r.sample(range(len(p.code)), min(len(p.code), r.randint(1, 4))))))
                if r.random() < .6:
                    script.append('dump')
            script.append(r.choice(['cont', 'cont', 'si']))
            if r.random() < .8:
                script.append('dump')
        s['t%d' % k] = dbgscen('t%d' % k, p, script + ending(r, 5), rndcfg(r), blind=blind)
    # a program that is run again with a disabled breakpoint
    p = Prog(r, nr=3, nf=0, ram=8)
    p.code = [ins('MOV', R(0), I(1)), ins('MOV', R(1), I(2)), ins('HALT')]
    s['rerun-disabled'] = dbgscen('rerun-disabled', p, ['sab 1:0', 'dump', 'cont', 'dump'], (1, 1, 2))
    run_dbg(run, s, known={'rerun-disabled': lambda tr: tr[0] == 'ok' and 'text MOV R0, 1;;HALT;' in tr[1] and 'rerun-disabled'})


def C10(run):
    r = run.rng
    s = {}
    gen10(run, s)
    for k in range(run.n(420, 6000)):
        p = anyprog(r, memory=.55, faults=r.choice([0, 0, 0, .03]))
        known, bk, script = set(), set(), []
        dumps = r.choice([1, .5, .2])
        for _ in range(r.randint(3, 25)):
            for _ in range(r.choice([0, 1, 1, 2, 5])):
                x = r.random()
                if x < .8:
                    script.append(wpcmd(p, r, known))
                elif x < .9:
                    script.append(bpcmd(p, r, bk))
                elif x < .94:
                    known = set(r.sample(range(p.ram), r.randint(1, 4)))
                    script.append('saw ' + ' '.join(str(a) for a in sorted(known)))
                else:
                    script.append(poke(p, r))
            script.append(r.choice(['cont', 'cont', 'cont', 'si', 'so', 'sout']))
            if r.random() < dumps:
                script.append('dump')
        s['h%d' % k] = dbgscen('h%d' % k, p, script + ending(r, 12), rndcfg(r))
    run_dbg(run, s)


def C11(run):
    r = run.rng
    s = {}
    gen11(run, s)
    for k in range(run.n(420, 6000)):
        p = CallProg(r, faults=r.choice([0, 0, .03])).generate() if r.random() < .9 else anyprog(r, calls=.3)
        known, wk, script = set(), set(), []
        calls = [i for i, c in enumerate(p.code) if c['op'] == 'CALL']
        style = r.choice(['over', 'out', 'mix', 'mix'])
        nbp = r.choice([0, 0, 1, 3])
        for _ in range(nbp):
            a = r.choice(calls + [i + 1 for i in calls] + [p.code[i]['a']['v'] for i in calls if p.code[i]['a']['k'] == 'I'] + list(range(len(p.code))))
            if a < len(p.code):
                known.add(a)
                script.append('bps %d' % a)
                if r.random() < .3:
                    script.append('bpd %d' % a)
        for _ in range(r.randint(5, 40)):
            if r.random() < .15:
                script.append(bpcmd(p, r, known))
            if r.random() < .06:
                script.append(wpcmd(p, r, wk))
            x = r.random()
            script.append({'over': 'so' if x < .9 else 'si', 'out': 'sout' if x < .4 else 'si',
                           'mix': r.choice(['so', 'so', 'si', 'si', 'sout', 'cont'] if x < .9 else ['si'])}[style])
            if r.random() < .8:
                script.append('dump')
        s['o%d' % k] = dbgscen('o%d' % k, p, script + ending(r, 5), rndcfg(r))
    run_dbg(run, s)


def linemap(p, r, big=False):
    n = len(p.code)
    lines, l = [], r.choice([0, 0, 1, 3]) + (r.choice([250, 253, 990, 65530]) if big and r.random() < .15 else 0)
    dens = r.choice([.2, .4, .7, 1])
    for a in range(n):
        if r.random() < dens:
            for _ in range(r.choice([1, 1, 1, 2])):
                lines.append((l, a))
                l += r.choice([1, 1, 2, 4])
    # loops put lines out of address order
    if r.random() < .4 and len(lines) > 2:
        ls = [x for x, _ in lines]
        r.shuffle(ls)
        lines = sorted((x, a) for x, (_, a) in zip(ls, lines))
    if r.random() < .15:
        lines.append(((lines[-1][0] if lines else l) + r.choice([1, 1, 3]), n + r.choice([0, 1, 7])))   # behind the program
    return lines


def C12(run):
    r = run.rng
    s = {}
    gen12(run, s)
    for k in range(run.n(420, 6000)):
        p = anyprog(r, faults=r.choice([0, 0, .03]))
        lines = linemap(p, r, True) if r.random() < .95 else []
        top = max([l for l, _ in lines] or [0]) + 3
        known, wk, script = set(), set(), []

        def line():
            return r.choice(lines)[0] if lines and r.random() < .8 else r.randrange(top)
        for _ in range(r.randint(4, 30)):
            for _ in range(r.choice([0, 1, 1, 2])):
                x = r.random()
                if x < .5:
                    script.append('%s %d' % (r.choice(['lbs', 'lbs', 'lbu', 'lbe', 'lbd', 'lbd']), line()))
                elif x < .7:
                    script.append('l2a %d' % line())
                elif x < .9:
                    script.append('a2l %d' % r.randrange(len(p.code) + 1))
                elif x < .95:
                    script.append(bpcmd(p, r, known))
                else:
                    script.append(wpcmd(p, r, wk))
            script.append(r.choice(['sin', 'sin', 'sov', 'sov', 'cont', 'si']))
            if r.random() < .8:
                script.append('dump')
        s['l%d' % k] = dbgscen('l%d' % k, p, script + ending(r, 5), rndcfg(r), lines)
    run_dbg(run, s)


CHECKS = {'C08': C08, 'C09': C09, 'C10': C10, 'C11': C11, 'C12': C12}
