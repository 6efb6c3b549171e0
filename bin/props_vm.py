"""C05..C07: protocol sessions with the VM validated against DebugVM."""
import re
import gen
from isa import *
from gen import Prog, mkscen, rndcfg, INTERESTING, WIDE, FLOATS
from vlib import *
import models
import pipeline

NANS = 0x7ff8000000000000


def fword(f):
    v = bits(float(f))
    if (v & 0x7ff0000000000000) == 0x7ff0000000000000 and v & 0xfffffffffffff:
        v = NANS
    return word(v)


def unescape(s):
    return re.sub(r'\\(n|\\|x[0-9a-f]{2})', lambda m: '\n' if m.group(1) == 'n' else '\\' if m.group(1) == '\\' else chr(int(m.group(1)[1:], 16)), s)


def parse_req(s):
    c = s.split(' ')
    q = {'q': c[0]}
    try:
        if c[0] in ('PEEKTEXT', 'PEEKDATA'):
            q.update(i=int(c[1]), n=int(c[2]))
        elif c[0] == 'POKETEXT':
            q.update(i=int(c[1]), ins=ijson(parse_ins(' '.join(c[2:]))))
        elif c[0] == 'POKEDATA':
            q.update(i=int(c[1]), v=word(int(c[2])))
        elif c[0] == 'POKEREGS':
            q.update(r=c[1], v=word(int(c[2])))
        elif c[0] == 'POKEFLOATREGS':
            q.update(r=c[1], v=fword(c[2]))
        elif c[0] == 'POKEDEBUGREGS':
            q.update(i=int(c[1][1:]), v=word(int(c[2])))
    except (ValueError, TypeError, IndexError):
        raise Machinery('generated a request the converter does not know: ' + s)
    return q


def parse_rep(q, s):
    try:
        if q == 'PEEKREGS':
            d = {}
            for l in s.rstrip('\n').split('\n'):
                k, v = l.split(':')
                if k in d:
                    raise ValueError
                d[k] = word(int(v))
            return {'t': 'regs', 'regs': d}
        if q == 'PEEKFLOATREGS':
            d = {}
            for l in s.rstrip('\n').split('\n') if s.strip() else []:
                k, v = l.split(':')
                if k in d:
                    raise ValueError
                d[k] = fword(v)
            return {'t': 'fregs', 'regs': d}
        if q == 'PEEKDEBUGREGS':
            d = [l.split(':') for l in s.rstrip('\n').split('\n')]
            if [k for k, _ in d] != ['D%d' % i for i in range(5)]:
                raise ValueError
            return {'t': 'dregs', 'd': [word(int(v)) for _, v in d]}
        if q == 'PEEKDATA':
            return {'t': 'mem', 'm': [word(int(l)) for l in s.split('\n') if l]}
        if q == 'PEEKTEXT':
            return {'t': 'text', 'ins': [ijson(parse_ins(l)) for l in s.split('\n') if l]}
        if q == 'TEXTSIZE':
            m = re.match(r'TEXTSIZE:(\d+)$', s)
            return {'t': 'num', 'v': word(int(m.group(1)))}
    except (ValueError, TypeError, AttributeError, OverflowError):
        return {'t': 'bad', 's': s[:200]}
    return {'t': 's', 's': s}


def parse_vm(status, lines):
    ev, pend, stop = [], None, None
    for l in lines:
        k, _, v = l.partition(' ')
        if k == '>':
            if pend is not None:
                ev.append({'k': 'req', 'q': parse_req(pend), 'rep': {'t': 'none'}})
                pend = None
            if v == 'EOF':
                ev.append({'k': 'eof'})
            else:
                pend = unescape(v)
        elif k == '<':
            v = unescape(v)
            if pend is not None:
                q = parse_req(pend)
                ev.append({'k': 'req', 'q': q, 'rep': parse_rep(q['q'], v)})
                pend = None
            elif v == 'STOPPED':
                ev.append({'k': 'stop', 'out': []})
            else:
                ev.append({'k': 'msg', 's': v[:100]})
        elif k == 'o' and ev and ev[-1]['k'] == 'stop':
            ev[-1]['out'] = list(bytes.fromhex(v))
        elif k == 'ret':
            if pend is not None:
                ev.append({'k': 'req', 'q': parse_req(pend), 'rep': {'t': 'none'}})
                pend = None
            ev.append({'k': 'end', 'ret': v == 'true', 'out': []})
        elif k == 'out':
            ev[-1]['out'] = list(bytes.fromhex(v))
    if status != 'ok':
        if pend is not None:
            ev.append({'k': 'req', 'q': parse_req(pend), 'rep': {'t': 'none'}})
        ev.append({'k': 'died', 's': status})
    return ev


def run_vm(run, scens, batch=25, limit=6, known=None):
    b = run.build()
    tr = run_harness(b, 'vm', [(s, l) for s, (l, _) in scens.items()], run.scratch, batch=batch, limit=limit)
    scens = {s: x for s, x in scens.items() if s in tr}
    bad = _judge(run, scens, tr, 'a')
    if bad:
        bad = retry(bad, tr, known or ())
        again = list(bad)
        tr2 = run_harness(b, 'vm', [(s, scens[s][0]) for s in again], run.scratch, batch=1, limit=20, tag='r')
        bad2 = _judge(run, {s: scens[s] for s in again}, tr2, 'b')
        bad = confirm(run, bad, bad2, tr, len(scens))
    for s, d in list(bad.items())[:20]:
        run.violation(s, '%s: recorded session is not a behaviour of the specification: %s' % (s, d[:900]),
                      {'mode': 'vm', 'lines': scens[s][0], 'observed': tr[s], 'known': (known or {}).get(s)})
    return bad


def _judge(run, scens, tr, tag):
    recs = []
    for sid, (lines, rec) in scens.items():
        r = dict(rec)
        r['ev'] = parse_vm(*tr[sid])
        recs.append(r)
    v, st, di = validate('DebugVMTrace', recs, run.scratch, tag=tag)
    if tag == 'a':
        run.states += di
        run.transitions += st
        run.traces += sum(1 for x in v.values() if x[0] in ('ok', 'bad'))
        run.count(undefined=sum(1 for x in v.values() if x[0] == 'undef'), unbounded=sum(1 for x in v.values() if x[0] == 'long'),
                  events=sum(len(r['ev']) for r in recs), stops=sum(1 for r in recs for e in r['ev'] if e['k'] == 'stop'))
    for s, (l, r) in scens.items():
        if v[s][0] == 'ok' and len(run.samples) < 3:
            run.samples.append({'id': s, 'scenario': [' '.join(x) for x in l], 'verdict': 'accepted ' + v[s][1]})
    return {s: tr[s][0] + ' | ' + x[1] for s, x in v.items() if x[0] == 'bad'}


def vmscen(sid, p, script, cfg, fin=None):
    """fin: requests sent at the end of the program (after REASON says so)"""
    if fin is None:
        fin = ['PEEKREGS', 'PEEKFLOATREGS', 'PEEKDATA 0 %d' % p.ram, 'PEEKDEBUGREGS', 'PEEKTEXT 0 %d' % len(p.code), 'REASON', 'CONTINUE']
    full = []
    for c in script:
        full.append(c)
        if c in ('CONTINUE', 'SINGLESTEP'):
            full.append('REASON')
    lines, rec = mkscen(sid, p.code, p.nr, p.nf, p.ram, p.data, p.inp, cfg)
    for k in ('ir', 'ifr', 'im', 'ifl'):
        rec.pop(k)
    return lines + [('cmd', c) for c in full] + [('fin', c) for c in fin], rec


def look(p, r, full=True):
    c = ['REASON', 'PEEKREGS']
    if full or r.random() < .5:
        c.append('PEEKFLOATREGS')
    if full or r.random() < .5:
        c.append('PEEKDATA 0 %d' % p.ram)
    return c


def C05(run):
    r = run.rng
    s = {}
    for k in range(run.n(900, 6000)):
        p = Prog(r, bkpt=r.choice([0, 0, .1]), faults=r.choice([0, 0, .04]), wrongpath=r.choice([0, .3]), size=r.randint(3, 14)).generate()
        script = look(p, r)
        style = r.choice(['step', 'mix', 'mix', 'cont', 'late'])
        n = r.randint(5, 60 if run.quick() else 150)
        for j in range(n):
            x = r.random()
            script.append('SINGLESTEP' if style == 'step' or (style == 'mix' and x < .8) or (style == 'late' and j > 0) else 'CONTINUE')
            if r.random() < .9:
                script += look(p, r, r.random() < .4)
        # and to the end
        for _ in range(6):
            script += ['CONTINUE'] + look(p, r)
        s['s%d' % k] = vmscen('s%d' % k, p, script, rndcfg(r))
    s.update(model_sessions(run, pipeline.stops(run, False), False))
    protocol(run, s, watches, 500, 6000)
    run_vm(run, s)


def req(p, r, pokes=False, dbg=False, text=False):
    n = len(p.code)
    x = r.randrange(12)
    if x == 0: return 'REASON'
    if x == 1: return 'PEEKREGS'
    if x == 2: return 'PEEKFLOATREGS'
    if x == 3: return 'PEEKDEBUGREGS'
    if x == 4:
        a = r.randrange(p.ram)
        return 'PEEKDATA %d %d' % (a, r.randint(0, p.ram - a))
    if x == 5:
        a = r.randrange(n)
        return 'PEEKTEXT %d %d' % (a, r.randint(1, n - a))
    if x == 6: return 'TEXTSIZE'
    if x == 7: return r.choice(['FOO', 'REASONS', 'CONTINUEX', 'STEP', 'peekregs', 'TERMINATED', 'SINGLESTEPS', 'PEEK', 'POKE 1 2', 'OK'])
    if x in (8, 9) and pokes: return poke(p, r)
    if x == 10 and dbg: return dbgpoke(p, r)
    if x == 11 and text: return textpoke(p, r)
    return 'PEEKREGS'


def poke(p, r):
    x = r.random()
    if x < .4:
        return 'POKEDATA %d %d' % (r.randrange(p.lim), r.choice(WIDE) if r.random() < .3 else r.randint(0, 3))
    if x < .75:
        g = r.choice(p.data_regs())
        return 'POKEREGS %s %d' % (g, r.choice(WIDE))
    if x < .8:
        return 'POKEREGS %s %d' % (r.choice(p.ptr), r.randrange(3))
    if x < .85:
        return 'POKEREGS FLAGS %d' % r.randrange(16)
    if x < .88:     # go on somewhere else, also beyond the program
        return 'POKEREGS IP %d' % (r.randrange(len(p.code)) if r.random() < .9 else len(p.code) + r.choice([0, 2]))
    if p.nf:
        return 'POKEFLOATREGS F%d %s' % (r.randrange(p.nf), dtext(r.choice([f for f in FLOATS if abs(f) < 1e11])))
    return 'PEEKREGS'


def dbgpoke(p, r):
    i = r.randrange(5)
    if i == 4:
        return 'POKEDEBUGREGS D4 %d' % r.choice([0, 1, 2, 4, 8, 15, 3, 5, 10, 12])
    return 'POKEDEBUGREGS D%d %d' % (i, r.choice([0, 1, 2, 3, r.randrange(p.ram), p.ram - 1, p.ram - 2]))


def textpoke(p, r):
    q = Prog(r, nr=p.nr, nf=p.nf, ram=p.ram, io=.1)
    while True:
        q.code = []
        q.straight()
        i = q.code[-1]
        if r.random() < .15:
            i = ins(r.choice(['BKPT', 'NOP', 'BREAK']))
        break
    idx = [k for k, c in enumerate(p.code) if c['op'] not in ('HALT', 'RET', 'CALL', 'JMP', 'PUSH', 'POP', 'FPUSH', 'FPOP') and c['op'] not in CONDJ]
    if not idx:
        return 'PEEKREGS'
    return 'POKETEXT %d %s' % (r.choice(idx), itext(i))


def C06(run):
    r = run.rng
    s = {}
    for k in range(run.n(900, 6000)):
        p = Prog(r, bkpt=r.choice([0, .15]), faults=r.choice([0, 0, .06]), wrongpath=.2, size=r.randint(2, 12)).generate()
        script = []
        if r.random() < .5:
            script += ['POKEDEBUGREGS D%d %d' % (r.randrange(4), r.choice([0, 1, 2, p.ram - 1])) for _ in range(2)] + ['POKEDEBUGREGS D4 15']
        for j in range(r.randint(3, 40)):
            script += [req(p, r, dbg=True) for _ in range(r.choice([0, 1, 2, 4]))]
            script += ['REASON', r.choice(['CONTINUE', 'SINGLESTEP', 'SINGLESTEP'])]
        e = r.random()
        if e < .5:
            script += ['CONTINUE', 'REASON', 'PEEKREGS', 'PEEKDATA 0 %d' % p.ram] * 5
        elif e < .75:
            script += ['TERMINATE']
        fin = [req(p, r, dbg=True) for _ in range(3)] + [r.choice(['CONTINUE', 'SINGLESTEP', 'TERMINATE', 'PEEKREGS'])]
        s['q%d' % k] = vmscen('q%d' % k, p, script, rndcfg(r), fin)
    # the debugger leaves at any stop of any kind
    for k in range(run.n(150, 1500)):
        p = Prog(r, bkpt=.3, memory=.5, faults=r.choice([0, 0, .1]), wrongpath=.2, io=.3, size=r.randint(3, 12)).generate()
        script = ['POKEDEBUGREGS D%d %d' % (j, r.randrange(4)) for j in range(3)] + ['POKEDEBUGREGS D4 %d' % r.choice([0, 7])] if r.random() < .5 else []
        script += [r.choice(['CONTINUE', 'CONTINUE', 'CONTINUE', 'SINGLESTEP']) for _ in range(r.randint(0, 6))]
        s['e%d' % k] = vmscen('e%d' % k, p, script + ['TERMINATE'] * (r.random() < .4), rndcfg(r), r.choice([[], ['TERMINATE'], ['PEEKREGS']]))
    protocol(run, s, lambda p, r, c: watches(p, r, c)[:1] + ['POKEDEBUGREGS D4 1', 'TERMINATE', 'REASON'], 500, 6000)
    run_vm(run, s)


def C07(run):
    r = run.rng
    s = {}
    for k in range(run.n(900, 6000)):
        p = Prog(r, bkpt=r.choice([0, .1]), loops=0.0, memory=.5, wrongpath=r.choice([0, .3]), size=r.randint(4, 16)).generate()
        script = []
        watch = r.random() < .4
        if watch:
            script += ['POKEDEBUGREGS D%d %d' % (j, r.randrange(p.ram)) for j in range(4)] + ['POKEDEBUGREGS D4 %d' % r.randrange(16)]
        for j in range(r.randint(5, 40)):
            script += [req(p, r, pokes=True, dbg=watch, text=r.random() < .3) for _ in range(r.choice([0, 1, 1, 2, 3]))]
            if r.random() < .7:
                script.append(poke(p, r))
            if r.random() < .3:
                script += look(p, r)
            script += ['CONTINUE' if r.random() < .25 else 'SINGLESTEP']
        for _ in range(5):
            script += ['CONTINUE'] + look(p, r) + ['PEEKTEXT 0 %d' % len(p.code)]
        s['w%d' % k] = vmscen('w%d' % k, p, script, rndcfg(r))
    for k in range(run.n(700, 5000)):
        s['x%d' % k] = race(run, 'x%d' % k)
    s.update(model_sessions(run, pipeline.stops(run, True, ['poke-read', 'poke-store']), True))
    protocol(run, s, writes, 500, 6000)
    run_vm(run, s)


PROTOCOL = ['Transparent', 'OneStep', 'NoTrap', 'Reasons', 'Watches']


def bkpt_prog(r):
    c = [ins('MOV', R(0), I(3)), ins('BKPT'), ins('MOV', M(o=1), R(0)), r.choice([ins('BKPT'), ins('PUTNUM', R(0))]), ins('MOV', R(1), M(o=1)), ins('HALT')]
    if r.random() < .5:
        c[3:3] = [ins('CMP', R(0), I(3)), ins('JNZ', I(0))]
    return models.prog(c, ram=4)


def protocol(run, s, extra, quick, thorough):
    """Adds the sessions TLC finds in ProtocolModel: every transition of the
    graph of the protocol under the alphabet of requests."""
    r = run.rng
    items = []
    for f in (models.loop_prog, models.call_prog, models.rec_prog, models.fault_prog, models.self_prog, bkpt_prog, bkpt_prog):
        for _ in range(run.n(1, 3)):
            p = f(r)
            cells = sorted({c['a'].get('o', 1) for c in p.code if c['op'] == 'MOV' and c['a']['k'] == 'M'} | {p.ram - 1})
            items.append((p, ['CONTINUE', 'SINGLESTEP'] + extra(p, r, cells), run.n(6, 8), ()))
    for n, (i, cmds) in enumerate(models.explore(run, items, parse_req, run.n(quick, thorough), 'ProtocolModel', PROTOCOL)):
        p = items[i][0]
        script = []
        for c in cmds:
            script.append(c)
            if c in ('CONTINUE', 'SINGLESTEP'):
                script += look(p, r, r.random() < .3)
        script += look(p, r) + ['PEEKDEBUGREGS']
        for _ in range(r.choice([0, 3])):
            script += ['CONTINUE'] + look(p, r)
        s['g%d' % n] = vmscen('g%d' % n, p, script, rndcfg(r))


def watches(p, r, cells):
    return ['POKEDEBUGREGS D0 %d' % r.choice(cells), 'POKEDEBUGREGS D2 %d' % r.choice(cells), 'POKEDEBUGREGS D4 %d' % r.choice([1, 4, 5])]


def writes(p, r, cells):
    a = r.randrange(len(p.code) - 1)
    return ['POKEDATA %d %d' % (r.choice(cells), v) for v in r.sample(range(5), 2)] + ['POKEREGS R%d %d' % (r.randrange(2), r.randrange(4)), 'POKEREGS FLAGS %d' % r.randrange(16),
            r.choice(['POKETEXT %d BKPT' % a, 'POKETEXT %d NOP' % a]), r.choice(['POKETEXT %d INC R1' % r.randrange(len(p.code) - 1), 'POKEREGS IP %d' % a])]


def model_sessions(run, ps, pokes):
    """the programs explored as models of the pipeline, stopped on the real VM
    in every place, by steps and by their breakpoints"""
    r = run.rng
    s = {}
    for k, (p, c) in enumerate(ps):
        p.inp = ''
        for j in range(len(p.code) + 1):
            for how in ('SC', 'CS', 'SS', 'CC'):
                script = []
                for x in how[0] * j + how[1] * (len(p.code) + 1 - j):
                    if pokes and len(script) >= j and not any('POKE' in z for z in script):
                        script += ['POKEDATA %d 9' % c] + (['POKEREGS R1 3'] if r.random() < .5 else [])
                    script += r.choice([[], ['PEEKREGS'], ['PEEKDATA 0 5']]) + ['SINGLESTEP' if x == 'S' else 'CONTINUE']
                sid = 'm%d-%d%s' % (k, j, how)
                s[sid] = vmscen(sid, p, script, rndcfg(r))
    return s


def race(run, sid):
    """Loads and stores of three cells, close together, stopped in between by
    every means, with the debugger writing the same cells at the stops."""
    r = run.rng
    p = Prog(r, nr=6, nf=1, ram=10)
    code = []
    def cell():
        a = r.randrange(3)
        return r.choice([M(o=a), M(o=a), M(b='R%d' % a)])
    for a in range(3):
        code.append(ins('MOV', R(a), I(a)))
    for _ in range(r.randint(4, 14)):
        x = r.random()
        g = R(r.randint(3, 5))
        if x < .35: code.append(ins('MOV', cell(), r.choice([g, I(r.randint(10, 99))])))
        elif x < .65: code.append(ins('MOV', g, cell()))
        elif x < .72: code.append(ins('ADD', g, cell()))
        elif x < .82: code.append(ins('BKPT'))
        elif x < .9: code.append(ins('NOP'))
        else: code.append(ins(r.choice(['INC', 'NOT']), g))
    code.append(ins('HALT'))
    p.code, p.data, p.inp = code, [r.randint(0, 9) for _ in range(3)], ''
    script = []
    mode = r.random()
    if mode < .5:
        script += ['POKEDEBUGREGS D%d %d' % (j, j) for j in range(3)] + ['POKEDEBUGREGS D4 %d' % r.choice([7, 7, 1, 2, 4])]
    for _ in range(len(code) + 4):
        for a in r.sample(range(3), r.choice([0, 1, 1, 2, 3])):
            script.append('POKEDATA %d %d' % (a, r.randint(100, 999)))
        if r.random() < .3:
            script += ['PEEKDATA 0 3', 'PEEKREGS']
        script += ['REASON', 'CONTINUE' if r.random() < (.8 if mode < .5 else .3) else 'SINGLESTEP']
    for _ in range(3):
        script += ['PEEKREGS', 'PEEKDATA 0 10', 'CONTINUE']
    return vmscen(sid, p, script, (r.choice([1, 2, 4, 8]), 0, r.choice([1, 2, 4, 8])))


CHECKS = {'C05': C05, 'C06': C06, 'C07': C07}
