"""C13..C15: variables, expressions and assignments (Source) validated against
DebugSession with SourceInfo and Expr."""
import json, re
from isa import *
from gen import Prog, rndcfg
from vlib import *
from srcinfo import *
import props_dbg as dbg


def unesc(s):
    """harness escapes -> character codes"""
    out, i = [], 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == 'n':
                out.append(10)
                i += 2
            elif s[i + 1] == 'x':
                out.append(int(s[i + 2:i + 4], 16))
                i += 4
            else:
                out.append(ord(s[i + 1]))
                i += 2
        else:
            out.append(ord(s[i]))
            i += 1
    return out


def loc(s):
    if s == '-':
        return {'k': 'none'}
    k, _, v = s.partition(':')
    return {'k': 'r', 'r': v} if k == 'r' else {'k': 'm', 'a': word(int(v))}


def val(j):
    t = j['t']
    if t == 'struct':
        return {'t': t, 'name': j['name'], 'm': {k: val(x) for k, x in j['m'].items()}, 'loc': loc(j['loc'])}
    if t == 'arr':
        return {'t': t, 'of': j['of'], 'v': word(j['v']), 'm': [val(x) for x in j['m']], 'loc': loc(j['loc'])}
    r = {'t': t, 'v': word(j['v']), 'loc': loc(j['loc'])}
    if t == 'ptr':
        r['to'] = j['to']
    return r


def parse_cmd(s):
    k, _, rest = s.partition(' ')
    if k in ('ev', 'evn', 'evs'):
        return {'k': k, 'ts': tokens(bytes(unesc(rest)).decode('latin-1'))}
    if k in ('loc', 'faddr'):
        return {'k': k, 'n': rest}
    if k in ('fname', 'vars'):
        return {'k': k, 'a': int(rest)}
    if k == 'addr':
        a, b = rest.split()
        if a.isdigit():
            return {'k': k, 'num': True, 'l': int(a), 'base': int(b), 'n': ''}
        return {'k': k, 'num': False, 'n': a, 'l': 0, 'base': 0}
    return dbg.parse_cmd(s)


def parse_res(k, s):
    try:
        if k == 'ev':
            i, _, j = s.partition(' ')
            return {'t': 'val', 'i': int(i), 'v': val(json.loads(j))}
        if k == 'evn':
            return {'t': 'val', 'i': -1, 'v': val(json.loads(s))}
        if k == 'evs':
            ty, _, v = s.partition('|')
            return {'t': 'show', 'ty': unesc(ty), 's': unesc(v)}
        if k == 'loc':
            return {'t': 'none'} if s == '-' else {'t': 'loc', 'l': loc(s)}
        if k == 'vars':
            return {'t': 'names', 'l': s.split()}
        if k == 'fname':
            return {'t': 'none'} if s == '-' else {'t': 'str', 's': s[1:]}
        if k == 'faddr':
            return {'t': 'none'} if s == '-' else {'t': 'range', 'b': int(s.split()[0]), 'e': int(s.split()[1])}
        if k == 'addr':
            return {'t': 'num', 'v': word(int(s))}
    except (ValueError, IndexError, KeyError):
        return {'t': 'bad', 's': s[:200]}
    return dbg.parse_res(k, s)


def conv(status, lines):
    return dbg.parse_dbg(status, lines, parse_cmd, parse_res)


def srcscen(sid, p, info, script, r, lines=()):
    l, rec = dbg.dbgscen(sid, p, script, rndcfg(r), lines, ['.debug_info'] + emit(info.die, r))
    rec['die'] = info.die
    rec['order'] = [{'n': n, 'nc': CODES(n)} for n in info.order]
    return l, rec


def run_src(run, s):
    dbg.run_dbg(run, s, conv=conv)


def prog(r):
    p = dbg.CallProg(r, ram=40).generate() if r.random() < .7 else Prog(r, size=r.randint(3, 14), ram=40).generate()
    return p


def C13(run):
    r = run.rng
    s = {}
    for k in range(run.n(420, 5000)):
        p = prog(r)
        info = Info(r, p)
        if r.random() < .03:
            info.die = node('unit')
        lines = dbg.linemap(p, r, True) if r.random() < .6 else []
        script = info.contents() if r.random() < .6 else []
        names = sorted({v['name'] for v in info.vars} | {'nosuch'})
        n = len(p.code)
        for _ in range(r.randint(2, 14)):
            for _ in range(r.randint(1, 5)):
                x = r.random()
                if x < .3:
                    script.append('vars %d' % r.choice([r.randrange(n), r.randrange(n), n, n + 3]))
                elif x < .65:
                    script.append('loc %s' % r.choice(names))
                elif x < .75:
                    script.append('fname %d' % r.randrange(n + 1))
                elif x < .83:
                    script.append('faddr %s' % r.choice(FUNCS + ['nosuch', 'x', 'ma', 'm']))
                elif x < .9:
                    script.append('addr %s %d' % (r.choice(['main', 'f', 'f2', 'mai', 'q', '0', '1', '2', '3', '5', '9', '100'] + [str(l + d) for l, _ in lines[:6] for d in (0, 1)]), r.randrange(2)))
                else:
                    script.append('evn %s' % r.choice(names))
            if r.random() < .1:
                script.append('sreg %s %d' % (r.choice(['BP', 'R0', 'R1']), r.randint(0, 30)))
            if r.random() < .3:
                script.append('bps %d' % r.randrange(n))
            script.append(r.choice(['si', 'si', 'so', 'cont', 'sin']))
        s['v%d' % k] = srcscen('v%d' % k, p, info, script, r, lines)
    run_src(run, s)


def C14(run):
    r = run.rng
    s = {}
    for k in range(run.n(420, 5000)):
        p = prog(r)
        info = Info(r, p, hiding=r.random() < .3)
        g = ExprGen(info, r)
        script = []
        for _ in range(r.randint(1, 3)):
            script += info.contents()
            for _ in range(r.randint(3, 14)):
                c = r.choice(['ev', 'evn', 'evn', 'evs'])
                if c == 'ev':
                    g.old += 1
                script.append('%s %s' % (c, g.expr()))
                if r.random() < .1:
                    script.append('dump')
            script.append('dump')
            script += [r.choice(['si', 'si', 'so'])] * r.randint(1, 3)
        s['x%d' % k] = srcscen('x%d' % k, p, info, script, r)
    for k in range(run.n(60, 900)):
        p = prog(r)
        info = Info(r, p)
        g = ExprGen(info, r)
        s['g%d' % k] = srcscen('g%d' % k, p, info, info.contents() + g.grid(45) + ['dump'], r)
    for k in range(run.n(6, 40)):
        p = prog(r)
        info = Info(r, p)
        c = chains(r)
        for j in range(0, len(c), 40):
            s['c%d-%d' % (k, j)] = srcscen('c%d-%d' % (k, j), p, info, ['evn ' + e for e in c[j:j + 40]], r)
    run_src(run, s)


def C15(run):
    r = run.rng
    s = {}
    for k in range(run.n(420, 5000)):
        p = prog(r)
        info = Info(r, p, hiding=r.random() < .3)
        g = ExprGen(info, r)
        script = []
        for _ in range(r.randint(1, 4)):
            script += info.contents()
            for _ in range(r.randint(2, 8)):
                a = g.assign()
                c = r.choice(['ev', 'evn', 'evn', 'evs'])
                if c == 'ev':
                    g.old += 1
                script += ['%s %s' % (c, a), 'dump']
                if r.random() < .4 and '=' in a:
                    script.append('evn ' + a.split('=')[0])
            if r.random() < .3:
                script.append('evn ' + g.expr())
            script += r.choice([['si'], ['si', 'si'], ['so'], ['cont'], ['si', 'dump', 'cont']])
            script.append('dump')
        s['a%d' % k] = srcscen('a%d' % k, p, info, script, r)
    run_src(run, s)


CHECKS = {'C13': C13, 'C14': C14, 'C15': C15}
