"""Sessions generated by TLC: SessionModel explores every sequence of commands
on small programs (checking that NativeImpl refines DebugSession) and prints,
for every transition of the explored graph, the commands that reach it."""
import re
from concurrent.futures import ThreadPoolExecutor
from isa import *
from gen import Prog
from vlib import *

INVARIANTS = ['SameEvent', 'SameMachine', 'SameBreakpoints', 'SameWatchpoints', 'SameText', 'ExactPatches', 'ExactWatches', 'NoTrap']


def prog(code, nr=3, nf=0, ram=8, data=()):
    p = object.__new__(Prog)
    p.code, p.nr, p.nf, p.ram, p.data, p.inp = code, nr, nf, ram, list(data), ''
    return p


def loop_prog(r):
    n = r.randint(2, 3)
    body = [ins('MOV', M(o=r.choice([1, 2])), R(0)), r.choice([ins('NOP'), ins('INC', R(1)), ins('MOV', M(o=3), R(1)), ins('PUTNUM', R(0))])]
    r.shuffle(body)
    return prog([ins('MOV', R(0), I(n))] + body + [ins('DEC', R(0)), ins('JNZ', I(1)), ins('HALT')])


def call_prog(r):
    """main calls f, f calls g; frames or not; g writes memory"""
    frame = r.random() < .5
    code = [ins('CALL', I(0)), r.choice([ins('INC', R(1)), ins('NOP')]), ins('HALT')]
    f = len(code)
    if frame:
        code += [ins('PUSH', R('BP')), ins('MOV', R('BP'), R('SP'))]
    k = len(code)
    code += [ins('CALL', I(0)), ins('NOP')] if r.random() < .5 else [ins('CALL', I(0))]
    if frame:
        code += [ins('POP', R('BP'))]
    code += [ins('RET')]
    code[0]['a'] = I(f)
    code[k]['a'] = I(len(code))
    code += [r.choice([ins('MOV', M(o=1), I(7)), ins('PUTNUM', R(1))]), ins('RET')]
    return prog(code, ram=10)


def rec_prog(r):
    """f(n) calls itself, saving BP"""
    code = [ins('MOV', R(0), I(r.randint(1, 2))), ins('CALL', I(3)), ins('HALT'),
            ins('PUSH', R('BP')), ins('MOV', R('BP'), R('SP')), ins('DEC', R(0)), ins('JS', I(8)), ins('CALL', I(3)),
            ins('POP', R('BP')), ins('RET')]
    if r.random() < .5:
        code.insert(8, ins('INC', R(1)))
    return prog(code, ram=12)


def fault_prog(r):
    return prog([ins('MOV', R(0), I(8)), ins('MOV', M(o=2), R(0)), r.choice([ins('MOV', M(b=0), I(1)), ins('DIV', R(0), R(1)), ins('MOV', R(2), M(b=0))]),
                 ins('NOP'), ins('HALT')])


def self_prog(r):
    """an instruction that jumps to itself"""
    n = r.randint(2, 3)
    code = [ins('MOV', R(0), I(n)), ins('LOOP', R(0), I(1)), ins('INC', R(1)), ins('HALT')]
    if r.random() < .5:
        code = [ins('MOV', R(0), I(1)), ins('CALL', I(3)), ins('HALT'), ins('LOOP', R(0), I(3)), ins('MOV', M(o=1), R(0)), ins('RET')]
        code[0]['b'] = I(n)
    return prog(code)


def model(p, cmds, depth, lines=()):
    return {'prog': [ijson(i) for i in p.code], 'nr': p.nr, 'nf': p.nf, 'ram': p.ram, 'data': [word(x) for x in p.data], 'inp': [],
            'lines': [{'l': a, 'a': b} for a, b in lines], 'depth': depth, 'src': cmds}


def explore(run, items, parse, limit, module='SessionModel', invariants=INVARIANTS):
    """items: [(program, commands, depth, lines)] -> [(index, commands)]"""
    recs = []
    for p, cmds, depth, lines in items:
        m = model(p, cmds, depth, lines)
        del m['src']
        recs.append(dict(m, cmds=[parse(c) for c in cmds]))
    return [(i, [items[i][1][c - 1] for c in h]) for i, h in graph(run, recs, limit, module, ''.join('INVARIANT %s\n' % i for i in invariants))]


def graph(run, recs, limit, module, what):
    """every transition of the graphs of these records: (index, numbers of commands)"""
    cfg = 'INIT Init\nNEXT Next\nVIEW View\nCHECK_DEADLOCK FALSE\n' + what
    shards = [list(range(k, len(recs), NPROC)) for k in range(min(NPROC, len(recs)))]

    def one(k):
        f = run.scratch.path('models%d.ndjson' % k)
        with open(f, 'w') as fh:
            for i in shards[k]:
                fh.write(json.dumps(recs[i]) + '\n')
        return tlc(module, cfg, run.scratch, env={'MODELS': f}, workers=1, tag='m%d' % k, heap='2g')
    scripts = []
    with ThreadPoolExecutor(len(shards)) as ex:
        for k, (rc, out, st, di) in enumerate(ex.map(one, range(len(shards)))):
            if rc:
                raise Machinery(module + ': an invariant does not hold (a mistake in the specification)\n' + out)
            run.count(model_states=di, model_transitions=st)
            seen = set()
            for a, b in re.findall(r'<<"S", (\d+), <<([\d, \n]*)>>>>', out):
                seen.add((shards[k][int(a) - 1], tuple(int(x) for x in b.replace('\n', ' ').split(','))))
            inner = {(i, h[:-1]) for i, h in seen}
            scripts += sorted(x for x in seen if x not in inner)
    run.count(model_sessions=len(scripts))
    if len(scripts) > limit:
        scripts = run.rng.sample(scripts, limit)
    return scripts
