"""Pipeline: the design of the out-of-order execution against the sequential
machine, explored exhaustively by TLC on small programs full of hazards; the
same programs then run on the real CPU."""
from concurrent.futures import ThreadPoolExecutor
from isa import *
from models import prog
from vlib import *

INVARIANTS = ['SameRegisters', 'SameMemory', 'SameOutput', 'SamePath', 'SameEnd', 'Enough']
BUGS = ['unknown-store', 'slow-reads', 'rat-kept', 'stores-kept', 'no-check', 'poke-read', 'poke-store']


def hazard(r, n, ram, nf=0):
    """a random program of n instructions over two registers and few cells"""
    def reg():
        return R(r.randrange(2))

    def mem():
        return r.choice([M(o=r.randrange(3)), M(b=r.randrange(2)), M(b=r.randrange(2), o=1)])
    code = []
    jumps = 0
    for k in range(n):
        x = r.random()
        if x < .25:
            code.append(ins('MOV', mem(), r.choice([reg(), I(r.randrange(3))])))
        elif x < .5:
            code.append(ins('MOV', reg(), mem()))
        elif x < .62:
            code.append(ins('ADD', reg(), r.choice([reg(), I(1), mem()])))
        elif x < .72:
            code.append(r.choice([ins('PUSH', reg()), ins('POP', reg()), ins('PUTNUM', reg())]))
        elif x < .8:
            code.append(r.choice([ins('DEC', reg()), ins('CMP', reg(), I(1)), ins('SUB', reg(), mem())]))
        else:
            jumps += 1
            t = min(k + r.choice([2, 2, 3]), n)
            code.append(r.choice([ins(r.choice(['JZ', 'JNZ', 'JL']), r.choice([I(t), I(t), reg()])), ins('JMP', I(t)), ins('LOOP', reg(), I(t))]))
    return prog(code + [ins('HALT')], nr=2, nf=nf, ram=ram, data=[r.randrange(3) for _ in range(3)])


def small(code, data=(2, 1, 0), nf=0, ram=5):
    return prog(code, nr=2, nf=nf, ram=ram, data=data)


def run_progs(r):
    """what the store queue, the reads in flight and renaming are for"""
    c = r.randrange(3)
    src = r.choice([R(1), I(7)])
    ld = r.choice([ins('MOV', R(1), M(o=c)), ins('ADD', R(1), M(o=c)), ins('CMP', R(1), M(o=c))])
    return [small([ins('MOV', R(0), M(o=0)), ins('MOV', M(b=0), src), ins('MOV', R(1), M(o=2)), ins('HALT')]),               # address known late
            small([ins('MOV', R(0), M(o=c)), ins('MOV', M(o=c), I(9)), ld, ins('HALT')]),                                       # read, write, read
            small([ins('MOV', M(o=c), I(8)), ins('MOV', M(b=1, o=c), I(9)), ld, ins('MOV', M(o=c), R(1)), ins('HALT')]),       # write, write, read
            small([ins('PUSH', I(6)), ins('MOV', R(0), M(b='SP')), ins('POP', R(1)), ins('PUTNUM', R(1)), ins('HALT')]),       # the stack
            small([ins('CALL', I(3)), ins('MOV', R(1), R(0)), ins('HALT'), ins('MOV', R(0), I(4)), ins('RET')]),
            hazard(r, 4, 5)]


def branch_progs(r):
    """predictions that fail, with stores, output, faults and stops on the wrong path"""
    flag = r.choice([ins('CMP', R(0), I(0)), ins('INC', R(0)), ins('CMP', R(0), M(o=0))])
    jump = r.choice(['JNZ', 'JZ', 'JS', 'JG', 'JL', 'JMP'])
    wrong = r.choice([ins('DIV', R(1), R(0)), ins('MOV', R(1), M(o=9)), ins('HALT'), ins('MOV', M(b='SP'), R(0)), ins('PUTNUM', R(0))])
    return [small([flag, ins(jump, I(4)), ins('MOV', R(1), M(o=1)), ins('HALT'), ins('MOV', M(o=1), I(7)), ins('MOV', R(1), I(5)), ins('HALT')]),
            small([flag, ins(jump, I(4)), ins('MOV', R(1), M(o=1)), ins('HALT'), wrong, ins('MOV', M(o=1), I(7)), ins('HALT')]),
            small([ins('MOV', R(0), I(4)), ins('JMP', R(0)), wrong, ins('HALT'), ins('PUTNUM', R(0)), ins('HALT')]),
            small([ins('MOV', R(0), I(2)), ins('LOOP', R(0), I(1)), ins('MOV', M(o=1), R(0)), ins('HALT')]),
            small([ins('PUSH', I(3)), ins('RET'), wrong, ins('MOV', R(1), I(1)), ins('HALT')])]


def stop_progs(r):
    """stops with loads and stores in flight"""
    c = r.randrange(3)
    return [(small([ins('MOV', R(0), M(o=c)), ins('BKPT'), ins('MOV', R(1), M(o=c)), ins('HALT')]), c),
            (small([ins('MOV', M(o=c), I(8)), ins('BKPT'), ins('MOV', R(1), M(o=c)), ins('HALT')]), c),
            (small([ins('BKPT'), ins('MOV', R(1), M(o=c)), ins('MOV', M(b=1), I(3)), ins('HALT')]), c),
            (small([ins('JMP', I(2)), ins('HALT'), r.choice([ins('MOV', R(0), M(o=c)), ins('MOV', M(o=c), R(0))]), ins('HALT')]), c)]


def fault_progs(r):
    """errors with older stores and output in flight, and younger ones behind them"""
    c = r.randrange(3)
    bad = [ins('DIV', R(0), R(1)), ins('IDIV', R(0), I(0)), ins('MOV', R(1), M(o=r.choice([5, 9, -1]))), ins('MOV', M(o=5), R(0)), ins('MOV', M(b='SP'), I(1)), ins('POP', R(1)),
           ins('RET'), ins('ADD', R(0), M(b='BP')), ins('CMP', R(0), M(b=0, o=4))]
    r.shuffle(bad)
    return [small([ins('MOV', R(0), I(3)), ins('MOV', M(o=c), R(0)), bad[0], ins('MOV', M(o=c), I(9)), ins('HALT')]),
            small([ins('PUTNUM', R(0)), bad[1], ins('PUTNUM', R(0)), ins('HALT')]),
            small([ins('MOV', R(0), I(1)), ins('LOOP', R(0), I(3)), bad[2], ins('HALT')]),
            small([ins('MOV', R(0), M(o=c)), ins('JMP', I(3)), bad[3], bad[4], ins('HALT')])]


def model(p, n, gates, extra, pokes=(), steps=False):
    return {'prog': [ijson(i) for i in p.code], 'nr': p.nr, 'nf': p.nf, 'ram': p.ram, 'data': [word(x) for x in p.data],
            'inp': [ord(c) for c in p.inp], 'n': n, 'gates': gates, 'extra': extra, 'pokes': list(pokes), 'steps': steps}


def explore(run_scratch, recs, bug='', timeout=800):
    cfg = 'INIT Init\nNEXT Next\nVIEW View2\nCONSTANT Bug = "%s"\n' % bug + ''.join('INVARIANT %s\n' % i for i in INVARIANTS)
    shards = [recs[k::NPROC] for k in range(min(NPROC, len(recs)))]

    def one(k):
        f = run_scratch.path('pipe%s%d.ndjson' % (bug, k))
        with open(f, 'w') as fh:
            for x in shards[k]:
                fh.write(json.dumps(x) + '\n')
        return tlc('Pipeline', cfg, run_scratch, env={'MODELS': f}, workers=1, tag='p%s%d' % (bug, k), heap='2g', timeout=timeout, deadlock=True)
    with ThreadPoolExecutor(len(shards)) as ex:
        return list(ex.map(one, range(len(shards))))


def check(run, recs, bugs=()):
    """The design agrees with the sequential machine on these programs, and
    (thorough tier) would not without the precautions named in bugs."""
    for rc, out, st, di in explore(run.scratch, recs, timeout=run.n(400, 5000)):
        if rc:
            raise Machinery('Pipeline: the design model does not refine the instruction set (a mistake in the specification)\n' + out[-3000:])
        run.count(pipeline_states=di)
    run.count(pipeline_models=len(recs))
    if not run.quick():
        for b in bugs:
            if not any(rc for rc, *_ in explore(run.scratch, recs, b, timeout=5000)):
                raise Machinery('Pipeline: the invariants do not notice the variant ' + b)


def sizes(run):
    return [(4, 1), (3, 2)] if run.quick() else [(5, 1), (4, 2), (3, 1), (2, 1), (1, 1)]


def design(run, make, bugs=()):
    """explore the programs of make(); -> the programs"""
    ps = [p for _ in range(run.n(2, 6)) for p in make(run.rng)]
    sz = sizes(run)
    recs = [model(p, *sz[k % len(sz)], 40) for k, p in enumerate(ps)]
    if not run.quick():
        recs += [model(hazard(run.rng, 6, 5), 4, 1, 40) for _ in range(8)]
    check(run, recs, bugs)
    return ps


def stops(run, poke, bugs=()):
    """the same with a debugger stopping, stepping and writing; -> [(program, cell)]"""
    ps = [p for _ in range(run.n(1, 4)) for p in stop_progs(run.rng)]
    n = run.n(3, 4)
    recs = []
    for p, c in ps:
        recs.append(model(p, n, 1, 40, [{'k': 'mem', 'a': c, 'v': word(9)}] if poke else [], not poke))
    if poke:
        recs.append(model(ps[2][0], n, 1, 40, [{'k': 'reg', 'r': 'R1', 'v': word(3)}, {'k': 'ip', 'v': word(2)}, {'k': 'mem', 'a': ps[2][1], 'v': word(4)}], not run.quick()))
    check(run, recs, bugs)
    return ps
