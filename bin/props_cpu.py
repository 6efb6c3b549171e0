"""C01..C04: runs of the bare Cpu validated against the sequential ISA."""
import gen
from isa import *
from gen import Prog, mkscen, rndcfg, parse_cpu, INTERESTING, WIDE, FLOATS
from vlib import *
import pipeline
import props_vm as vm


def run_cpu(run, scens, batch=40):
    """scens: {id: (lines, rec)} -> rejected ids with detail, after a confirming re-run."""
    b = run.build()
    items = [(sid, l) for sid, (l, _) in scens.items()]
    tr = run_harness(b, 'cpu', items, run.scratch, batch=batch)
    scens = {s: x for s, x in scens.items() if s in tr}
    bad = _judge(run, scens, tr, 'a')
    if bad:
        bad = retry(bad, tr)
        again = list(bad)
        tr2 = run_harness(b, 'cpu', [(s, scens[s][0]) for s in again], run.scratch, batch=1, tag='r')
        bad2 = _judge(run, {s: scens[s] for s in again}, tr2, 'b')
        bad = confirm(run, bad, bad2, tr, len(scens))
    for s, d in list(bad.items())[:20]:
        lines, rec = scens[s]
        run.violation(s, '%s: implementation run is not a behaviour of the specification: %s' % (s, d[:900]),
                      {'mode': 'cpu', 'lines': lines, 'observed': tr[s]})
    return bad


def _judge(run, scens, tr, tag):
    recs = []
    for sid, (lines, rec) in scens.items():
        o = parse_cpu(*tr[sid])
        full = dict(rec)
        full.update({'st': '', 'mem': [], 'out': [], 'left': [], 'pc': word(0), 'regs': {}, 'fl': 0, 'fregs': {}})
        full.update(o)
        if full['st'] == 'timeout':
            full['st'] = 'run'
        recs.append(full)
    v, st, di = validate('CpuTrace', recs, run.scratch, tag=tag)
    if tag == 'a':
        run.states += di
        run.transitions += st
        run.traces += sum(1 for x in v.values() if x[0] in ('ok', 'bad'))
        run.count(undefined=sum(1 for x in v.values() if x[0] == 'undef'), unbounded=sum(1 for x in v.values() if x[0] == 'long'),
                  ends_in_error=sum(1 for x in v.values() if x[0] == 'ok' and 'err' in x[1]))
    for s, (l, r) in scens.items():
        if v[s][0] == 'ok' and len(run.samples) < 3:
            run.samples.append({'id': s, 'program': [x[1] for x in l if x[0] == 'src'], 'cfg': l[0][1], 'verdict': 'accepted ' + v[s][1]})
    return {s: tr[s][0] + ' | ' + x[1] for s, x in v.items() if x[0] == 'bad'}


def random_progs(run, n, **kw):
    scens = {}
    for k in range(n):
        p = Prog(run.rng, **{a: (b(run.rng) if callable(b) else b) for a, b in kw.items()}).generate()
        sid = 'p%d' % k
        scens[sid] = mkscen(sid, p.code, p.nr, p.nf, p.ram, p.data, p.inp, rndcfg(run.rng))
    return scens


def C01(run):
    s = random_progs(run, run.n(1500, 12000), alias=lambda q: q.choice([0, .15, .4]))
    s.update(hazards(run))
    s.update(grid(pipeline.design(run, pipeline.run_progs, ['unknown-store', 'slow-reads'])))
    run_cpu(run, s, batch=100)


def grid(ps):
    """the programs explored as models, on real pipelines of all widths"""
    s = {}
    for k, p in enumerate(ps):
        for cfg in WIDTHS:
            sid = 'p%d-%s' % (k, '-'.join(map(str, cfg)))
            s[sid] = mkscen(sid, p.code, p.nr, p.nf, p.ram, p.data, p.inp, cfg)
    return s


def alphabet(pc):
    """The hazard alphabet: every kind of producer and consumer of registers,
    flags, memory cells and control, over three registers and three cells."""
    return [ins('MOV', R(0), M(o=0)), ins('MOV', R(0), I(1)), ins('MOV', R(1), R(0)), ins('ADD', R(1), R(0)), ins('MOV', M(b=0), R(1)),
            ins('MOV', M(o=0), R(1)), ins('MOV', R(1), M(b=0)), ins('MOV', R(1), M(o=1)), ins('CMP', R(0), R(1)), ins('JE', I(pc + 2)),
            ins('PUSH', R(0)), ins('POP', R(1)), ins('INC', R(0)), ins('MOV', M(o=1), I(2)), ins('MOV', M(b=0, o=1), I(4)),
            ins('JNE', R(2)), ins('MOV', F(0), M(b=0)), ins('MOV', M(o=0), F(0)), ins('AND', R(0), M(o=2))]


WIDTHS = [(8, 16, 8), (4, 8, 2), (2, 4, 1), (1, 2, 1), (3, 3, 1), (8, 16, 1), (1, 16, 4)]


def falphabet(r, pc):
    f = lambda: F(r.randrange(4))
    g = lambda: R(r.randrange(2))
    return [ins('FADD', f(), f()), ins('FSUB', f(), f()), ins('FMUL', f(), f()), ins('FADD', f(), D(1.5)), ins('MOV', f(), f()), ins('MOV', f(), D(2.5)),
            ins('MOV', f(), M(o=4)), ins('MOV', M(o=4), f()), ins('MOV', M(o=5), f()), ins('MOV', f(), M(o=5)), ins('EXT', f(), g()), ins('NRW', g(), f()),
            ins('FCMP', f(), f()), ins('JE', I(pc + 2)), ins('JS', I(pc + 2)), ins('FPUSH', f()), ins('FPOP', f()), ins('INC', g())]


def hazards(run):
    """Bounded-exhaustive: every program of three instructions over the
    alphabet (four in the thorough tier) on a wide machine, and a sample of
    longer ones on all widths."""
    import itertools
    r = run.rng
    s = {}
    n = len(alphabet(0))

    def add(idx, cfg):
        code = [alphabet(pc)[i] for pc, i in enumerate(idx)] + [ins('PUTNUM', R(1)), ins('HALT')]
        sid = 'h' + '-'.join(map(str, idx)) + '-%d' % cfg[0]
        s[sid] = mkscen(sid, code, 3, 1, 8, [], '', cfg, [('R0', 2), ('R1', 5), ('R2', len(idx))], [('F0', 3)], [(0, 1), (1, 0), (2, 1)])
    for idx in itertools.product(range(n), repeat=3):
        if run.quick() and r.random() < .5:
            continue
        add(idx, (8, 16, 8))
    for _ in range(run.n(3500, 60000)):
        idx = [r.randrange(n) for _ in range(r.randint(4, 7))]
        add(idx, r.choice(WIDTHS))
    # the same for floating point registers
    for k in range(run.n(1500, 30000)):
        code = [r.choice(falphabet(r, pc)) for pc in range(r.randint(3, 8))] + [ins('MOV', M(o=j), F(j)) for j in range(4)] + [ins('HALT')]
        fr = r.sample([1.0, 2.5, -3.0, 0.5, 7.0, -1.25], 4)
        s['f%d' % k] = mkscen('f%d' % k, code, 2, 4, 8, [], '', r.choice(WIDTHS), [('R0', 2), ('R1', 5)], [('F%d' % j, bits(x)) for j, x in enumerate(fr)],
                              [(4, bits(1.5)), (5, bits(-2.0)), (6, 3)])
    run.count(hazard_programs=len(s))
    return s


# ---------------------------------------------------------------- C02
CFG1 = (2, 4, 2)
FB = [bits(f) for f in FLOATS]
RAMN = 10


def one(scens, sid, i, regs=(), fregs=(), mem=(), fl=0, inp='', ram=RAMN, extra=(), cfg=CFG1):
    code = [i] + list(extra) + [ins('HALT')]
    scens[sid] = mkscen(sid, code, 4, 2, ram, [], inp, cfg, regs, fregs, mem, fl)


def small_int(v):
    return -2**31 < v < 2**31


def src_forms(rng, y, allow_ri=True):
    """Operand forms that make the second operand's value y: (operand, regs, mem)."""
    a = rng.randrange(2, RAMN - 1)
    off = rng.choice([1, -1, 3, -2])
    f = [(R(1), [('R1', y)], []), (M(o=a), [], [(a, y)]), (M(b=1), [('R1', a)], [(a, y)]),
         (M(b=1, o=off), [('R1', a - off)], [(a, y)])]
    if allow_ri:
        f.append((RI(1, off), [('R1', y - off)], []))
    if small_int(y):
        f.append((I(y), [], []))
    return f


def jumps(run, s, sid, rnd):
    """every jump, with every value of the flags, every form of the target, any counter"""
    r = run.rng
    # conditions: every condition under every value of the flags, every form of the target
    for op in CONDJ:
        for fl in range(16):
            forms = [(I(2), [], []), (R(1), [('R1', 2)], []), (M(o=3), [], [(3, 2)]), (M(b=1), [('R1', 4)], [(4, 2)]),
                     (M(b=1, o=2), [('R1', 4)], [(6, 2)])]
            for o, rg, mm in ([r.choice(forms)] + forms[:1] if run.quick() else forms):
                one(s, sid(op), ins(op, o), rg + [('R3', 5)], mem=mm, fl=fl, extra=[ins('INC', R(3))])
    for x in [0, 1, 2, 3, -1, 2**63 - 1, -2**63, -2**63 + 1] + [rnd() for _ in range(run.n(4, 40))]:
        for o, rg in ((I(2), []), (R(1), [('R1', 2)])):
            one(s, sid('LOOP'), ins('LOOP', R(0), o), [('R0', x)] + rg, fl=r.randrange(16), extra=[ins('INC', R(3))])
    for o, rg in ((I(2), []), (R(1), [('R1', 2)])):
        one(s, sid('JMP'), ins('JMP', o), rg, fl=r.randrange(16), extra=[ins('INC', R(3))])
        one(s, sid('CALL'), ins('CALL', o), rg, fl=r.randrange(16), extra=[ins('INC', R(3))])
        for sp in (1, 2, RAMN):
            one(s, sid('CALL'), ins('CALL', o), rg + [('SP', sp)], fl=r.randrange(16), extra=[ins('INC', R(3))])
    # conditions on the flags the instruction just before has left
    for op in CONDJ:
        for _ in range(run.n(6, 60)):
            x, y = rnd(), r.choice([rnd(), 0, 1, -1])
            if r.random() < .3:
                y = x
            f = r.choice([ins('CMP', R(0), R(2)), ins('CMP', R(0), R(2)), ins('SUB', R(0), R(2)), ins('ADD', R(0), R(2)), ins('AND', R(0), R(2)),
                          ins('XOR', R(0), R(2)), ins('NEG', R(0)), ins('INC', R(0)), ins('DEC', R(0)), ins('MUL', R(0), R(2)), ins('IMUL', R(0), R(2)),
                          ins('FCMP', F(0), F(1)), ins('NOT', R(0))])
            o, rg, mm = r.choice([(I(3), [], []), (R(1), [('R1', 3)], []), (M(o=3), [], [(3, 3)])])
            one(s, sid(op + 'c'), f, [('R0', x), ('R2', y), ('R3', 5)] + rg, [('F0', r.choice(FB)), ('F1', r.choice(FB))], mem=mm, fl=r.randrange(16),
                extra=[ins(op, o), ins('INC', R(3))])


def C02(run):
    r = run.rng
    B = [0, 1, 2, 3, 7, 63, 64, -1, -2, -7, 2**31, -2**31, 2**32, 2**32 - 1, 2**63 - 1, -2**63, -2**63 + 1, 2**62, -2**62, 3037000500]
    s = {}
    k = [0]

    def sid(t):
        k[0] += 1
        return '%s-%d' % (t, k[0])

    def rnd():
        return r.choice([r.choice(WIDE), r.getrandbits(64) - 2**63, r.getrandbits(r.randint(1, 63)) * r.choice([1, -1])])

    BB = B if not run.quick() else r.sample(B, 12) + [2**63 - 1, -2**63, -1, 0, 1]
    BB = list(dict.fromkeys(BB))
    for op in BIN + ['CMP']:
        sh = op in ('LSH', 'RSH')
        ys = [1, 2, 31, 32, 33, 62, 63] if sh else BB
        pairs = [(x, y) for x in BB for y in ys]
        pairs += [(rnd(), r.randint(1, 63) if sh else rnd()) for _ in range(run.n(60, 1500))]
        for x, y in pairs:
            if op in ('DIV', 'IDIV') and y == 0:
                continue
            one(s, sid(op), ins(op, R(0), R(1)), [('R0', x), ('R1', y)], fl=r.randrange(16))
        for _ in range(run.n(8, 120)):
            x, y = rnd(), r.randint(1, 63) if sh else rnd() or 5
            for o, rg, mm in src_forms(r, y, op != 'CMP') + src_forms(r, r.choice([1, 5, 7, 60]), op != 'CMP'):
                one(s, sid(op + 'f'), ins(op, R(0), o), [('R0', x)] + rg, mem=mm, fl=r.randrange(16))
        # both operands the same register
        for x in r.sample(WIDE, run.n(6, len(WIDE))):
            if (op in ('DIV', 'IDIV') and x == 0) or (sh and not 1 <= x <= 63):
                continue
            one(s, sid(op + 's'), ins(op, R(0), R(0)), [('R0', x)])
    for op in UN:
        for x in WIDE + [rnd() for _ in range(run.n(10, 300))]:
            one(s, sid(op), ins(op, R(2)), [('R2', x)], fl=r.randrange(16))
    jumps(run, s, sid, rnd)
    for sp in (0, 3, RAMN - 1):
        one(s, sid('RET'), ins('RET'), [('SP', sp)], mem=[(sp, 2)], extra=[ins('INC', R(3))], fl=5)
        for v in r.sample(WIDE, 4):
            one(s, sid('POP'), ins('POP', R(2)), [('SP', sp)], mem=[(sp, v)], fl=r.randrange(16))
            one(s, sid('PUSH'), ins('PUSH', R(2)), [('SP', sp + 1), ('R2', v)], fl=r.randrange(16))
            if small_int(v):
                one(s, sid('PUSHi'), ins('PUSH', I(v)), [('SP', sp + 1)])
        one(s, sid('POPBP'), ins('POP', R('BP')), [('SP', sp)], mem=[(sp, 7)])
        one(s, sid('PUSHSP'), ins('PUSH', R('SP')), [('SP', sp + 1)])
        for f in r.sample(FB, 4):
            one(s, sid('FPOP'), ins('FPOP', F(1)), [('SP', sp)], mem=[(sp, f)])
            one(s, sid('FPUSH'), ins('FPUSH', F(1)), [('SP', sp + 1)], fregs=[('F1', f)])
        one(s, sid('FPUSHd'), ins('FPUSH', D(2.5)), [('SP', sp + 1)])
    # data movement
    def dst(v):
        a = r.randrange(1, RAMN - 1)
        i1, i2 = r.choice([1, -1, 2]), r.choice([2, -1, 3, 0])
        x = r.choice([1, 0, 2])
        return [(M(o=a), [], a), (M(b=1), [('R1', a)], a), (M(b=1, o=i1), [('R1', a - i1)], a), (M(x=2, s=2), [('R2', a // 2)], a // 2 * 2),
                (M(x=2, s=-1), [('R2', -a)], a), (M(b=1, x=2), [('R1', a - x), ('R2', x)], a),
                (dict(M(b=1, x=2, s=i2), os=1), [('R1', a - x * i2), ('R2', x)], a),
                (M(b=1, o=i1, x=2), [('R1', a - x - i1), ('R2', x)], a),
                (dict(M(b=1, o=i1, x=2, s=i2), os=1), [('R1', a - x * i2 - i1), ('R2', x)], a)]
    for _ in range(run.n(12, 200)):
        v = rnd()
        for o, rg, a in dst(v):
            one(s, sid('ST'), ins('MOV', o, R(3)), rg + [('R3', v)], mem=[(a, 1)], fl=r.randrange(16))
            one(s, sid('LD'), ins('MOV', R(3), o), rg, mem=[(a, v)], fl=r.randrange(16))
            one(s, sid('STF'), ins('MOV', o, F(1)), rg, fregs=[('F1', r.choice(FB))])
            if small_int(v):
                one(s, sid('STI'), ins('MOV', o, I(v)), rg)
            if o['b'] and (o['x'] or o['o']):
                one(s, sid('LEA'), ins('LEA', R(3), o), [('R1', rnd()), ('R2', rnd())], fl=r.randrange(16))
    for _ in range(run.n(4, 60)):
        v, f = rnd(), r.choice(FB)
        one(s, sid('MRR'), ins('MOV', R(3), R(0)), [('R0', v)], fl=r.randrange(16))
        one(s, sid('MRI'), ins('MOV', R(3), I(r.choice(INTERESTING))))
        one(s, sid('MRF'), ins('MOV', R(3), F(0)), fregs=[('F0', f)])
        one(s, sid('MFF'), ins('MOV', F(1), F(0)), fregs=[('F0', f)])
        one(s, sid('MFR'), ins('MOV', F(1), R(0)), [('R0', f)])
        one(s, sid('MFM'), ins('MOV', F(1), M(o=2)), mem=[(2, f)])
        one(s, sid('MFM'), ins('MOV', F(1), M(b=1)), [('R1', 3)], mem=[(3, f)])
        one(s, sid('MFD'), ins('MOV', F(1), D(r.choice([0.1, 2.5, 1e-5, 123456.789, 0.0]))))
        for a in ('SP', 'BP', 'IP'):
            one(s, sid('MR' + a), ins('MOV', R(3), R(a)), [('SP', 4), ('BP', 6)])
        one(s, sid('MSP'), ins('MOV', R('SP'), R(0)), [('R0', r.randrange(9))])
        one(s, sid('MBP'), ins('MOV', R('BP'), R('SP')), [('SP', r.randrange(9))])
        one(s, sid('SUBSP'), ins('SUB', R('SP'), I(2)), [('SP', 8)])
        one(s, sid('LDBP'), ins('MOV', R(0), M(b='BP', o=-2)), [('BP', 8)], mem=[(6, v)])
        one(s, sid('STBP'), ins('MOV', M(b='BP', o=-2), R(0)), [('BP', 8), ('R0', v)])
    # floats
    for op in FBIN + ['FCMP']:
        ps = [(a, b) for a in FB for b in FB]
        import struct
        for _ in range(run.n(40, 600)):
            ps.append((bits(r.uniform(-1e3, 1e3)), bits(r.choice([r.uniform(-10, 10), r.uniform(1e-8, 1e8)]))))
        for a, b in ps:
            one(s, sid(op), ins(op, F(0), F(1)), fregs=[('F0', a), ('F1', b)], fl=r.randrange(16))
        for a in r.sample(FB, run.n(6, len(FB))):
            one(s, sid(op + 'd'), ins(op, F(0), D(r.choice([0.5, 1.0, 0.1, 3.0, 0.0]))), fregs=[('F0', a)])
    for v in WIDE + [rnd() for _ in range(run.n(10, 200))]:
        one(s, sid('EXT'), ins('EXT', F(1), R(2)), [('R2', v)], fl=r.randrange(16))
    for f in FB + [bits(r.uniform(-1e6, 1e6)) for _ in range(run.n(10, 200))] + [bits(float(-2**63)), bits(1e18), bits(-0.5)]:
        one(s, sid('NRW'), ins('NRW', R(2), F(1)), fregs=[('F1', f)], fl=r.randrange(16))
    # input and output
    for v in WIDE:
        one(s, sid('PUTNUM'), ins('PUTNUM', R(1)), [('R1', v)], fl=3)
    for v in list(range(0, 128, 1 if not run.quick() else 9)) + [255, 256 + 65, -1]:
        one(s, sid('PUTCHAR'), ins('PUTCHAR', R(1)), [('R1', v)], fl=3)
    for c in 'a', 'Z', '0', '~', '!':
        one(s, sid('GETCHAR'), ins('GETCHAR', R(1)), [('R1', 99)], inp=c + 'xyz', fl=7)
    for op in 'NOP', 'BREAK', 'HALT':
        one(s, sid(op), ins(op), [('R1', 9)], fl=r.randrange(16))
    run.count(instruction_scenarios=len(s))
    run_cpu(run, s, batch=400)
    # results and flags consumed by the following instructions
    t = random_progs(run, run.n(500, 4000), nr=6, imm=WIDE32, size=lambda q: q.randint(4, 14), memory=.15, floats=.25, calls=.03, io=.12)
    run_cpu(run, t)


WIDE32 = [v for v in WIDE if small_int(v)]


# ---------------------------------------------------------------- C03
def C03(run):
    """Mispredicted control flow: poison instructions sit where only a wrong prediction gets to."""
    r = run.rng
    s = random_progs(run, run.n(2200, 12000), wrongpath=.7, branchy=.4, loops=.1, calls=.15, memory=.3, floats=.05, io=.12, stack=.1,
                     faults=0.0, size=lambda q: q.randint(5, 18))
    s.update(predict_grid(run))
    jumps(run, s, lambda t: '%s-%d' % (t, len(s)), lambda: r.choice([r.choice(WIDE), r.getrandbits(64) - 2**63]))
    s.update(grid(pipeline.design(run, pipeline.branch_progs, ['rat-kept', 'stores-kept', 'no-check'])))
    run_cpu(run, s)


def predict_grid(run):
    """Every condition, taken and not taken, every form of the target, each kind of
    poison on the path that must not leave a trace, under several machine widths."""
    r = run.rng
    s = {}
    poisons = {
        'halt': [ins('HALT')], 'putnum': [ins('PUTNUM', R(3))], 'getchar': [ins('GETCHAR', R(3))], 'store': [ins('MOV', M(o=2), I(77))],
        'storer': [ins('MOV', M(b=2), R(3))], 'reg': [ins('MOV', R(3), I(78))], 'push': [ins('PUSH', I(79))], 'pop': [ins('POP', R(3))],
        'flags': [ins('CMP', R(3), I(5))], 'badload': [ins('MOV', R(3), M(o=4000))], 'badstore': [ins('MOV', M(o=4000), I(1))],
        'div0': [ins('DIV', R(3), I(0))], 'idiv0': [ins('IDIV', R(3), I(0))], 'bkpt': [ins('BKPT')], 'call': [ins('CALL', I(0))],
        'ret': [ins('RET')], 'jmp': [ins('JMP', I(0))], 'loop': [ins('LOOP', R(3), I(0))], 'float': [ins('MOV', F(0), D(9.5))],
        'spmove': [ins('MOV', R('SP'), I(1))], 'fpush': [ins('FPUSH', F(0))], 'fpop': [ins('FPOP', F(0))], 'ldst': [ins('MOV', R(3), M(o=2)), ins('MOV', M(o=3), R(3))]}
    k = 0
    for op in CONDJ:
        for fl in ([r.randrange(16), r.randrange(16)] if run.quick() else range(16)):
            for pn in (r.sample(sorted(poisons), 7) if run.quick() else poisons):
                form = r.choice('IIRM')
                p = poisons[pn]
                # skip: [jcc L] poison L:        -- poison must not run when taken
                # fall: [jcc X] ... HALT X: poison  -- poison must not run when not taken
                for shape in ('skip', 'fall'):
                    k += 1
                    pre = [ins('MOV', R(4), I(3))] if r.random() < .5 else []
                    post = [ins('PUTNUM', R(3)), ins('MOV', M(o=1), R(3)), ins('ADD', R(3), M(o=2)), ins('PUSH', R(3)), ins('HALT')]
                    if shape == 'skip':
                        dest = len(pre) + 1 + len(p)
                        body = p + post
                    else:
                        dest = len(pre) + 1 + len(post)
                        body = post + p + [ins('HALT')]
                    t = {'I': I(dest), 'R': R(1), 'M': M(o=5)}[form]
                    code = pre + [ins(op, t)] + body
                    sid = 'g%d-%s-%s' % (k, op, pn)
                    s[sid] = mkscen(sid, code, 5, 1, 12, [], 'abc', rndcfg(r), [('R1', dest), ('R2', 3), ('R3', 11)], [('F0', bits(1.25))],
                                    [(5, dest), (2, 22), (3, 33)], fl)
    run.count(prediction_grid=len(s))
    return s


# ---------------------------------------------------------------- C04
def C04(run):
    s = random_progs(run, run.n(2200, 12000), faults=.12, branchy=.2, wrongpath=.2, size=lambda q: q.randint(3, 16), io=.12)
    s.update(fault_grid(run))
    ps = pipeline.design(run, pipeline.fault_progs)
    s.update(grid(ps))
    run_cpu(run, s)
    # with a debugger attached
    d = vm.model_sessions(run, [(p, 0) for p in ps], False)
    d.update(fault_steps(run))
    vm.run_vm(run, d)


def fault_steps(run):
    """Each kind of fault met by a step, or by a continue after some steps."""
    r = run.rng
    s = {}
    bads = [M(o=12), M(o=4000), M(b=1), M(b=1, o=5), M(b=1, o=-1), M(b=1, x=2)]
    fs = []
    for bad in bads:
        fs += [ins('MOV', R(3), bad), ins('MOV', bad, R(3)), ins('MOV', bad, I(7)), ins('MOV', bad, F(0))] + ([ins('MOV', F(0), bad)] if bad in bads[:3] else [])
        if not bad['x']:
            fs += [ins(r.choice(BIN), R(3), bad), ins('CMP', R(3), bad), ins(r.choice(CONDJ), bad)]
    fs = [(f, None) for f in fs]
    for op in ('DIV', 'IDIV'):
        fs += [(ins(op, R(3), I(0)), None), (ins(op, R(3), R(4)), None), (ins(op, R(3), M(o=6)), None)]
    fs += [(ins(o, *a), r.choice([0, 13, -5])) for o, a in (('PUSH', (I(1),)), ('PUSH', (R(3),)), ('FPUSH', (F(0),)), ('CALL', (I(0),)))]
    fs += [(ins(o, *a), r.choice([12, -1, 4000])) for o, a in (('POP', (R(3),)), ('FPOP', (F(0),)), ('RET', ()))]
    for k, (f, sp) in enumerate(fs * run.n(2, 10)):
        p = Prog(r, nr=5, nf=1, ram=12)
        p.inp = 'ab'
        before = [ins('MOV', R(1), I(r.choice([12, 13, 4000, -1]))), ins('MOV', R(2), I(2)), ins('MOV', R(3), I(11))]
        before += [ins('MOV', R('SP'), I(sp))] if sp is not None else []
        before += r.sample([ins('MOV', M(o=0), I(5)), ins('PUTNUM', R(3)), ins('MOV', M(o=3), R(3)), ins('INC', R(3)), ins('NOP'), ins('MOV', R(3), M(o=3))],
                           r.randint(0, 3))
        p.code = before + [f] + r.sample([ins('MOV', M(o=1), I(6)), ins('PUTNUM', R(3)), ins('MOV', M(b=2), R(3)), ins('GETCHAR', R(3))], r.randint(1, 3)) + [ins('HALT')]
        j = r.choice([0, len(before) - 1, len(before), len(before), len(before) + 1])
        script = []
        for i in range(j):
            script += ['SINGLESTEP'] + r.choice([[], ['PEEKREGS'], ['PEEKDATA 0 5']])
        script += r.choice([['CONTINUE'], ['SINGLESTEP', 'CONTINUE']])
        sid = 'fs%d-%s' % (k, f['op'])
        s[sid] = vm.vmscen(sid, p, script, rndcfg(r))
    return s


def fault_grid(run):
    """Each faulting instruction at a position with observable work before and after it."""
    r = run.rng
    s = {}
    F_ = []
    for bad in ([M(o=12), M(o=4000), M(b=1), M(b=1, o=5), M(b=1, o=-1), M(b=1, x=2), M(x=1, s=3), M(b=2, o=100)]):
        simple = not bad['x']
        F_.append(ins('MOV', R(3), bad))
        F_.append(ins('MOV', bad, R(3)))
        F_.append(ins('MOV', bad, I(7)))
        F_.append(ins('MOV', bad, F(0)))
        if simple:
            for op in BIN + ['CMP']:
                F_.append(ins(op, R(3), bad))
            for op in (r.sample(CONDJ, 4) if run.quick() else CONDJ):
                F_.append(ins(op, bad))
    F_ += [ins('MOV', F(0), M(o=12)), ins('MOV', F(0), M(b=1))]
    for op in ('DIV', 'IDIV'):
        F_ += [ins(op, R(3), I(0)), ins(op, R(3), R(4)), ins(op, R(3), M(o=6)), ins(op, R(3), RI(4, 0)) if False else ins(op, R(4), R(4))]
    stack = [(ins(o, *a), sp) for o, a in (('PUSH', (I(1),)), ('PUSH', (R(3),)), ('FPUSH', (F(0),)), ('CALL', (I(0),))) for sp in (0, 13, -5, 14)]
    stack += [(ins(o, *a), sp) for o, a in (('POP', (R(3),)), ('FPOP', (F(0),)), ('RET', ())) for sp in (12, 13, -1, 4000)]
    k = 0
    for f, sp in [(f, None) for f in F_] + stack:
        for rep in range(run.n(1, 4)):
            k += 1
            before = r.sample([ins('MOV', M(o=0), I(5)), ins('PUTNUM', R(3)), ins('MOV', M(o=3), R(3)), ins('INC', R(3)), ins('NOP'),
                               ins('PUTCHAR', R(2)), ins('MOV', R(3), M(o=3))], r.randint(1, 4))
            after = r.sample([ins('MOV', M(o=1), I(6)), ins('PUTNUM', R(3)), ins('MOV', M(b=2), R(3)), ins('GETCHAR', R(3)), ins('HALT'), ins('PUTCHAR', R(2))],
                             r.randint(1, 4))
            code = before + [f] + after + [ins('HALT')]
            sid = 'e%d-%s' % (k, f['op'])
            s[sid] = mkscen(sid, code, 5, 1, 12, [], 'abc', rndcfg(r),
                            [('R1', r.choice([12, 13, 4000, -1, 2**40])), ('R2', 2), ('R3', 11)] + ([('SP', sp)] if sp is not None else []),
                            [('F0', bits(1.25))], [(5, 1), (2, 22), (3, 33)], r.randrange(16))
    run.count(fault_grid=len(s))
    return s


CHECKS = {'C01': C01, 'C02': C02, 'C03': C03, 'C04': C04}
