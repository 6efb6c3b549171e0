"""C16, C17: the assembler, the printer and the loader validated against Asm."""
import re, subprocess
from concurrent.futures import ThreadPoolExecutor
from isa import *
from gen import Prog, rndcfg
from vlib import *

SIMPLE = ['R', 'I', 'MI', 'MR', 'MRI']
FULL = ['MI', 'MR', 'MRI', 'MRS', 'MRR', 'MRRS', 'MRIR', 'MRIRS']
FORMS = []
for op in BIN:
    FORMS += [(op, 'R', s) for s in SIMPLE + ['RI']]
FORMS += [('CMP', 'R', s) for s in SIMPLE] + [('LOOP', 'R', s) for s in 'RI']
for op in FBIN + ['FCMP']:
    FORMS += [(op, 'F', s) for s in 'FD']
FORMS += [('EXT', 'F', 'R'), ('NRW', 'R', 'F'), ('FPOP', 'F', '')]
FORMS += [('LEA', 'R', s) for s in ['MRI', 'MRR', 'MRRS', 'MRIR', 'MRIRS']]
FORMS += [('MOV', 'R', s) for s in ['R', 'I', 'F'] + FULL] + [('MOV', 'F', s) for s in ['D', 'F', 'R', 'MI', 'MR']]
FORMS += [('MOV', d, s) for d in FULL for s in 'RFI']
FORMS += [(op, 'R', '') for op in UN + ['POP', 'PUTCHAR', 'PUTNUM', 'GETCHAR']]
FORMS += [(op, s, '') for op in ('JMP', 'CALL', 'PUSH') for s in 'RI'] + [('FPUSH', s, '') for s in 'FD']
FORMS += [(op, s, '') for op in CONDJ for s in SIMPLE]
FORMS += [(op, '', '') for op in ('HALT', 'NOP', 'BKPT', 'BREAK', 'RET')]
OPS = sorted({f[0] for f in FORMS})
SHAPES = ['R', 'I', 'RI', 'F', 'D'] + FULL


STRAY = list(';,[]{}()!=%+-*/.:><&|^@~\'') + ['==', '!=', '->', '>>', '<<', '&&', '||', '>=', '<=', '1.5', '0.0', '"s"', '\'c\'', '7', 'R1', 'F0', 'MOV', 'x', '0x1F', '-1', '1.', '1.2.3', '1..2', '.5', '1.5.', '12x', '9999999999999999999']


class G:
    """tokens of assembly text"""

    def __init__(self, r):
        self.r = r

    def reg(self):
        return self.r.choice(['R%d' % self.r.randrange(10)] * 3 + ['R%d' % self.r.randrange(100), 'BP', 'SP', 'IP'])

    def imm(self, neg=True):
        r = self.r
        v = r.choice([0, 1, 2, 5, 10, r.randrange(100), r.randrange(2**31), 2**31 - 1, r.randrange(10**6), 65535, 65536])
        return (['-'] if neg and r.random() < .3 else []) + [str(v) if r.random() < .95 else '0' * r.randint(1, 3) + str(v)]

    def flt(self):
        r = self.r
        d = r.choice(['%d.%s' % (r.randrange(1000), ''.join(r.choice('0123456789') for _ in range(r.randint(1, 20)))),
                      repr(round(r.random() * 100, r.randint(1, 6))), dtext(abs(frombits(r.getrandbits(62)))) if r.random() < .15 else '0.0000001',
                      '0.0', '1.0', '0.1', '3.14', '123456789.123456789', dtext(abs(r.gauss(0, 1)) * 10 ** r.randint(-20, 20)), '%d.' % r.randrange(50)])
        return (['-'] if r.random() < .3 else []) + [d]

    def off(self):
        """+ i / - i"""
        return [self.r.choice('++-')] + self.imm()

    def shape(self, s):
        g = self.reg
        if s == '': return []
        if s == 'R': return [g()]
        if s == 'I': return self.imm()
        if s == 'RI': return [g()] + self.off()
        if s == 'F': return ['F%d' % self.r.randrange(6)]
        if s == 'D': return self.flt()
        if s == 'MI': return ['['] + self.imm() + [']']
        if s == 'MR': return ['[', g(), ']']
        if s == 'MRI': return ['[', g()] + self.off() + [']']
        if s == 'MRS': return ['[', g(), '*'] + self.imm() + [']']
        if s == 'MRR': return ['[', g(), '+', g(), ']']
        if s == 'MRRS': return ['[', g(), '+', g(), '*'] + self.imm() + [']']
        if s == 'MRIR': return ['[', g()] + self.off() + ['+', g(), ']']
        if s == 'MRIRS': return ['[', g()] + self.off() + ['+', g(), '*'] + self.imm() + [']']
        raise ValueError(s)

    def ins(self, f=None):
        op, a, b = f or self.r.choice(FORMS)
        t = ([str(self.r.choice([0, 1, 7, self.r.randrange(10**5)]))] if self.r.random() < .3 else []) + [op] + self.shape(a)
        return t + ([','] + self.shape(b) if b else [])

    def any_ins(self):
        """an operation with operands of any shapes, mostly undocumented"""
        r = self.r
        return [r.choice(OPS)] + self.shape(r.choice(SHAPES)) + ([','] + self.shape(r.choice(SHAPES)) if r.random() < .6 else [])

    def string(self):
        r = self.r
        s = ''.join(r.choice(list('ab Z09.#,;[]-\'@~{}') + ['\\n', '\\t', '\\\\', '\\"', '\n', '\t']) for _ in range(r.randint(0, 12) if r.random() < .85 else r.randint(13, 45)))
        return '"' + s + '"'

    def data(self):
        r = self.r
        t = []
        for _ in range(r.randint(0, 8)):
            t += [self.string()] if r.random() < .35 else self.imm()
        return t

    def other(self):
        r = self.r
        return [r.choice(['debug_line', 'debug_info', 'other', 'bss', 'x1_y', 'textual', 'datax'])] + \
            [r.choice(['abc', '12', ':', '{', '}', '<', '`', '@', '?', '~', '[', 'text', 'MOV', '$', '"str"', '1.5', '#c\n', "'", '\\', '-', '->', '='])
             for _ in range(r.randint(0, 12))]

    def layout(self, toks):
        r = self.r
        style = r.random()
        out = ''
        for t in toks:
            w = out[-1:].isalnum() or out[-1:] == '_'
            need = w and (t[0].isalnum() or t[0] in '_.') or out[-1:] == '.' and t[0].isdigit() and len(out) > 1 and out[-2].isdigit() \
                or out[-1:] + t[0] in ('->', '!=', '==', '>=', '>>', '<=', '<<', '&&', '||') or (out[-1:] == '-' and t[0] == '>') \
                or (out[-1:] == '.' and len(out) > 1 and out[-2].isdigit())
            if need and (t == '.' or out[-1:] == '.' or style > .97) and r.random() < .1:
                need = False   # also where the text then means something else
                style = min(style, .1)
            x = r.random()
            if not need and (style < .15 or x < .2):
                sep = ''
            elif x < .75:
                sep = ' '
            elif x < .9 or style < .5:
                sep = r.choice(['\n', '\t', '  ', '\r\n', ' \n \n', '\f'])
            else:
                sep = r.choice([' #' + ''.join(r.choice('ab7#;".:\\\'\t\r []-') for _ in range(r.randint(0, 9))) + r.choice(['\n', '\r\n']), '# comment\r MOV R1, 1\n', '# comment\n', ' #; .text "x\n', '\n###\n', '#1 MOV R0, 1\n'])
            out += sep + t
        return out + r.choice(['', '\n', ' ', '# end', '#\n'])

    def file(self, ins=None, data=None):
        """-> token list"""
        r = self.r
        secs = [('text', ['.', 'text'] + sum(ins if ins is not None else [self.ins() for _ in range(r.randint(1, 7))], []))]
        if data is not None or r.random() < .5:
            secs.append(('data', ['.', 'data'] + (data if data is not None else self.data())))
        if ins is None and r.random() < .2:
            secs.append(('text', ['.', 'text'] + sum([self.ins() for _ in range(r.randint(0, 3))], [])))
        if data is None and r.random() < .15:
            secs.append(('data', ['.', 'data'] + self.data()))
        for _ in range(r.choice([0, 0, 1, 2])):
            secs.append(('o', ['.'] + self.other()))
        r.shuffle(secs)
        toks = sum([s for _, s in secs], [])
        return toks

    def tail(self):
        r = self.r
        if r.random() < .8:
            return ''
        return '\n.debug_source' + r.choice(['\n', ' ']) + ''.join(r.choice(list('int main() {}"\'\\@#.;\n') + ['.text\nHALT\n', '1.2.3', '.data 5'])
                                                                       for _ in range(r.randint(0, 20)))

    def mutate(self, toks):
        r = self.r
        toks = list(toks)
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            k = r.randrange(len(toks))
            x = r.randrange(6)
            if x == 0: del toks[k]
            elif x == 1: toks.insert(k, toks[k])
            elif x == 2: toks[k] = r.choice(['+', '-', '*', ',', '[', ']', 'R1', 'F0', '7', '1.5', 'MOV', '.', 'text', '"s"', ':', '@', 'R0', 'abc', '(', 'DBG', 'data', '->', ';'])
            elif x == 3: toks.insert(k, r.choice(STRAY))
            elif x == 4 and k + 1 < len(toks): toks[k], toks[k + 1] = toks[k + 1], toks[k]
            else: toks = toks[:max(1, k)]
            if not toks:
                toks = ['.']
        return toks

    def scratch(self, text):
        """character level damage"""
        r = self.r
        for _ in range(r.choice([1, 1, 2])):
            if not text:
                return text
            k = r.randrange(len(text))
            x = r.randrange(4)
            if x == 0: text = text[:k] + text[k + 1:]
            elif x == 1: text = text[:k] + r.choice('RF.,[]+-*0129#"\\@ \nMx_') + text[k:]
            elif x == 2: text = text[:k]
            else: text = text[:k] + r.choice('RF.,[]+-*0129#"\\@ \nMx_') + text[k + 1:]
        return text


def floats(*texts):
    d = {}
    for t in texts:
        for m in re.finditer(r'(?<!\d)\d+\.\d*', t):
            try:
                d[m.group(0)] = word(bits(float(m.group(0))))
            except (ValueError, OverflowError):
                pass
        # a dot may end one token and a number start right after it
        for m in re.finditer(r'(?<=\.)\d+\.\d*', t):
            d[m.group(0)] = word(bits(float(m.group(0))))
    return [{'s': k, 'v': v} for k, v in d.items()]


def operand(s):
    p = s.split(':')
    k = p[0]
    if k in ('R', 'F'): return {'k': k, 'r': p[1]}
    if k == 'I': return {'k': k, 'v': word(int(p[1]))}
    if k == 'RI': return {'k': k, 'r': p[1], 'v': word(int(p[2]))}
    if k == 'D': return {'k': k, 'v': word(int(p[1]))}
    if k == 'M':
        b, o, x, sc = p[1], int(p[2]), p[3], int(p[4])
        if not b and x and sc == 1:
            b, x = x, ''
        return {'k': 'M', 'b': b, 'o': word(o), 'x': x, 's': word(sc)}
    return {'k': k, 's': s}


def instr(s):
    p = s.split(' ')
    o = [operand(x) for x in p[1:]] + [{'k': 'N'}, {'k': 'N'}]
    return {'op': p[0], 'a': o[0], 'b': o[1]} if len(p) <= 3 else {'op': p[0], 'a': {'k': 'X'}, 'b': {'k': 'X'}}


def unesc(s):
    return re.sub(r'\\(n|\\|x[0-9a-f]{2})', lambda m: '\n' if m.group(1) == 'n' else '\\' if m.group(1) == '\\' else chr(int(m.group(1)[1:], 16)), s)


def observe(status, lines, rec):
    o = {'parse': 'none', 'ins': [], 'data': [], 'again': 'none', 'ins2': [], 'printed': []}
    printed = ''
    load = dict(rec['load'])
    for l in lines:
        k, _, v = l.partition(' ')
        if k in ('parse', 'again'): o[k] = v
        elif k in ('ins', 'ins2'): o[k].append(instr(v))
        elif k == 'data': o['data'] = [word(int(x)) for x in v.split()]
        elif k == 'printed':
            printed = unesc(v)
            o['printed'] = list(printed)
        elif k == 'mem': load['mem'] = [word(int(x)) for x in v.split()]
        elif k == 'fl': load['fl'] = int(v)
        elif k in ('regs', 'fregs'):
            load[k] = {x.split(':')[0]: word(int(x.split(':')[1])) for x in v.split()}
            if k == 'regs':
                load['pc'] = load['regs'].pop('IP')
    if status != 'ok':
        o['parse'] = status
    return dict(rec, obs=o, load=load, floats=floats(rec['src'], printed))


OFFRUN = {'on': False}
OFFLOAD = {'on': False, 'nr': 0, 'nf': 0, 'ram': 0, 'pc': [], 'regs': {'R0': 0}, 'fregs': {'F0': 0}, 'fl': 0, 'mem': []}
OFFOBS = {'parse': 'none', 'ins': [], 'data': [], 'again': 'none', 'ins2': [], 'printed': []}


def mk(sid, text, load=None, known=None):
    lines = [('text', text.encode('latin-1').hex())]
    rec = {'id': sid, 'text': list(text), 'src': text, 'run': OFFRUN, 'load': OFFLOAD}
    if load:
        cfg, nr, nf, ram = load
        lines += [('cfg', '%d %d %d %d %d %d' % (cfg + (nr, nf, ram))), ('load', '1')]
        rec['load'] = dict(OFFLOAD, on=True, nr=nr, nf=nf, ram=ram)
    return lines, rec


def strip(r):
    r = dict(r)
    r.pop('src')
    return r


def run_asm(run, scens):
    b = run.build()
    tr = run_harness(b, 'asm', [(s, l) for s, (l, _) in scens.items()], run.scratch, batch=100, limit=10)
    scens = {s: x for s, x in scens.items() if s in tr}

    def judge(sc, tr, tag):
        recs = [strip(observe(tr[s][0], tr[s][1], r)) for s, (_, r) in sc.items()]
        v, st, di = validate('AsmTrace', recs, run.scratch, tag=tag)
        return v, st, di, {s: tr[s][0] + ' | ' + x[1] for s, x in v.items() if x[0] == 'bad'}
    v, st, di, bad = judge(scens, tr, 'a')
    run.states += di
    run.transitions += st
    run.traces += sum(1 for x in v.values() if x[0] in ('ok', 'bad'))
    run.count(undefined=sum(1 for x in v.values() if x[0] == 'undef'),
              accepted=sum(1 for s in v if v[s][0] == 'ok' and 'yes' in v[s][1]), rejected=sum(1 for s in v if v[s][0] == 'ok' and 'no' in v[s][1]))
    for s in scens:
        if v[s][0] == 'ok' and len(run.samples) < 3:
            run.samples.append({'id': s, 'scenario': scens[s][1]['src'], 'verdict': 'accepted ' + v[s][1]})
    if bad:
        bad = retry(bad, tr, [s for s in bad if 'register-name' in bad[s][:60]][:1])
        sub = {s: scens[s] for s in bad}
        tr2 = run_harness(b, 'asm', [(s, l) for s, (l, _) in sub.items()], run.scratch, batch=1, limit=20, tag='c')
        v2, _, _, bad2 = judge(sub, tr2, 'c')
        bad2 = confirm(run, bad, bad2, tr, len(scens))
        for s, why in bad2.items():
            scen = {'mode': 'asm', 'text': scens[s][1]['src'], 'lines': [' '.join(x) for x in scens[s][0]]}
            if 'register-name' in why[:60]:
                scen['known'] = 'register-name'
            run.violation(s, '%s: %s\n%s' % (s, why[:1200], scens[s][1]['src'][:600]), scen)


def C16(run):
    r = run.rng
    g = G(r)
    s = {}
    k = 0

    def add(text):
        s['%s-%d' % (run.prop, len(s))] = mk('%s-%d' % (run.prop, len(s)), text)
    # every documented form, alone and in company
    for rep in range(run.n(4, 20)):
        fs = list(FORMS)
        r.shuffle(fs)
        for i in range(0, len(fs), 6):
            add(g.layout(['.', 'text'] + sum([g.ins(f) for f in fs[i:i + 6]], [])))
    # every pair of shapes for every operation: one instruction each
    shapes2 = [(op, a, b) for op in OPS for a in SHAPES for b in [''] + SHAPES]
    r.shuffle(shapes2)
    for f in shapes2:
        add(g.layout(['.', 'text'] + g.ins(f)))
        if 'D' in f[1:]:
            add('.text\n' + ' '.join(x if '.' not in x else '0.0' for x in g.ins(f)))
    for _ in range(run.n(2000, 20000)):
        add(g.layout(g.mutate(['.', 'text'] + sum([g.ins() for _ in range(r.randint(1, 3))], []))))
    for _ in range(run.n(2000, 20000)):
        add(g.scratch(g.layout(['.', 'text'] + sum([g.ins() for _ in range(r.randint(1, 3))], []))))
    for bad in ('Rx', 'R', 'R1x', 'RBP'):
        add('.text\nMOV %s, 1\nHALT\n' % bad)
    run_asm(run, s)


def cli(run, scens):
    """scens: {id: (text, nr, nf, ram, inp)} through the real t86-cli"""
    exe = os.path.join(run.build(), 't86-cli')
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:exitcode=177')

    def one(item):
        sid, (text, nr, nf, ram, inp) = item
        p = run.scratch.path(sid + '.t86')
        with open(p, 'w', encoding='latin-1', newline='') as f:
            f.write(text)
        try:
            q = subprocess.run([exe, p, '--register-cnt', str(nr), '--float-register-cnt', str(nf), '--memory-size', str(ram)],
                               input=inp.encode('latin-1'), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=10, cwd=run.scratch.dir)
            res = {'out': list(q.stdout[:2000]), 'rc': q.returncode if q.returncode >= 0 else 128 - q.returncode, 'err': bool(q.stderr)}
        except subprocess.TimeoutExpired:
            res = {'out': [], 'rc': 999, 'err': False}
        os.unlink(p)
        res.update(on=True, nr=nr, nf=nf, ram=ram, inp=[ord(c) for c in inp])
        return sid, {'id': sid, 'text': list(text), 'src': text, 'floats': floats(text), 'obs': OFFOBS, 'load': OFFLOAD, 'run': res}
    with ThreadPoolExecutor(NPROC) as ex:
        recs = dict(ex.map(one, scens.items()))
    v, st, di = validate('AsmTrace', [strip(x) for x in recs.values()], run.scratch, tag='cli')
    run.states += di
    run.transitions += st
    run.traces += sum(1 for x in v.values() if x[0] in ('ok', 'bad'))
    run.count(cli_runs=len(recs), cli_undefined=sum(1 for x in v.values() if x[0] == 'undef'))
    bad = {s for s, x in v.items() if x[0] == 'bad'}
    if bad:
        with ThreadPoolExecutor(2) as ex:
            recs2 = dict(ex.map(one, [(s, scens[s]) for s in bad]))
        v2, _, _ = validate('AsmTrace', [strip(x) for x in recs2.values()], run.scratch, tag='cli2')
        for s in sorted(bad):
            if v2[s][0] == 'bad':
                run.violation(s, '%s: %s\n%s' % (s, v2[s][1][:1000], recs[s]['src'][:800]),
                              {'mode': 'cli', 'text': recs[s]['src'], 'args': list(scens[s][1:])})


def words(ts):
    return sum([re.findall(r'"(?:[^"\\]|\\.)*"|[A-Za-z_]\w*|\d+\.\d*|\d+|[^\s]', t) for t in ts], [])


def C17(run):
    r = run.rng
    g = G(r)
    s = {}
    for _ in range(run.n(600, 6000)):
        sid = '%s-%d' % (run.prop, len(s))
        toks = g.file()
        x = r.random()
        if x < .7:
            s[sid] = mk(sid, g.layout(toks) + g.tail(), (rndcfg(r), r.randint(1, 10), r.randint(1, 5), r.choice([250, 300, 1024]) if r.random() < .1 else 220))
        elif x < .85:
            s[sid] = mk(sid, g.layout(g.mutate(toks)) + g.tail())
        elif x < .93:
            # all well but for one instruction of undocumented form, or one token at the end of a section
            if r.random() < .6:
                toks = g.file([g.ins(), g.any_ins(), g.ins()][r.randrange(2):] + [['HALT']])
            else:
                toks = r.choice([toks + [r.choice(STRAY)], [r.choice(STRAY)] + toks, g.file([g.ins(), [r.choice(STRAY)]])])
            s[sid] = mk(sid, g.layout(toks) + g.tail())
        else:
            s[sid] = mk(sid, g.scratch(g.layout(toks)))
    # every single token of a complete file left out, doubled or replaced
    for _ in range(run.n(1, 10)):
        toks = g.file([['0'] + g.ins(('MOV', 'R', 'MRIRS'))] + [g.ins() for _ in range(6)] + [['HALT']], ['1', '-', '2', g.string(), '4', "'x'"])
        for i in range(len(toks)):
            for v in (toks[:i] + toks[i + 1:], toks[:i] + [toks[i]] + toks[i:], toks[:i] + [r.choice(STRAY)] + toks[i + 1:], toks[:i] + [r.choice(STRAY)] + toks[i:]):
                sid = '%s-%d' % (run.prop, len(s))
                s[sid] = mk(sid, g.layout(v))
    s['%s-lax' % run.prop] = mk('%s-lax' % run.prop, '.text\nMOV Rx, 1\nHALT\n')
    run_asm(run, s)
    c = {}
    for k in range(run.n(220, 2500)):
        sid = '%s-c%d' % (run.prop, k)
        x = r.random()
        if x < .65:
            p = Prog(r, size=r.randint(2, 14), io=.25).generate()
            if r.random() < .5:
                # the data section is wholly visible in the output
                head = [ins('MOV', R('R2'), M(o=j)) if b == 0 else ins('PUTNUM', R('R2')) for j in range(min(p.ram, 10)) for b in (0, 1)]
                code = head + [ins('HALT')]
            else:
                code = p.code
            toks = [['%d' % r.randrange(99)] * (r.random() < .3) + words([itext(i)]) for i in code]
            data = g.data() if r.random() < .5 else sum([words([str(d)]) for d in p.data], [])
            text = g.layout(g.file(toks, data)) + g.tail()
            ram = p.ram if r.random() < .7 else r.choice([64, 1024, 2])
            c[sid] = (text, p.nr, p.nf, ram, p.inp)
        elif x < .665 or k < 4:
            c[sid] = (r.choice(['.text\n' + r.choice([' ', '\n', '# c\n', '#\n']) * 40000, '.foo\n' + r.choice(['?', '~ ', '@\n', "'"]) * 40000 + '\n.text\n']) + 'MOV R1, 5\nPUTNUM R1\nHALT\n', 8, 4, 64, '')
        elif x < .9:
            c[sid] = (g.layout(g.mutate(g.file([['HALT']]))), 8, 4, 64, '')
        else:
            c[sid] = (g.scratch(g.layout(g.file([['MOV', 'R1', ',', '5'], ['PUTNUM', 'R1'], ['HALT']]))), 8, 4, 64, '')
    cli(run, c)


CHECKS = {'C16': C16, 'C17': C17}
