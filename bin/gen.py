"""Seeded random T86 programs, structured so that they end, with knobs for the
focus of each property."""
from isa import *
from vlib import word, M64

INTERESTING = [0, 1, 2, 3, 5, 7, 8, 10, 63, 64, 100, 255, 256, -1, -2, -3, -7, -64, 32767, 65535, 65536, -65536,
               2**31 - 1, -2**31 + 1]
WIDE = INTERESTING + [2**63 - 1, -2**63, -2**63 + 1, 2**62, -2**62, 2**32, 2**32 - 1, 2**32 + 1, -2**32, 2**53, 2**53 + 1,
                      0x5555555555555555, -0x5555555555555556, 3037000499, 3037000500, -3037000500, 2**63 - 2, 0x7fffffff00000000]
FLOATS = [0.0, -0.0, 1.0, -1.0, 0.5, 1.5, 2.0, 3.0, 0.1, 0.2, 0.3, 1e10, -1e10, 1e300, -1e300, 1e-300, 5e-324, 2.2250738585072014e-308,
          1.7976931348623157e308, 9007199254740992.0, 9007199254740993.0, 4503599627370496.5, float('inf'), float('-inf'), 3.141592653589793, -2.5, 1e-10, 123456.789]


class Prog:
    def __init__(self, rng, **kw):
        self.rng = rng
        self.o = dict(nr=rng.randint(4, 7), nf=rng.randint(1, 5), ram=rng.choice([12, 16, 24]), size=rng.randint(4, 22),
                      branchy=0.25, memory=0.35, floats=0.12, io=0.08, stack=0.12, calls=0.1, loops=0.12, shifts=True,
                      div=True, wrongpath=0.0, faults=0.0, bp_frames=0.3, imm=INTERESTING, bkpt=0.0, alias=0.0)
        # now and then a large machine or a long program
        if rng.random() < .08:
            self.o.update(nr=rng.choice([9, 10, 11, 12, 17]), nf=rng.choice([1, 4, 11]))
        if rng.random() < .06:
            self.o.update(ram=rng.choice([70, 130, 140, 260, 300]))
        if rng.random() < .04:
            self.o.update(size=rng.randint(40, 80))
        self.o.update(kw)
        self.nr, self.nf, self.ram = self.o['nr'], self.o['nf'], self.o['ram']
        self.code, self.fix = [], []
        self.depth, self.nest, self.loopregs = 0, 0, []
        self.inp = ''.join(rng.choice('abcXYZ0189!') for _ in range(40))
        self.data = [rng.choice([0, 1, 2, 3, rng.randint(-9, 99)]) for _ in range(rng.randint(0, self.ram // 2))]
        self.funcs = []
        self.usedctr = set()
        self.ptr = ['R0', 'R1']     # always small
        # the stack lives in the upper part; data accesses stay in the lower
        self.lim = self.ram - 6
        self.floor = self.ram

    # -- registers
    def data_regs(self):
        return ['R%d' % i for i in range(2, self.nr) if 'R%d' % i not in self.loopregs]

    def counters(self):
        return ['R%d' % (self.nr - 1)] + (['R%d' % (self.nr - 2)] if self.nr > 5 else [])

    def reg(self):
        return self.rng.choice(self.data_regs() or ['R2'])

    def src(self):
        return self.rng.choice(self.data_regs() + self.ptr + ['BP', 'SP', 'IP'] * (self.rng.random() < .15))

    def imm(self):
        return self.rng.choice(self.o['imm'])

    def freg(self):
        return F(self.rng.randrange(self.nf))

    # -- memory operands that stay in range
    def mem(self, simple=False):
        r, lim = self.rng, self.lim
        f = r.randrange(3 if simple else 8)
        p, q = r.choice(self.ptr), r.choice(self.ptr)
        if f == 0: return M(o=r.randrange(min(lim, r.choice([3, lim]))))
        if f == 1: return M(b=p)
        if f == 2: return M(b=p, o=r.randrange(max(1, lim - 3)) if r.random() < .5 else r.randrange(3))
        if f == 3: return M(x=p, s=r.randint(0, 1))
        if f == 4: return M(b=p, x=q)
        if f == 5: return M(b=p, o=r.randrange(1, max(2, lim - 5)), x=q)
        if f == 6: return M(b=p, x=q, s=r.choice([0, 1, 1]), ) if False else dict(M(b=p, x=q, s=1), os=1)
        return dict(M(b=p, o=r.randrange(1, max(2, lim - 5)), x=q, s=1), os=1)

    def badmem(self, simple=False):
        r = self.rng
        f = r.randrange(4)
        p = r.choice(self.ptr)
        if f == 0: return M(o=self.ram + r.choice([0, 1, 7, 1000]))
        if f == 1: return M(b=p, o=self.ram + r.choice([0, 3, 50]))
        if f == 2: return M(b=p, o=-r.choice([3, 4, 50]))
        return M(b='BP', o=r.choice([0, 1, 5]))

    def emit(self, i):
        self.code.append(i)
        return len(self.code) - 1

    # -- single instructions
    def straight(self):
        r = self.rng
        x = r.random()
        o = self.o
        if r.random() < o['faults']:
            return self.fault()
        if o['bkpt'] and r.random() < o['bkpt']:
            return self.emit(ins('BKPT'))
        if x < o['memory']:
            y = r.random()
            if y < .4:
                return self.emit(ins('MOV', self.mem(), r.choice([R(self.src()), I(self.imm()), self.freg() if self.nf and r.random() < .3 else R(self.reg())])))
            if y < .7:
                return self.emit(ins('MOV', R(self.reg()), self.mem()))
            if y < .8 and self.nf:
                return self.emit(ins('MOV', self.freg(), self.mem()if r.random() < 0 else r.choice([M(o=r.randrange(self.lim)), M(b=r.choice(self.ptr))])))
            if y < .95:
                return self.emit(ins(r.choice(['ADD', 'SUB', 'MUL', 'AND', 'OR', 'XOR', 'IMUL']), R(self.reg()), self.mem(True)))
            return self.emit(ins('CMP', R(self.src_noip()), self.mem(True)))
        x -= o['memory']
        if x < o['floats'] and self.nf:
            y = r.randrange(7)
            if y == 0: return self.emit(ins('MOV', self.freg(), D(abs(r.choice([1.0, .5, 2.25, 10.0, 0.1, 3.0])))))
            if y == 1: return self.emit(ins('EXT', self.freg(), R(self.reg())))
            if y == 2: return self.emit(ins('FCMP', self.freg(), self.freg()))
            if y == 3: return self.emit(ins('MOV', self.freg(), self.freg()))
            if y == 4: return self.emit(ins('MOV', self.freg(), R(self.reg())))
            return self.emit(ins(r.choice(['FADD', 'FSUB', 'FMUL']), self.freg(), r.choice([self.freg(), D(r.choice([1.0, .5, 2.0]))])))
        x -= o['floats']
        if x < o['io']:
            y = r.randrange(3)
            if y == 0: return self.emit(ins('PUTNUM', R(self.reg())))
            if y == 1: return self.emit(ins('PUTCHAR', R(self.reg())))
            return self.emit(ins('GETCHAR', R(self.reg())))
        x -= o['io']
        y = r.random()
        if y < .25: return self.emit(ins('MOV', R(self.reg()), r.choice([I(self.imm()), R(self.src())])))
        if y < .30: return self.emit(ins('MOV', R(r.choice(self.ptr)), I(r.randrange(3))))
        if y < .40: return self.emit(ins(r.choice(UN), R(self.reg())))
        if y < .48: return self.emit(ins('CMP', R(self.src_noip()), r.choice([R(self.reg()), I(self.imm())])))
        if y < .56: return self.emit(ins('LEA', R(self.reg()), self.lea()))
        if y < .59: return self.emit(ins('NOP'))
        if y < .61: return self.emit(ins('BREAK'))
        if y < .68 and o['shifts']:
            return self.emit(ins(r.choice(['LSH', 'RSH']), R(self.reg()), I(r.choice([1, 2, 7, 16, 31, 32, 63, r.randint(1, 63)]))))
        if y < .74 and o['div']:
            return self.emit(ins(r.choice(['DIV', 'IDIV']), R(self.reg()), I(r.choice([1, 2, 3, 7, -1, -5, 10, 1000]))))
        return self.emit(ins(r.choice(['ADD', 'SUB', 'MUL', 'IMUL', 'AND', 'OR', 'XOR', 'ADD', 'SUB']), R(self.reg()),
                             r.choice([R(self.src()), I(self.imm()), RI(self.src(), r.choice([1, 2, -1, -7, 100]))])))

    def src_noip(self):
        return self.rng.choice(self.data_regs() + self.ptr)

    def lea(self):
        r = self.rng
        a, b = self.src_noip(), self.src_noip()
        f = r.randrange(6)
        if f == 0: return M(b=a, o=r.choice([1, 5, -3, 1000]))
        if f == 1: return M(x=a, s=r.choice([1, 2, 3, 8, -2]))
        if f == 2: return M(b=a, x=b)
        if f == 3: return dict(M(b=a, x=b, s=r.choice([1, 2, 5, -1])), os=1)
        if f == 4: return M(b=a, o=r.choice([1, 5, -3]), x=b)
        return dict(M(b=a, o=r.choice([1, 5, -3]), x=b, s=r.choice([1, 3, -4])), os=1)

    def fault(self):
        r = self.rng
        f = r.randrange(7)
        if f == 0: return self.emit(ins('MOV', R(self.reg()), self.badmem()))
        if f == 1: return self.emit(ins('MOV', self.badmem(), R(self.reg())))
        if f == 2: return self.emit(ins('ADD', R(self.reg()), self.badmem()))
        if f == 3: return self.emit(ins('CMP', R(self.reg()), self.badmem()))
        if f == 4:
            z = r.choice([I(0), M(o=self.lim + 1)])
            return self.emit(ins(r.choice(['DIV', 'IDIV']), R(self.reg()), z))
        if f == 5:
            q = self.reg()
            self.emit(ins('XOR', R(q), R(q)))
            return self.emit(ins(r.choice(['DIV', 'IDIV']), R(self.reg()), R(q)))
        return self.emit(ins('MOV', self.badmem(), I(self.imm())))

    def poison(self):
        """Instructions placed where no execution gets to."""
        r = self.rng
        f = r.randrange(7)
        if f == 0: return self.emit(ins('HALT'))
        if f == 1: return self.emit(ins('PUTNUM', R(self.src_noip())))
        if f == 2: return self.emit(ins('GETCHAR', R(self.reg())))
        if f == 3: return self.emit(ins('MOV', self.mem(), I(77)))
        if f == 4: return self.emit(ins('MOV', R(self.reg()), I(78)))
        if f == 5: return self.emit(ins(r.choice(['PUSH']), I(79)))
        return self.fault()

    # -- structure
    def block(self, size):
        r, o = self.rng, self.o
        while size > 0:
            if o['alias'] and r.random() < o['alias']:
                size -= self.alias()
                continue
            x = r.random()
            if x < o['branchy'] and size > 2:
                size -= self.branch(size)
            elif x < o['branchy'] + o['loops'] and size > 3 and self.nest < 2 and len(self.data_regs()) > 1 and set(self.counters()) - set(self.loopregs):
                size -= self.loop(size)
            elif x < o['branchy'] + o['loops'] + o['stack'] and size > 2 and self.depth < 4:
                size -= self.pushpop(size)
            elif x < o['branchy'] + o['loops'] + o['stack'] + o['calls'] and self.depth < 3 and self.nest < 2 and self.funcs is not None:
                self.call()
                size -= 2
            else:
                self.straight()
                size -= 1

    def alias(self):
        """Accesses through an address that is known late, next to direct ones."""
        r = self.rng
        q = r.choice(self.ptr)
        f = r.randrange(4)
        if f == 0:
            self.emit(ins('MOV', R(q), M(o=r.randrange(self.lim))))
            self.emit(ins('AND', R(q), I(1)))
        elif f == 1:
            self.emit(ins('AND', R(q), M(o=r.randrange(3))))
            self.emit(ins('AND', R(q), I(r.choice([1, 3]))))
        elif f == 2:
            self.emit(ins('MUL', R(q), I(r.choice([0, 1]))))
        else:
            self.emit(ins('MOV', R(q), M(o=r.randrange(self.lim))))
            self.emit(ins('MUL', R(q), I(0)))
        n = r.randint(2, 4)
        for _ in range(n):
            m = r.choice([M(b=q), M(b=q), M(b=q, o=1), M(o=r.randrange(3)), M(o=r.randrange(3))])
            if r.random() < .5:
                self.emit(ins('MOV', m, r.choice([R(self.reg()), I(r.randint(0, 9))])))
            else:
                self.emit(ins('MOV', R(self.reg()), m))
        return n + 2

    def target(self, idx, operand='a', reg=None):
        self.fix.append((idx, operand))
        return idx

    def cond(self):
        r = self.rng
        self.emit(ins('CMP', R(self.src_noip()), r.choice([R(self.src_noip()), I(r.choice([0, 1, -1, 2, self.imm()]))]))) if r.random() < .7 else None
        return r.choice(CONDJ)

    def branch(self, size):
        """if (cond) goto over; body; over: -- the jump operand may be an immediate (predicted taken), register or memory."""
        r = self.rng
        op = 'JMP' if r.random() < .2 else self.cond()
        n = r.randint(1, min(4, size))
        kind = r.random()
        pre = None
        if kind < .15:
            pre = (self.emit(ins('MOV', R(self.reg()), I(0))))
            j = self.emit(ins(op, R(self.code[pre]['a']['r'])))
        elif kind < .25 and op != 'JMP':
            a = r.randrange(self.lim)
            pre = self.emit(ins('MOV', M(o=a), I(0)))
            j = self.emit(ins(op, M(o=a)))
        else:
            j = self.emit(ins(op, I(0)))
        if op == 'JMP' or r.random() < self.o['wrongpath']:
            if op == 'JMP' and r.random() < max(.5, self.o['wrongpath']):
                for _ in range(r.randint(1, 3)):
                    self.poison()
            else:
                self.nest += 1
                self.block(n)
                self.nest -= 1
        else:
            self.nest += 1
            self.block(n)
            self.nest -= 1
        dest = len(self.code)
        if pre is not None:
            self.code[pre]['b'] = I(dest)
        else:
            self.code[j]['a'] = I(dest)
        # a wrong path behind the target: guarded code that is skipped when executed but predicted
        if self.o['wrongpath'] and r.random() < self.o['wrongpath']:
            q = self.reg()
            self.emit(ins('MOV', R(q), I(1)))
            self.emit(ins('CMP', R(q), I(1)))
            k = self.emit(ins('JNE', I(0)))       # never taken, predicted taken
            s = self.emit(ins('JMP', I(0)))
            self.code[k]['a'] = I(len(self.code))
            for _ in range(r.randint(1, 3)):
                self.poison()
            self.code[s]['a'] = I(len(self.code))
        return n + 1

    def loop(self, size):
        r = self.rng
        # counters come from the last registers, which functions leave alone
        c = r.choice([x for x in self.counters() if x not in self.loopregs])
        self.usedctr.add(c)
        self.emit(ins('MOV', R(c), I(r.randint(1, 4))))
        self.loopregs.append(c)
        top = len(self.code)
        n = r.randint(1, min(5, size))
        self.nest += 1
        self.block(n)
        self.nest -= 1
        self.loopregs.pop()
        f = r.random()
        if f < .5:
            self.emit(ins('LOOP', R(c), I(top)))
        elif f < .75:
            self.emit(ins('DEC', R(c)))
            self.emit(ins(r.choice(['JNZ', 'JNE', 'JG']), I(top)))
        else:
            self.emit(ins('SUB', R(c), I(1)))
            self.emit(ins('CMP', R(c), I(0)))
            self.emit(ins(r.choice(['JG', 'JA', 'JNE']), I(top)))
        return n + 2

    def pushpop(self, size):
        r = self.rng
        n = r.randint(0, min(3, size))
        f = r.random() < .25 and self.nf
        self.emit(ins('FPUSH', r.choice([self.freg(), D(r.choice([1.5, 2.0]))])) if f else
                  ins('PUSH', r.choice([R(self.src()), I(self.imm())])))
        self.depth += 1
        self.nest += 1
        self.block(n)
        self.nest -= 1
        self.depth -= 1
        self.emit(ins('FPOP', self.freg()) if r.random() < .25 and self.nf else ins('POP', R(self.reg())))
        return n + 2

    def call(self):
        r = self.rng
        if self.funcs and r.random() < .5:
            f = r.choice(self.funcs)
        else:
            f = {'body': r.randint(1, 4), 'frame': r.random() < self.o['bp_frames'], 'at': None}
            self.funcs.append(f)
        if r.random() < .15:
            q = self.reg()
            p = self.emit(ins('MOV', R(q), I(0)))
            self.emit(ins('CALL', R(q)))
            f.setdefault('calls', []).append((p, 'b'))
        else:
            c = self.emit(ins('CALL', I(0)))
            f.setdefault('calls', []).append((c, 'a'))

    def finish(self):
        fs, self.funcs = self.funcs, None       # no calls inside functions
        self.depth += 2
        self.loopregs = sorted(self.usedctr)
        for f in fs:
            f['at'] = len(self.code)
            if f['frame']:
                self.emit(ins('PUSH', R('BP')))
                self.emit(ins('MOV', R('BP'), R('SP')))
                self.depth += 1
            self.nest += 1
            self.block(f['body'])
            self.nest -= 1
            if f['frame']:
                self.depth -= 1
                self.emit(ins('POP', R('BP')))
            self.emit(ins('RET'))
            for p, w in f['calls']:
                self.code[p][w] = I(f['at'])

    def generate(self):
        r = self.rng
        if r.random() < .5:
            for q in self.ptr:
                self.emit(ins('MOV', R(q), I(r.randrange(3))))
        self.block(self.o['size'])
        self.emit(ins('HALT'))
        self.finish()
        return self


def mkscen(sid, code, nr, nf, ram, data, inp, cfg, setreg=(), setfreg=(), setmem=(), fl=0, layout=None):
    """Harness scenario lines + the static part of the spec's trace record."""
    lines = [('cfg', '%d %d %d %d %d %d' % (cfg + (nr, nf, ram)))]
    if data:
        lines.append(('src', '.data'))
        lines.append(('src', ' '.join(str(d) for d in data)))
    lines.append(('src', '.text'))
    for k, i in enumerate(code):
        lines.append(('src', '%d %s' % (k, itext(i))))
    lines.append(('in', inp.encode('latin-1').hex()))
    for r, v in setreg:
        lines.append(('setreg', '%s %d' % (r, v & M64)))
    if fl:
        lines.append(('setreg', 'FL %d' % fl))
    for r, v in setfreg:
        lines.append(('setfreg', '%s %d' % (r, v & M64)))
    for a, v in setmem:
        lines.append(('setmem', '%d %d' % (a, v & M64)))
    rec = {'id': sid, 'prog': [ijson(i) for i in code], 'nr': nr, 'nf': nf, 'ram': ram, 'data': [word(d) for d in data],
           'inp': [ord(c) for c in inp], 'ir': [{'r': r, 'v': word(v)} for r, v in setreg],
           'ifr': [{'r': r, 'v': word(v)} for r, v in setfreg], 'im': [{'a': a, 'v': word(v)} for a, v in setmem], 'ifl': fl}
    return lines, rec


def rndcfg(rng):
    return (rng.choice([1, 1, 2, 3, 4, 8]), rng.choice([1, 2, 2, 3, 4, 6, 8, 16]), rng.choice([1, 1, 2, 4, 8]))


def parse_cpu(status, lines):
    """Strict conversion of a cpu-mode trace to the observation fields."""
    if status != 'ok':
        return {'st': 'crash:' + status}
    d = {}
    for l in lines:
        k, _, v = l.partition(' ')
        if k in d:
            raise ValueError('duplicate field ' + k)
        d[k] = v
    o = {'st': d['st'], 'mem': [word(int(x)) for x in d['mem'].split()], 'out': list(bytes.fromhex(d['out'])),
         'left': list(bytes.fromhex(d['left']))}
    if d['st'] == 'halt':
        regs = dict(x.split(':') for x in d['regs'].split())
        o['pc'] = word(int(regs.pop('IP')))
        o['regs'] = {r: word(int(v)) for r, v in regs.items()}
        o['fl'] = int(d['fl'])
        o['fregs'] = {}
        for x in d['fregs'].split():
            r, v = x.split(':')
            v = int(v)
            if (v & 0x7ff0000000000000) == 0x7ff0000000000000 and v & 0xfffffffffffff:
                v = 0x7ff8000000000000
            o['fregs'][r] = word(v)
    return o
