"""Instructions as data: text for the implementation, JSON for the specification."""
import struct
from vlib import word

CONDJ = ['JZ', 'JE', 'JNZ', 'JNE', 'JG', 'JGE', 'JL', 'JLE', 'JA', 'JAE', 'JB', 'JBE', 'JO', 'JNO', 'JS', 'JNS']
BIN = ['ADD', 'SUB', 'MUL', 'DIV', 'IMUL', 'IDIV', 'AND', 'OR', 'XOR', 'LSH', 'RSH']
UN = ['INC', 'DEC', 'NEG', 'NOT']
FBIN = ['FADD', 'FSUB', 'FMUL', 'FDIV']


def bits(d):
    return struct.unpack('<Q', struct.pack('<d', d))[0]


def frombits(b):
    return struct.unpack('<d', struct.pack('<Q', b & ((1 << 64) - 1)))[0]


N = {'k': 'N'}
def R(r): return {'k': 'R', 'r': r if isinstance(r, str) else 'R%d' % r}
def I(v): return {'k': 'I', 'v': v}
def RI(r, v): return {'k': 'RI', 'r': R(r)['r'], 'v': v}
def F(i): return {'k': 'F', 'r': 'F%d' % i}
def D(d): return {'k': 'D', 'v': d}
def M(b='', o=0, x='', s=1, form=None):
    b = b if isinstance(b, str) else 'R%d' % b
    x = x if isinstance(x, str) else 'R%d' % x
    return {'k': 'M', 'b': b, 'o': o, 'x': x, 's': s}


def ins(op, a=N, b=N):
    return {'op': op, 'a': a, 'b': b}


def dtext(d):
    s = repr(d)
    if 'e' in s or 'inf' in s or 'nan' in s:
        s = '%.340f' % d
        s = s.rstrip('0')
        if s.endswith('.'):
            s += '0'
    return s


def otext(o):
    k = o['k']
    if k in ('R', 'F'):
        return o['r']
    if k == 'I':
        return str(o['v'])
    if k == 'RI':
        return '%s %s %d' % (o['r'], '+' if o['v'] >= 0 else '-', abs(o['v']))
    if k == 'D':
        return dtext(o['v'])
    if k == 'M':
        b, off, x, s = o['b'], o['o'], o['x'], o['s']
        if not b and not x:
            return '[%d]' % off
        if not b:
            return '[%s * %d]' % (x, s)
        t = b
        if off or o.get('zo'):
            t += ' %s %d' % ('+' if off >= 0 else '-', abs(off))
        if x:
            t += ' + ' + x
            if s != 1 or o.get('os'):
                t += ' * %d' % s
        return '[' + t + ']'
    raise ValueError(k)


def itext(i):
    ops = [otext(o) for o in (i['a'], i['b']) if o['k'] != 'N']
    return i['op'] + (' ' + ', '.join(ops) if ops else '')


def ojson(o):
    k = o['k']
    if k in ('I', 'RI'):
        return dict(o, v=word(o['v']))
    if k == 'D':
        return dict(o, v=word(bits(o['v'])))
    if k == 'M':
        return {'k': 'M', 'b': o['b'], 'o': word(o['o']), 'x': o['x'], 's': word(o['s'])}
    return o


def ijson(i):
    return {'op': i['op'], 'a': ojson(i['a']), 'b': ojson(i['b'])}



NUM = r'[+-]?\d+'
_pats = [
    (r'\[(%s)\]' % NUM, lambda g: M(o=int(g[0]))),
    (r'\[(R\d+|SP|BP|IP|FLAGS)\]', lambda g: M(b=g[0])),
    (r'\[(R\d+|SP|BP|IP) ?([+-]) ?(%s)\]' % NUM, lambda g: M(b=g[0], o=int(g[2]) * (-1 if g[1] == '-' else 1))),
    (r'\[(R\d+|SP|BP|IP) ?\* ?(%s)\]' % NUM, lambda g: M(x=g[0], s=int(g[1]))),
    (r'\[(R\d+|SP|BP|IP) ?\+ ?(R\d+|SP|BP|IP)\]', lambda g: M(b=g[0], x=g[1])),
    (r'\[(R\d+|SP|BP|IP) ?\+ ?(R\d+|SP|BP|IP) ?\* ?(%s)\]' % NUM, lambda g: M(b=g[0], x=g[1], s=int(g[2]))),
    (r'\[(R\d+|SP|BP|IP) ?([+-]) ?(%s) ?\+ ?(R\d+|SP|BP|IP)\]' % NUM, lambda g: M(b=g[0], o=int(g[2]) * (-1 if g[1] == '-' else 1), x=g[3])),
    (r'\[(R\d+|SP|BP|IP) ?([+-]) ?(%s) ?\+ ?(R\d+|SP|BP|IP) ?\* ?(%s)\]' % (NUM, NUM),
     lambda g: M(b=g[0], o=int(g[2]) * (-1 if g[1] == '-' else 1), x=g[3], s=int(g[4]))),
    (r'(R\d+|SP|BP|IP|FLAGS)', lambda g: R(g[0])),
    (r'(F\d+)', lambda g: {'k': 'F', 'r': g[0]}),
    (r'(R\d+|SP|BP|IP) ?([+-]) ?(%s)' % NUM, lambda g: RI(g[0], int(g[2]) * (-1 if g[1] == '-' else 1))),
    (r'(%s)' % NUM, lambda g: I(int(g[0]))),
    (r'([+-]?\d+\.\d*(?:e[+-]?\d+)?)', lambda g: D(float(g[0]))),
]
import re
_pats = [(re.compile(p + r'\Z'), f) for p, f in _pats]


def parse_operand(t):
    t = t.strip()
    for p, f in _pats:
        m = p.match(t)
        if m:
            return f(m.groups())
    return None


def parse_ins(t):
    """The instruction a printed line denotes, None if it denotes none."""
    m = re.match(r'([A-Z]+)(?: (.*))?\Z', t.strip())
    if not m:
        return None
    ops = [parse_operand(x) for x in m.group(2).split(',')] if m.group(2) else []
    if len(ops) > 2 or None in ops:
        return None
    return ins(m.group(1), *ops)
