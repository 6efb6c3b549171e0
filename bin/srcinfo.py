"""Debugging information: random trees of entries, their .debug_info text, the
records the specification uses, and expressions over them."""
import re
from isa import *
from gen import FLOATS
from vlib import word, M64

CODES = lambda s: [ord(c) for c in s]


def node(tag, name='', id=-1, ty=-1, size=-1, b=-1, e=-1, mem=None, loc=None, ch=()):
    return {'tag': tag, 'name': name, 'nc': CODES(name), 'id': id, 'ty': ty, 'size': size, 'b': b, 'e': e,
            'hasm': mem is not None, 'mem': [{'o': o, 'ty': t, 'n': n, 'nc': CODES(n)} for o, t, n in (mem or [])],
            'loc': loc or [], 'ch': list(ch)}


NODIE = {'tag': 'none'}
TAGS = {'unit': 'compilation_unit', 'function': 'function', 'scope': 'scope', 'variable': 'variable', 'prim': 'primitive_type',
        'ptr': 'pointer_type', 'struct': 'structured_type', 'arr': 'array_type'}


def locop(o):
    if o['op'] == 'push':
        return 'PUSH ' + (o['v']['r'] if o['v']['k'] == 'r' else str(unw(o['v']['a'])))
    return {'base': 'BASE_REG_OFFSET %d' % unw(o['n']) if 'n' in o else '', 'add': 'ADD', 'deref': 'DEREFERENCE'}[o['op']]


def unw(w):
    v = w[0] | w[1] << 16 | w[2] << 32 | w[3] << 48
    return v - (1 << 64) if v >> 63 else v


def emit(d, r, ind=0):
    """Text lines of an entry, with the layout left to chance."""
    at = []
    if d['name']:
        at.append('ATTR_name: ' + (d['name'] if re.fullmatch(r'[A-Za-z_]\w*', d['name']) and r.random() < .8 else '"%s"' % d['name']))
    for k, a in (('id', 'id'), ('ty', 'type'), ('size', 'size'), ('b', 'begin_addr'), ('e', 'end_addr')):
        if d[k] != -1:
            at.append('ATTR_%s: %d' % (a, d[k]))
    if d['hasm']:
        m = ['%d: {%d: %s}' % (x['o'], x['ty'], x['n']) for x in d['mem']]
        at.append('ATTR_members: { ' + ', '.join(m) + (',' if m and r.random() < .5 else '') + ' }')
    if d['tag'] == 'variable' and (d['loc'] or r.random() < .3):
        t = [locop(o) for o in d['loc']]
        at.append('ATTR_location: ' + ('`%s`' % ''.join(t) if len(t) < 2 and r.random() < .5
                                       else '[' + '; '.join(t) + (';' if t and r.random() < .2 else '') + ']'))
    r.shuffle(at)
    items = [[a] for a in at] + [emit(c, r, ind + 1) for c in d['ch']]
    if d['ch'] and r.random() < .3:      # attributes between the children
        k = r.randrange(len(items))
        a = [x for x in items if x[0].startswith('ATTR')]
        c = [x for x in items if not x[0].startswith('ATTR')]
        k = r.randint(0, len(c))
        items = c[:k] + a + c[k:]
    out = ['DIE_%s: {' % TAGS[d['tag']]]
    for i, x in enumerate(items):
        x = list(x)
        if i + 1 < len(items) or r.random() < .4:
            x[-1] += ','
        out += x
    out.append('}')
    if r.random() < .1:
        out.insert(r.randint(1, len(out) - 1), '# ' + r.choice(['comment', 'DIE_scope: {', '}']))
    return [' ' * r.choice([0, ind, 2 * ind]) + x for x in out]


FUNCS = ['main', 'f', 'f2', 'mai', 'rec']     # names that are prefixes of others
PRIMS = ('int', 'float', 'char')


class Info:
    """types: id -> entry; vars: entries with their value type"""

    def __init__(self, r, p, broken=.15, hiding=True):
        self.locals = ['x', 'y', 'g', 'i', 'p', 'tmp', 'loc'] if hiding else ['x', 'y', 'l1', 'l2', 'l3', 'tmp', 'loc']
        self.r, self.p = r, p
        self.n = len(p.code)
        self.types, self.vars, self.free = {}, [], 0
        self.cells = {}            # addr -> type id put there
        ids = r.sample(range(0, 40), 24)
        nodes = []

        def add(d):
            if d['id'] in self.types:
                return
            self.types[d['id']] = d
            nodes.append(d)
        prim = {}
        for t in PRIMS:
            prim[t] = ids.pop()
            add(node('prim', t, prim[t], size=1))
        if r.random() < .1:
            add(node('prim', 'unsigned', ids.pop(), size=1))
        self.prim = prim
        ntypes = r.randint(3, 8)
        names = ['list', 'struct list', 'pt', 'Vec']
        memnames = ['a', 'b', 'next', 'val', 'zz', 'x', 'Y', 'A1']
        for _ in range(ntypes):
            k = r.choice(['ptr', 'ptr', 'struct', 'arr'])
            i = ids.pop()
            have = [t for t in self.types if self.size(t) is not None and self.size(t) <= 6]
            if k == 'ptr':
                to = r.choice(list(self.types) + ([i + 100] if r.random() < .1 else []))
                add(node('ptr', id=i, ty=to, size=1))
            elif k == 'arr':
                to = r.choice(have)
                n = r.choice([1, 2, 3, 4] if self.size(to) < 3 else [1, 2])
                add(node('arr', id=i, ty=to, size=n))
            elif names:
                nm = names.pop(r.randrange(len(names)))
                mem, off, size = [], 0, 0
                mn = r.sample(memnames, r.randint(1, 4))
                pid = ids.pop() if len(ids) > 1 else None
                for m in mn:
                    if pid is not None and r.random() < .3:
                        t = pid          # pointer to itself
                        s = 1
                    else:
                        t = r.choice(have)
                        s = self.size(t)
                    if off + s > 7:
                        continue
                    if r.random() < .1:
                        off += 1
                    mem.append((off, t, m))
                    off += s
                if pid is not None:
                    add(node('ptr', id=pid, ty=i, size=1))
                r.shuffle(mem)
                add(node('struct', nm, id=i, size=off, mem=mem))
        if r.random() < broken:          # something incomplete
            d = dict(r.choice(nodes))
            f = r.choice(['id', 'size', 'ty', 'name', 'hasm'])
            k = nodes.index(self.types[d['id']])
            d2 = dict(d)
            if f == 'name':
                d2.update(name='', nc=[])
            elif f == 'hasm':
                d2.update(hasm=False, mem=[])
            else:
                d2[f] = -1
            nodes[k] = d2
        # layout of the variables in memory
        self.order = sorted({m['n'] for t in self.types.values() for m in t['mem']})
        self.top = 0
        glob = [self.var(n) for n in ['g', 'h', 'i', 'x', 'p', 'q', 's', 'arr', 'str', '_u', 'big2'][:r.randint(3, 9)]]
        self.glob = {d['name'] for d in glob}
        funcs = self.functions()
        ch = nodes + glob + funcs
        r.shuffle(ch)
        if r.random() < .5:
            ch.sort(key=lambda d: d['tag'] in ('function', 'variable'))
        self.die = node('unit', ch=ch)

    def size(self, t):
        d = self.types.get(t)
        if d is None:
            return None
        if d['tag'] == 'arr':
            s = self.size(d['ty'])
            return None if s is None else s * d['size']
        return d['size']

    def place(self, n):
        """a run of n cells; the memory is small, so they are shared at times"""
        lim = max(n, min(self.p.ram - 10, 28))
        if self.top + n > lim:
            return self.r.randint(0, max(0, lim - n))
        self.top += n
        return self.top - n

    def reg(self):
        return self.r.choice(['R%d' % k for k in range(self.p.nr)])

    def var(self, name, simple=True):
        r = self.r
        t = r.choice(list(self.types))
        s = self.size(t) or 1
        push = lambda v: {'op': 'push', 'v': v}
        M = lambda a: {'k': 'm', 'a': word(a)}
        Rg = lambda x: {'k': 'r', 'r': x}
        x = r.random()
        if x < (.7 if simple else .3):
            a = self.place(s)
            for k in range(s):
                self.cells.setdefault(a + k, None)
            self.fill(a, t)
            loc = [push(M(a))] if r.random() < .8 else [push(M(a - 3)), push(M(3)), {'op': 'add'}]
        elif x < .8 and self.types[t]['tag'] in ('prim', 'ptr'):
            loc = [push(Rg(self.reg()))]
        elif x < .88:
            loc = [{'op': 'base', 'n': word(-r.randint(1, 6) + (r.choice([1 << 30, -1 << 30, 1 << 16, 256]) if r.random() < .08 else 0))}]
        elif x < .93:
            loc = [push(Rg(r.choice(['SP', 'BP', 'SP', 'R0', 'IP']))), push(M(r.randint(-5, 3))), {'op': 'add'}]
            if r.random() < .5:
                loc[0], loc[1] = loc[1], loc[0]
        elif x < .97:
            loc = r.choice([[push(M(r.randrange(8))), {'op': 'deref'}],
                            [push(Rg(self.reg())), {'op': 'deref'}],
                            [{'op': 'base', 'n': word(-1)}, {'op': 'deref'}, push(M(1)), {'op': 'add'}],
                            [push(M(2)), {'op': 'deref'}, {'op': 'deref'}],
                            [push(Rg(self.reg())), push(Rg('R0')), {'op': 'add'}]])
        else:
            loc = r.choice([[], [{'op': 'add'}], [{'op': 'deref'}], [push(M(1)), {'op': 'add'}], [push(Rg('R99'))],
                            [push(M(4000)), {'op': 'deref'}], [push(Rg('XX')), push(M(1)), {'op': 'add'}],
                            [push(M(9)), push(M(1)), push(M(2)), {'op': 'add'}]])
        ty = t if r.random() < .96 else r.choice([-1, 77])
        if loc and loc[-1]['op'] == 'push' and loc[-1]['v']['k'] == 'r' and self.types[t]['tag'] not in ('prim', 'ptr'):
            loc = loc + [push(M(0)), {'op': 'add'}]      # structures in registers are not specified
        d = node('variable', name, ty=ty, loc=loc)
        self.vars.append(d)
        return d

    def fill(self, a, t):
        d = self.types[t]
        if d['tag'] in ('prim', 'ptr'):
            self.cells[a] = t
        elif d['tag'] == 'struct':
            for m in d['mem']:
                if m['ty'] in self.types:
                    self.fill(a + m['o'], m['ty'])
        elif d['tag'] == 'arr':
            for k in range(d['size']):
                self.fill(a + k * self.size(d['ty']), d['ty'])

    def functions(self):
        r, n = self.r, self.n
        cuts = sorted(r.sample(range(n + 1), min(n + 1, r.randint(2, 5))))
        res = []
        for k, (b, e) in enumerate(zip(cuts, cuts[1:])):
            if r.random() < .15:
                continue
            ch = [self.var(v, False) for v in r.sample(self.locals[:5], r.choice([0, 0, 1, 2]))]
            ch += self.scopes(b, e, 0)
            r.shuffle(ch)
            d = node('function', FUNCS[k], b=b, e=e, ch=ch)
            if r.random() < .06:
                d[r.choice(['b', 'e'])] = -1
            res.append(d)
        r.shuffle(res)
        return res

    def scopes(self, b, e, depth):
        r = self.r
        if e - b < 1 or depth > 3 or r.random() < .15:
            return []
        cuts = sorted(r.sample(range(b, e + 1), min(e - b + 1, r.choice([2, 2, 3, 4]))))
        if depth == 0 and r.random() < .6:
            cuts = [b, e]
        res = []
        for b2, e2 in zip(cuts, cuts[1:]):
            ch = [self.var(v, False) for v in r.sample(self.locals, r.choice([0, 1, 1, 2, 3]))]
            ch += self.scopes(b2, e2, depth + 1)
            r.shuffle(ch)
            d = node('scope', b=b2, e=e2, ch=ch)
            if r.random() < .03:
                d[r.choice(['b', 'e'])] = -1
            res.append(d)
        return res

    # -------------------------------------------------- machine contents
    def value(self, t):
        r = self.r
        d = self.types.get(t)
        if d is None or d['tag'] not in ('prim', 'ptr'):
            return r.randint(0, 5)
        if d['tag'] == 'ptr':
            good = [a for a, x in self.cells.items() if x == d['ty']]
            firsts = [unw(v['loc'][0]['v']['a']) for v in self.vars if v['ty'] == d['ty'] and len(v['loc']) == 1
                      and v['loc'][0]['op'] == 'push' and v['loc'][0]['v']['k'] == 'm']
            c = good + firsts * 2
            return r.choice(c) if c and r.random() < .94 else r.choice([0, 3, self.p.ram - 1, self.p.ram, -1, 1 << 40, M64 >> 1, 1 << 63, -5])
        if d['name'] == 'float':
            return bits(r.choice(FLOATS[:] + [1.5, -2.25, 0.1, 3.0]))
        if d['name'] == 'char':
            return r.choice([0, 65, 97, 104, 105, 10, 9, 126, 200, 255, 128, 32, 0, 1 << 8, -1])
        return r.choice([0, 1, 2, 3, 5, -1, -7, 100, 1 << 31, 1 << 32, (1 << 62) + 1, -(1 << 63), (1 << 63) - 1])

    def contents(self, base=.5):
        s = ['sreg BP %d' % self.r.randint(6, 20)] if self.r.random() < base else []
        for a, t in sorted(self.cells.items()):
            if a < self.p.ram:
                s.append('sm %d %d' % (a, sgn(self.value(t))))
        for v in self.vars:
            if len(v['loc']) == 1 and v['loc'][0]['op'] == 'push' and v['loc'][0]['v']['k'] == 'r' and v['loc'][0]['v']['r'][0] == 'R' and self.r.random() < .7:
                if v['loc'][0]['v']['r'] != 'R99':
                    s.append('sreg %s %d' % (v['loc'][0]['v']['r'], sgn(self.value(v['ty']))))
        return s


def sgn(v):
    v &= M64
    return v - (1 << 64) if v >> 63 else v


# ------------------------------------------------------------------ tokens
OPS = ['->', '<=', '>=', '<<', '>>', '==', '!=', '&&', '||', '+', '-', '*', '/', '%', '=', '<', '>', '!', '&', '|', '^', '(', ')',
       '[', ']', '.', '$', ';', ',', '{', '}', ':', '`']


def tokens(s):
    """What the text consists of: longest match, as in C."""
    out, i = [], 0
    while i < len(s):
        c = s[i]
        if c.isspace():
            i += 1
        elif c == '#':
            while i < len(s) and s[i] != '\n':
                i += 1
        elif c.isdigit():
            m = re.match(r'[0-9][0-9.]*', s[i:]).group()
            i += len(m)
            if m.count('.') > 1 or ('.' not in m and int(m) > 0x7fffffff):
                out.append({'k': 'bad'})
            elif '.' in m:
                out.append({'k': 'float', 'v': word(bits(float(m)))})
            else:
                out.append({'k': 'num', 'v': word(int(m))})
        elif c.isalpha() or c == '_':
            m = re.match(r'[A-Za-z0-9_]+', s[i:]).group()
            i += len(m)
            out.append({'k': 'id', 'v': m})
        elif c == '"':
            m = re.match(r'"[^"\\]*"', s[i:])
            if not m:
                out.append({'k': 'bad'})
                break
            i += len(m.group())
            out.append({'k': 'string'})
        else:
            for o in OPS:
                if s.startswith(o, i):
                    out.append({'k': o})
                    i += len(o)
                    break
            else:
                out.append({'k': 'bad'})
                i += 1
    return out


# ------------------------------------------------------------------ expressions
OPS2 = ['==', '!=', '&&', '||', '<', '<=', '>=', '>', '<<', '>>', '|', '&', '^', '+', '-', '*', '/', '%']


def chains(r):
    """Every pair of operators in a chain without parentheses, and random longer chains with prefix operators."""
    small = ['1', '2', '3', '5', '7', '10', '13']
    res = [' '.join([r.choice(small), a, r.choice(small), b, r.choice(small)]) for a in OPS2 for b in OPS2]
    for _ in range(60):
        x = [r.choice(small)]
        for _ in range(r.randint(3, 5)):
            x += [r.choice(OPS2), r.choice(['', '', '', '-', '!', '- ']) + r.choice(small)]
        res.append(' '.join(x))
    r.shuffle(res)
    return res


INTS = ['0', '1', '2', '3', '7', '10', '63', '255', '2147483647', '100000']
FLTS = ['0.5', '1.0', '2.25', '0.1', '3.', '100.125', '0.0']


class ExprGen:
    def __init__(self, info, r):
        self.i, self.r = info, r
        self.old = 0
        self.paths = {}
        for v in info.vars:
            if v['ty'] in info.types and (v['name'] in info.glob or r.random() < .12):
                self.path(v['name'], v['ty'], 0)

    def key(self, t):
        d = self.i.types.get(t)
        if d is None:
            return None
        return d['name'] if d['tag'] == 'prim' else (d['tag'], d['ty'] if d['tag'] == 'ptr' else t)

    def path(self, s, t, depth):
        r = self.r
        k = self.key(t)
        if k is None:
            return
        L = self.paths.setdefault(k, [])
        if len(L) < 40:
            L.append((s, depth))
        if depth > 3:
            return
        d = self.i.types[t]
        if d['tag'] == 'ptr' and d['ty'] in self.i.types:
            to = self.i.types[d['ty']]
            self.path(r.choice(['*%s', '(*%s)', '%s[0]', '%s[%s]']).replace('%s', s, 1).replace('%s', r.choice(['0', '1', '-1', '0', '0', '1', '2'])), d['ty'], depth + 1) \
                if to['tag'] != 'struct' or r.random() < .5 else None
            if to['tag'] == 'struct':
                for m in to['mem']:
                    self.path('%s->%s' % (s if s[0] != '*' else '(%s)' % s, m['n']), m['ty'], depth + 1)
        elif d['tag'] == 'struct':
            for m in d['mem']:
                self.path('%s.%s' % (s if s[0] != '*' else '(%s)' % s, m['n']), m['ty'], depth + 1)
        elif d['tag'] == 'arr':
            ix = [str(x) for x in range(d['size'])] * 4 + ['-1', str(d['size']), r.choice(['1.0', '9223372036854775807', '-9223372036854775807', self.lval('char') or '0', self.lval('float') or '0.0'])]
            for _ in range(2):
                self.path('%s[%s]' % (s if s[0] != '*' else '(%s)' % s, r.choice(ix)), d['ty'], depth + 1)

    def grid(self, n):
        """operators over operands of every two kinds, most of which C would refuse"""
        r = self.r
        kinds = {'int': ['0', '1', '-1', '7', '(1 << 62)', '(1 << 63)'], 'float': ['0.0', '1.5', '(-2.25)'], 'char': [], 'ptr': [], 'struct': [], 'arr': []}
        for k, L in self.paths.items():
            c = k if isinstance(k, str) else k[0]
            kinds.setdefault(c, []).extend([x[0] for x in L[:4]] * 2)
        ptrs = [[x[0] for x in L[:6]] for k, L in self.paths.items() if k[0] == 'ptr']
        names = [k for k in kinds if kinds[k]]
        out = []
        for i in range(n):
            a, b = r.choice(kinds[r.choice(names)]), r.choice(kinds[r.choice(names)])
            if ptrs and i % 3 == 0:
                L = r.choice(ptrs)
                a, b = r.choice(L), r.choice(L)
                if r.random() < .5:
                    a = '(%s %s %s)' % (a, r.choice('+-'), r.choice(['1', '2', '3', '-1', '100', '(1 << 62)']))
            x = r.random()
            if x < .8:
                e = '%s %s %s' % (a, r.choice(OPS2 + (['-', '<', '>', '<=', '>=', '==', '!='] if i % 3 == 0 else [])), b)
            elif x < .9:
                e = r.choice(['-', '!', '*', '&', '- - ', '!!', '**', '*&', '&*']) + a
            else:
                e = '%s[%s]' % (a, b)
            out.append(r.choice(['evn ', 'evn ', 'evs ']) + e)
        return out

    def lval(self, k):
        L = self.paths.get(k)
        return self.r.choice(L)[0] if L else None

    def wrap(self, s):
        return '(%s)' % s if self.r.random() < .6 else s

    def gen(self, k, d):
        r = self.r
        if r.random() < .04:
            k = r.choice(list(self.paths) or ['int'])
        if r.random() < .05 and self.old:
            return '$%d' % r.randrange(self.old + 1)
        if d <= 0 or r.random() < .3:
            p = self.lval(k)
            if p and r.random() < .7:
                return p
            if k == 'int':
                return r.choice(INTS)
            if k == 'float':
                return r.choice(FLTS)
            return p or r.choice(INTS)
        if k == 'int':
            x = r.random()
            if x < .02:
                return '%s %s %s' % (r.choice(['(-9223372036854775807 - 1)', '(0 - 9223372036854775807 - 1)', '(1 << 63)']), r.choice('/%'), r.choice(['-1', '(0 - 1)', '1', '(1 - 1)', self.wrap(self.gen('int', 0))]))
            if x < .4:
                o = r.choice(['+', '-', '*', '/', '%', '&', '|', '^'])
                return '%s %s %s' % (self.wrap(self.gen('int', d - 1)), o, self.wrap(self.gen('int', d - 1)))
            if x < .48:
                return '%s %s %s' % (self.wrap(self.gen('int', d - 1)), r.choice(['<<', '>>']), r.choice(['0', '1', '4', '31', '32', '63']))
            if x < .68:
                t = r.choice(['int', 'int', 'float', 'char'] + [q for q in self.paths if q[0] == 'ptr'])
                o = r.choice(['==', '!=', '<', '<=', '>=', '>', '&&', '||'])
                return '%s %s %s' % (self.wrap(self.gen(t, d - 1)), o, self.wrap(self.gen(t, d - 1)))
            if x < .78:
                return r.choice(['-', '!', '- ', '--']) + self.wrap(self.gen('int', d - 1))
            if x < .86:
                o = r.choice(['+', '*', '/', '%', '&', '^', '-'])
                return '%s %s %s' % (self.wrap(self.gen('char', d - 1)), o, self.wrap(self.gen('char', d - 1)))
            if x < .92:
                ps = [q for q in self.paths if q[0] == 'ptr']
                if ps:
                    q = r.choice(ps)
                    return '%s - %s' % (self.wrap(self.gen(q, d - 1)), self.wrap(self.gen(q, d - 1)))
            return self.gen('int', 0)
        if k == 'float':
            if r.random() < .8:
                return '%s %s %s' % (self.wrap(self.gen('float', d - 1)), r.choice(['+', '-', '*', '/']), self.wrap(self.gen('float', d - 1)))
            return self.gen('float', 0)
        if k == 'char':
            return r.choice(['-', '!']) + self.wrap(self.gen('char', d - 1)) if r.random() < .3 else self.gen('char', 0)
        if k[0] == 'ptr' and r.random() < .6:
            i = self.gen('int', d - 2)
            p = self.wrap(self.gen(k, d - 1))
            return r.choice(['%s + %s' % (p, self.wrap(i)), '%s + %s' % (self.wrap(i), p), '%s - %s' % (p, self.wrap(i))])
        return self.gen(k, 0)

    def expr(self, depth=3):
        r = self.r
        k = r.choice(list(self.paths) + ['int', 'int', 'float'])
        s = self.gen(k, r.randint(0, depth))
        x = r.random()
        if x < .03:
            s = s[:r.randint(0, len(s))]
        elif x < .07 and s:
            i = r.randrange(len(s))
            s = s[:i] + r.choice(OPS + ['1', 'x', '@', '"a"', '~', '?', '9999999999', '1.2.3', "'"]) + s[i + r.randint(0, 1):]
        elif x < .09:
            s = ' '.join(r.choice(OPS + ['x', '1', 'g', 'p', '2.5']) for _ in range(r.randint(0, 6)))
        elif x < .12:
            s = r.choice(['nosuch', 'x.nosuch', 'p->nosuch', '*1', '1[0]', '$99', 'x = = 1', '(1', '1)', '1 2', '', '+1', '2 = 3', '1.5 + 1', '- 1.5', 'x.', '$', '$ 0', '!!1',
                          '**p', '&x', '1 + ', 's == s', '(((((1)))))', '1 / 0', '1.0 / 0.0', '5 % 0', 'a b'])
        return self.space(s)

    def space(self, s):
        r = self.r
        if r.random() < .1:
            s = s.replace(' ', '') if ' - -' not in s and '- >' not in s else s
        if r.random() < .1:
            s = '  ' + s.replace('+', ' + ') + ' '
        return s

    def assign(self):
        r = self.r
        k = r.choice(list(self.paths) or ['int'])
        l = self.lval(k) or 'x'
        if r.random() < .25:
            ks = [q for q in self.paths if q[0] in ('struct', 'arr')]
            if ks:
                k = r.choice(ks)
                l = self.lval(k)
        s = '%s = %s' % (l, self.gen(k, r.randint(0, 2)))
        x = r.random()
        if x < .12:
            s = '%s = %s' % (self.lval(k), s)
        elif x < .16:
            s = '%s = %s' % (l, r.choice(['1', '2.5', 'x', 'p', '*p']))
        elif x < .19:
            s = '%s = %s' % (self.gen(k, 2), self.gen(k, 1))
        elif x < .22:
            s = '(%s) + 1' % s
        elif x < .24:
            s = '-(%s)' % s
        elif x < .26 and self.old:
            s = '$%d = %s' % (r.randrange(self.old), self.gen(k, 1))
        return self.space(s)
