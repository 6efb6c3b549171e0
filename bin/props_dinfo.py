"""C19: the debug-information reader validated against DebugInfo."""
from props_asm import G, unesc
from vlib import *

TAGS = ['function', 'primitive_type', 'structured_type', 'pointer_type', 'array_type', 'variable', 'scope']
NUMS = ['ATTR_type', 'ATTR_id', 'ATTR_begin_addr', 'ATTR_end_addr', 'ATTR_size']


class D(G):
    def num(self):
        r = self.r
        return [str(r.choice([0, 1, 2, 3, 7, 10, r.randrange(100), r.randrange(100000), 2**31 - 1]))]

    def ident(self):
        r = self.r
        return r.choice(['a', 'b', 'x1', 'main', 'swap', '_t', 'ATTR_name', 'DIE_scope', 'int', 'float', 'char', 'R0', 'text', 'tmp_2', 'PUSH', 'debug_source'])

    def locins(self):
        r = self.r
        k = r.randrange(5)
        if k == 0: return ['ADD']
        if k == 1: return ['DEREFERENCE']
        n = (['-'] if r.random() < .4 else []) + self.num()
        if k == 2: return ['BASE_REG_OFFSET'] + n
        return ['PUSH'] + (n if r.random() < .5 else [r.choice(['R0', 'R1', 'R10', 'BP', 'SP', 'IP', 'F1'])])

    def loc(self):
        r = self.r
        if r.random() < .35:
            return ['`'] + (self.locins() if r.random() < .8 else []) + ['`']
        t = ['[']
        n = r.randint(0, 4) if r.random() < .9 else r.randint(5, 9)
        for i in range(n):
            t += self.locins() + ([';'] if i < n - 1 or r.random() < .05 else [])
        return t + [']']

    def attr(self, k):
        r = self.r
        if k in NUMS: return [k, ':'] + self.num()
        if k == 'ATTR_name': return [k, ':', self.ident() if r.random() < .6 else self.string()]
        if k == 'ATTR_location': return [k, ':'] + self.loc()
        t = [k, ':', '{']
        n = r.randint(0, 3) if r.random() < .8 else r.randint(4, 9)
        for i in range(n):
            t += self.num() + [':', '{'] + self.num() + [':', self.ident(), '}'] + ([','] if i < n - 1 or r.random() < .4 else [])
        return t + ['}']

    def die(self, tag, depth):
        r = self.r
        if tag == 'compilation_unit': ks, ch = [], [t for t in TAGS if t != 'scope']
        elif tag == 'function': ks, ch = ['ATTR_name', 'ATTR_begin_addr', 'ATTR_end_addr'], ['scope']
        elif tag == 'scope': ks, ch = ['ATTR_begin_addr', 'ATTR_end_addr'], ['scope', 'variable', 'variable']
        elif tag == 'variable': ks, ch = ['ATTR_name', 'ATTR_location', 'ATTR_type'], []
        elif tag == 'primitive_type': ks, ch = ['ATTR_name', 'ATTR_size', 'ATTR_id'], []
        elif tag in ('pointer_type', 'array_type'): ks, ch = ['ATTR_type', 'ATTR_size', 'ATTR_id'], []
        else: ks, ch = ['ATTR_name', 'ATTR_size', 'ATTR_id', 'ATTR_members'], []
        ks = [k for k in ks if r.random() < .85]
        r.shuffle(ks)
        parts = [self.attr(k) for k in ks]
        if r.random() < .04:
            parts.append(self.attr(r.choice(NUMS + ['ATTR_name', 'ATTR_location', 'ATTR_members'])))
            ch = ch + TAGS
        if depth < 6:
            for _ in range((r.choice([0, 0, 1, 1, 2, 3]) if r.random() < .93 or depth > 2 else r.randint(4, 9)) if ch else 0):
                parts.append(self.die(r.choice(ch), depth + 1))
        if r.random() < .3:
            r.shuffle(parts)
        t = ['DIE_' + tag, ':', '{']
        for i, p in enumerate(parts):
            t += p + ([','] if i < len(parts) - 1 or r.random() < .5 else [])
        return t + ['}']

    def lines(self):
        r = self.r
        n = r.randint(0, 10) if r.random() < .95 else r.randint(11, 60)
        ls = r.sample(range(40 if n <= 10 else r.choice([70, 700, 70000])), n)
        if r.random() < .6:
            ls.sort()
        return sum([[str(l), ':'] + (self.num() if r.random() < .3 else [str(l // 2)]) for l in ls], [])

    def source(self):
        r = self.r
        return ''.join(r.choice(list('int main() {}"\'\\@#.;:`$') + ['\n', '\n', '\n\n', '\t', '    ', 'return a;', '.text\nHALT\n', '1.2.3', '.debug_line\n1: 2\n', '# no comment', '.debug_source\n'])
                       for _ in range(r.randint(0, 40)))

    def sections(self):
        r = self.r
        secs = []
        if r.random() < .8: secs.append(['.', 'text'] + sum([self.ins() for _ in range(r.randint(0, 5))], []))
        if r.random() < .4: secs.append(['.', 'data'] + self.data())
        if r.random() < .75: secs.append(['.', 'debug_line'] + self.lines())
        if r.random() < .85: secs.append(['.', 'debug_info'] + (self.die('compilation_unit', 0) if r.random() < .95 else []))
        for _ in range(r.choice([0, 0, 1])):
            secs.append(['.'] + [t for t in self.other() if not t.startswith('debug_') and t not in ('.', '1.5')] if r.random() < .8 else ['.', 'bss'])
        if r.random() < .05:
            secs.append(r.choice(secs) if secs else ['.', 'x'])
        r.shuffle(secs)
        return secs

    def mutate(self, toks):
        r = self.r
        if not toks:
            return ['7']
        for _ in range(r.choice([1, 1, 1, 2])):
            k = r.randrange(len(toks))
            x = r.randrange(6)
            new = r.choice(['{', '}', ':', ',', '[', ']', '`', ';', '-', '7', '"s"', 'ATTR_name', 'ATTR_size', 'ATTR_foo', 'ATTR', 'DIE_scope', 'DIE_x', 'DIE', 'foo', '1.5', 'ADD', 'PUSH', '.', '@', '(', '99999999999'])
            if x == 0: toks = toks[:k] + toks[k + 1:]
            elif x == 1: toks = toks[:k] + [toks[k]] + toks[k:]
            elif x == 2: toks = toks[:k] + [new] + toks[k + 1:]
            elif x == 3: toks = toks[:k] + [new] + toks[k:]
            elif x == 4 and k + 1 < len(toks): toks = toks[:k] + [toks[k + 1], toks[k]] + toks[k + 2:]
            else: toks = toks[:max(1, k)]
            if not toks:
                return ['.']
        return toks


def observe(status, lines):
    o = {'parse': 'none', 'hasline': False, 'line': [], 'hasinfo': False, 'info': {'tag': 'none', 'at': [], 'ch': []}, 'hassrc': False, 'src': []}
    stack = []
    a0 = {'k': '', 'n': word(0), 's': '', 'm': [], 'l': []}
    for l in lines:
        k, _, v = l.partition(' ')
        if k == 'parse': o['parse'] = v
        elif k == 'line':
            o['hasline'] = True
            o['line'] = [[word(int(x)) for x in p.split(':')] for p in v.split()]
        elif k == 'source': o['hassrc'] = True
        elif k == 'l': o['src'].append(list(bytes.fromhex(v).decode('latin-1')))
        elif k == 'die': stack.append({'tag': v, 'at': [], 'ch': []})
        elif k == 'end':
            d = stack.pop()
            if stack: stack[-1]['ch'].append(d)
            else:
                o['hasinfo'] = True
                o['info'] = d
        elif k == 'name': stack[-1]['at'].append(dict(a0, k='ATTR_name', s=bytes.fromhex(v).decode('latin-1')))
        elif k == 'num':
            n, x = v.split()
            stack[-1]['at'].append(dict(a0, k=n, n=word(int(x))))
        elif k == 'members':
            stack[-1]['at'].append(dict(a0, k='ATTR_members', m=[{'o': word(int(x.split(':')[0])), 'ty': word(int(x.split(':')[1])),
                                                                  'n': bytes.fromhex(x.split(':')[2]).decode('latin-1')} for x in v.split()]))
        elif k == 'loc':
            ls = []
            for x in v.split():
                c, _, y = x.partition(':')
                ls.append({'op': {'r': 'pushr', 'o': 'push', 'a': 'add', 'd': 'deref', 'b': 'base'}[c], 'n': word(int(y)) if c in 'ob' else word(0), 'r': y if c == 'r' else ''})
            stack[-1]['at'].append(dict(a0, k='ATTR_location', l=ls))
    if status != 'ok':
        o['parse'] = status
    return o


def run_dinfo(run, texts):
    b = run.build()
    sc = [(s, [('text', t.encode('latin-1').hex())]) for s, t in texts.items()]

    def go(sc, tag, batch):
        tr = run_harness(b, 'dinfo', sc, run.scratch, batch=batch, limit=20, tag=tag)
        sc = [x for x in sc if x[0] in tr]
        recs = [{'id': s, 'text': list(texts[s]), 'obs': observe(*tr[s])} for s, _ in sc]
        return (tr,) + validate('DebugInfoTrace', recs, run.scratch, tag=tag)
    tr, v, st, di = go(sc, 'd', 100)
    run.states += di
    run.transitions += st
    run.traces += sum(1 for x in v.values() if x[0] != 'undef')
    run.count(undefined=sum(1 for x in v.values() if x[0] == 'undef'),
              accepted=sum(1 for s in v if v[s][0] == 'ok' and 'yes' in v[s][1]), rejected=sum(1 for s in v if v[s][0] == 'ok' and 'no' in v[s][1]))
    for s in v:
        if v[s][0] == 'ok' and len(run.samples) < 3:
            run.samples.append({'id': s, 'scenario': texts[s], 'verdict': v[s][1]})
    bad = {s: tr[s][0] + ' | ' + x[1] for s, x in v.items() if x[0] == 'bad'}
    if bad:
        bad = retry(bad, tr)
        tr2, v2, _, _ = go([x for x in sc if x[0] in bad], 'c', 1)
        bad2 = {s: tr2[s][0] + ' | ' + x[1] for s, x in v2.items() if x[0] == 'bad'}
        bad2 = confirm(run, bad, bad2, tr, len(sc))
        for s, why in bad2.items():
            run.violation(s, '%s: %s\n%s' % (s, why[:1200], texts[s][:800]), {'mode': 'dinfo', 'text': texts[s]})


def C19(run):
    r = run.rng
    g = D(r)
    t = {}

    def add(text):
        t['%s-%d' % (run.prop, len(t))] = text
    for _ in range(run.n(2500, 20000)):
        secs = g.sections()
        tail = ('\n.debug_source' + ('\n' + g.source() if r.random() < .95 else '')) if r.random() < .5 else ''
        x = r.random()
        if secs and x > .55:
            # the damage goes to a debug section more often than not
            k = [i for i, s in enumerate(secs) if len(s) > 1 and s[1] in ('debug_line', 'debug_info')]
            i = r.choice(k) if k and r.random() < .9 else r.randrange(len(secs))
            if x < .85:
                secs[i] = secs[i][:2] + g.mutate(secs[i][2:])
                add(g.layout(sum(secs, [])) + tail)
            else:
                add(g.scratch(g.layout(sum(secs, []))) + tail)
        else:
            add(g.layout(sum(secs, [])) + tail)
    # every single token of small but complete sections left out, doubled or replaced
    for _ in range(run.n(2, 12)):
        d = ['DIE_compilation_unit', ':', '{']
        for p in [g.die('structured_type', 5), g.die('array_type', 5), g.die('primitive_type', 5),
                  ['DIE_function', ':', '{'] + g.attr('ATTR_name') + [','] + g.attr('ATTR_begin_addr') + [','] + g.attr('ATTR_end_addr') + [',', 'DIE_scope', ':', '{',
                   'DIE_variable', ':', '{', 'ATTR_name', ':', 'a', ',', 'ATTR_location', ':', '[', 'BASE_REG_OFFSET', '-', '2', ';', 'PUSH', 'R1', ';', 'ADD', ']', ',', 'ATTR_type', ':', '1', '}', ',',
                   'DIE_variable', ':', '{', 'ATTR_type', ':', '2', ',', 'ATTR_location', ':', '`', 'PUSH', '7', '`', '}', '}', '}'],
                  ['DIE_structured_type', ':', '{', 'ATTR_members', ':', '{', '0', ':', '{', '1', ':', 'x', '}', ',', '3', ':', '{', '1', ':', 'y', '}', '}', '}']]:
            d += p + [',']
        whole = [['.', 'text', 'HALT'], ['.', 'debug_line', '0', ':', '0', '4', ':', '2'], ['.', 'debug_info'] + d + ['}']]
        r.shuffle(whole)
        toks = sum(whole, [])
        new = ['{', '}', ':', ',', '[', ']', '`', ';', '-', '7', '"s"', 'ATTR_name', 'DIE_scope', 'foo', '1.5', '.', 'PUSH', 'R1', '=', '+']
        add(g.layout(toks))
        for i in range(len(toks)):
            add(g.layout(toks[:i] + toks[i + 1:]))
            add(g.layout(toks[:i] + [toks[i]] + toks[i:]))
            add(g.layout(toks[:i] + [r.choice(new)] + toks[i + 1:]))
            add(g.layout(toks[:i] + [r.choice(new)] + toks[i:]))
    # long runs of blanks and comments
    for pad in (' ', '\n', '# c\n', '\t', '#\n'):
        add('.foo\n' + r.choice(['?', '~ ', '@\n']) * 40000 + '\n.debug_line\n1: 2')
        add('.debug_line\n' + pad * 30000 + '1: 2' + pad * 2000)
    run_dinfo(run, t)


CHECKS = {'C19': C19}
