"""C18: messengers.  The models Framing and ThreadQueue are checked by TLC to
implement Channel; schedules of Messenger are replayed over the real
messengers and the recorded traces validated by MessengerTrace."""
import re
from vlib import *


def model(run, module, cfg, what, workers=4):
    rc, out, st, di = tlc(module, cfg, run.scratch, workers=workers, tag='m')
    if rc != 0 or 'No error has been found' not in out:
        raise Machinery('%s: the model does not have its properties (%s)\n%s' % (module, what, out[-3000:]))
    run.states += di
    run.transitions += st
    run.count(**{'model_states_' + module: di})


def schedules(run, n, nmsg, depth):
    """behaviours of Messenger, as TLC simulates them"""
    cfg = 'INIT GenInit\nNEXT GenNext\nCONSTANTS NMsg = %d Depth = %d\n' % (nmsg, depth)
    rc, out, st, di = tlc('Messenger', cfg, run.scratch, workers=1, tag='g%d' % depth,
                          extra=['-simulate', 'num=%d' % n, '-depth', str(3 * depth + 12), '-seed', str(run.seed * 1000 + depth)])
    txt = re.sub(r'\n\s+', ' ', out)
    r = []
    for l in re.findall(r'<<\s*"H",\s*(<<.*?>>)\s*>>\s*\n', txt + '\n'):
        r.append([(d, k, int(i)) for d, k, i in re.findall(r'<<"([ab])", "([src])", (\d+)>>', l)])
    run.transitions += st
    if len(r) < n // 2:
        raise Machinery('too few schedules: %d of %d\n%s' % (len(r), n, out[-2000:]))
    return r


def payload(r, big):
    x = r.random()
    if x < .12: return 'hex'
    if x < .5: return 'hex ' + bytes(r.randrange(256) for _ in range(r.randint(1, 40))).hex()
    if x < .6: return 'hex ' + r.choice([b'\0', b'\0\0\0\0\0\0\0\0', b'OK', b'\xff' * 9, b'REASON:SW_BKPT', b'\n', b'a\0b', b'\x08' + b'\0' * 7]).hex()
    n = r.choice([255, 256, 257, 300, 1023, 1024, 1025, 4096, 5000, r.randint(41, 3000)] + ([65535, 65536, 65537, 100000, r.randint(10 ** 5, 10 ** 6)] if big else []))
    return 'gen %d %d' % (n, r.randrange(10 ** 6))


def events(status, lines):
    if 'noport' in lines:
        return None
    ev = []
    for l in lines:
        p = l.split(' ')
        if len(p) >= 2 and p[0] in 'sRETCP':
            ev.append({'k': p[0], 'd': p[1], 'm': p[2] if len(p) > 2 and p[0] in 'sR' else ''})
    if status != 'ok':
        ev.append({'k': status.split(' ')[0], 'd': 'a', 'm': ''})
    return ev


def C18(run):
    r = run.rng
    q = run.quick()
    model(run, 'Framing', 'SPECIFICATION Spec\nCONSTANTS Hdr = 2 MaxLen = %d MaxMsgs = %d\nINVARIANTS Prefix EndOk\nPROPERTIES Live Ends Refines\n'
          % (2, 2 if q else 3), 'framing')
    model(run, 'ThreadQueue', 'SPECIFICATION Spec\nCONSTANT MaxMsgs = %d\nINVARIANTS Fifo Mutex\nPROPERTIES Live Refines\n' % (4 if q else 8), 'queue')
    scens = {}
    for depth, n in ((3, run.n(150, 600)), (8, run.n(300, 1500)), (20, run.n(150, 1000)), (60, run.n(20, 200))):
        for h in schedules(run, n, 4, depth):
            k = len(scens)
            sid = '%s-%d' % (run.prop, k)
            kind = ('tcp', 'thread', 'owner', 'tcp')[k % 4]
            sc = {'a': [], 'b': []}
            # a receive that must wait finds its message sent later, a wait
            # before it makes it find the message there
            slow = r.choice([0, 0, 30, 300])
            for i, (d, op, m) in enumerate(h):
                if op == 'c' and kind != 'tcp':
                    break
                if r.random() < .25 and slow:
                    sc[d].append('w%d' % r.randint(1, slow))
                sc[d].append('s%d' % m if op == 's' else op)
            # big messages both ways may fill the buffers of both sides
            lines = [('kind', kind)] + [('m', payload(r, kind != 'tcp')) for _ in range(4)] + \
                [('a', ' '.join(sc['a'])), ('b', ' '.join(sc['b'])), ('n', str(k))]
            if kind == 'tcp' and r.random() < .6:
                lines += [('maxread', str(r.choice([1, 3, 7, 50, 700]))), ('maxsend', str(r.choice([0, 1, 5, 100])))]
            elif kind != 'tcp' and r.random() < .7:
                lines += [('spurious', str(r.randint(0, 6))), ('jitter', str(r.choice([0, 1, 40, 200])))]
            scens[sid] = lines
    # one way traffic of big messages over TCP
    for _ in range(run.n(40, 200)):
        k = len(scens)
        ms = [payload(r, True) for _ in range(r.randint(1, 4))]
        seq = [r.randrange(len(ms)) for _ in range(r.randint(1, 5))]
        a = ' '.join('s%d' % m for m in seq) + ' c'
        b = ' '.join('r' for _ in seq) + ' r'
        if r.random() < .5:
            a, b = b, a
        scens['%s-%d' % (run.prop, k)] = [('kind', 'tcp')] + [('m', m) for m in ms] + [('a', a), ('b', b), ('n', str(k)),
                                                                                         ('maxread', str(r.choice([0, 5000, 70000]))), ('maxsend', str(r.choice([0, 5000, 70000])))]
    # the stream cut anywhere: every position of every header, and others
    cuts = [['e%d+%d' % (i, o) for i in (0, 1, 2) for o in offs] for offs in
            [[k] for k in range(1, 9)] + [[1, 2, 3, 4, 5, 6, 7, 8], [4, 8], [7, 9], [8, 9], [3, 10]]]
    stops = ['', 'e0+0', 'e0+1', 'e0+7', 'e0+8', 'e0+9', 'e1+0', 'e1-1', 'e1+1', 'e1+4', 'e1+8', 'e2+0', 'e2-1', 'e2+5', 'e2+8', 'e2+9', 'e3-1']
    for c in cuts + [None] * run.n(200, 1500):
        for rep in range(1 if c is None else run.n(2, 6)):
            k = len(scens)
            cc = c or [str(r.randrange(1001)) for _ in range(r.randint(0, 6))] + ['e%d%+d' % (r.randrange(4), r.randint(-3, 12)) for _ in range(r.randint(0, 5))]
            lines = [('kind', 'stream')] + [('m', payload(r, r.random() < .1)) for _ in range(3)] + [('cuts', ' '.join(cc)), ('nap', str(r.choice([100, 300])))]
            if r.random() < (.3 if c else .6):
                lines.append(('stop', r.choice(stops)))
            if r.random() < .3:
                lines.append(('maxread', str(r.choice([1, 2, 5, 100]))))
            if r.random() < .3:
                lines.append(('maxsend', str(r.choice([1, 2, 5, 100]))))
            scens['%s-%d' % (run.prop, k)] = [l for l in lines if l[1] or l[0] != 'stop']
    b = run.build()

    def go(ids, tag, batch, limit, nproc):
        tr = run_harness(b, 'msg', [(s, scens[s]) for s in ids], run.scratch, batch=batch, limit=limit, tag=tag, nproc=nproc)
        ids = [s for s in ids if s in tr]
        recs = []
        for s in ids:
            ev = events(*tr[s])
            if ev is None:
                run.count(noport=1)
            else:
                recs.append({'id': s, 'ev': ev})
        v, st, di = validate('MessengerTrace', recs, run.scratch, tag=tag)
        return tr, v, st, di
    tr, v, st, di = go(list(scens), 'q', 25, 15, NPROC)
    run.states += di
    run.transitions += st
    run.traces += len(v)
    run.count(events=sum(len(t[1]) for t in tr.values()))
    for s in list(scens)[:400:100]:
        if v.get(s, ('', ''))[0] == 'ok':
            run.samples.append({'id': s, 'scenario': ['%s %s' % x for x in scens[s]], 'trace': tr[s][1][:12]})
    bad = {s: x[1] for s, x in v.items() if x[0] == 'bad'}
    if bad:
        # schedules depend on timing: what is rejected again in one of several
        # repetitions counts
        left = dict(bad)
        for rep in range(3):
            ids = [s for s in sorted(left)][:40]
            if not ids:
                break
            tr2, v2, _, _ = go(ids, 'c%d' % rep, 1, 30, 4)
            for s in ids:
                if v2.get(s, ('', ''))[0] == 'bad':
                    run.violation(s, '%s: %s | %s\n%s\n%s' % (s, tr2[s][0], v2[s][1][:800], '\n'.join('%s %s' % x for x in scens[s]), '\n'.join(tr2[s][1][:40])),
                                  {'mode': 'msg', 'lines': ['%s %s' % x for x in scens[s]]})
                    left.pop(s)
        hard = [s for s in left if tr[s][0] == 'ok']
        run.count(unconfirmed=len(left))
        # a wrong message cannot come from timing alone
        for s in hard[:5]:
            run.violation(s, '%s: %s\n%s' % (s, left[s][:800], '\n'.join(tr[s][1][:40])), {'mode': 'msg', 'lines': ['%s %s' % x for x in scens[s]]})


CHECKS = {'C18': C18}
