#!/usr/bin/env python3
"""replay.py FILE: run the recorded scenario again on the current tree and show trace and stderr"""
import json, os, sys, subprocess
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
d = json.load(open(sys.argv[1]))
print(d['what'][:3000])
s = vlib.Scratch()
b = vlib.build()
i = d['input']
open(s.path('s'), 'w').write(vlib.render('x', [tuple(x) for x in i['lines']]))
for l in i['lines']:
    print('   ', *l)
subprocess.run([b + '/harness', i['mode'], s.path('s'), s.path('t'), '1', '60', '600'], env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0:exitcode=77'))
print(open(s.path('t')).read())
s.close()
