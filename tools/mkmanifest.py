import json, sys, os
sys.path.insert(0, os.path.join(os.path.dirname(__file__), '..', 'bin'))
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import importlib
mods = ['props_cpu', 'props_vm', 'props_dbg', 'props_src', 'props_asm', 'props_msg', 'props_dinfo', 'props_cli']
claimed = set()
for m in mods:
    if os.path.exists(os.path.join(V, 'bin', m + '.py')):
        claimed |= set(importlib.import_module(m).CHECKS)
T = {
 'C01': ('TLC model checking of the Pipeline design model, and TLA+ trace validation of whole runs against the sequential ISA spec (TLC)', 'Random structured programs under random machine widths; every run of the pipelined CPU must end in the state the TLA+ ISA reaches. Trusts the ISA spec and TLC; samples programs, exhaustive design models are bounded. Pipeline explores every order of fetch, execution, memory access and retirement of small random hazard programs (4-6 instructions, window up to 4-5), which are then run on the real CPU in all widths.'),
 'C02': ('TLA+ trace validation of single instructions over operand/flag grids (TLC)', 'Every instruction and documented operand form over boundary values, all conditions under all flag values. Trusts the word/float arithmetic modules of the spec.'),
 'C03': ('TLC model checking of the Pipeline design model, and TLA+ trace validation with poisoned wrong paths (TLC)', 'Every condition, taken and not, with each kind of side effect on the path not taken, plus random programs; sampled widths. Pipeline explores every order of fetch, execution, memory access and retirement of small random branch programs (4-6 instructions, window up to 4-5), which are then run on the real CPU in all widths.'),
 'C04': ('TLC model checking of the Pipeline design model, and TLA+ trace validation of faulting runs (TLC)', 'Every faulting instruction form with observable work around it, plus random faulting programs; memory and output at the error are compared. Pipeline explores every order of fetch, execution, memory access and retirement of small random faulting programs (4-6 instructions, window up to 4-5), which are then run on the real CPU in all widths.'),
 'C05': ('TLC model checking of the Pipeline and ProtocolModel design models, and TLA+ trace validation of protocol sessions against DebugVM (TLC)', 'Random interleavings of SINGLESTEP and CONTINUE over random programs; each stop compared with the sequential machine. Pipeline explores every order of fetch, execution, memory access and retirement of small random single-stepped programs (4-6 instructions, window up to 4-5), which are then run on the real CPU in all widths. ProtocolModel explores all request sequences up to a depth on small programs (a step is one instruction checked as invariants); every edge is replayed on the real VM.'),
 'C06': ('TLC model checking of the ProtocolModel design model, replay of its edges, and TLA+ trace validation of protocol sessions against DebugVM (TLC)', 'Random request histories at every kind of stop; well-formed in-range requests and unknown words. ProtocolModel explores all request sequences up to a depth on small programs (well-formed answers leave the machine alone checked as invariants); every edge is replayed on the real VM.'),
 'C07': ('TLC model checking of the Pipeline and ProtocolModel design models, and TLA+ trace validation of protocol sessions against DebugVM (TLC)', 'Random peeks and pokes at stops, biased to cells and registers with accesses in flight. Pipeline explores every order of fetch, execution, memory access and retirement of small random stepped and poked programs (4-6 instructions, window up to 4-5), which are then run on the real CPU in all widths. ProtocolModel explores all request sequences up to a depth on small programs (pokes and peeks, watch stops checked as invariants); every edge is replayed on the real VM.'),
}
extra = os.path.join(V, 'tools', 'techniques.json')
if os.path.exists(extra):
    T.update({k: tuple(v) for k, v in json.load(open(extra)).items()})
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in claimed and i in T:
        checks.append({'property': i, 'quick_cmd': 'python3 bin/check.py %s' % i, 'thorough_cmd': 'python3 bin/check.py %s --tier thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i, 'technique': T[i][0], 'level': 'model_checking', 'level_note': T[i][1]})
    else:
        na.append({'property': i, 'reason': 'check not built yet'})
json.dump({'version': 1, 'setup_cmd': 'bash bin/setup.sh', 'checks': checks, 'not_applicable': na,
           'notes': 'TLA+ (TLC). No hooks in /repo: the harness uses the public classes. See DESIGN.md.'}, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', [x['property'] for x in na])
