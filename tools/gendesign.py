import json,glob
k=json.load(open('/verif/known_findings.json'))
s=open('/verif/DESIGN.md').read().split('\n## 5.')[0].rstrip()+'\n'
s+='''
## 5. What is not specified

Where documentation and code leave behaviour open (or C++ itself does), the specification says nothing and the generators
stay away, so no check can raise an alarm there:

* *Machine*: POP SP; POP or MOV to IP; shift amounts outside 1..63; NRW out of range; NaN moved to an integer register or
  memory; GETCHAR at end of input, before whitespace and for non-ASCII bytes; registers that do not exist; cycle counts
  (latency statistics are not architectural).
* *Protocol*: malformed and out-of-range requests; REGCOUNT/DATASIZE (they report the default configuration).
* *Debugger*: the program's own BKPT instructions (Native takes them for its own).
* *Expressions*: NaN/Inf operands, shift amounts out of range, assignments whose order C leaves open when it matters, structures
  in registers, structures containing themselves, self-referential pointer types, overlapping sibling scopes, two variables of one name
  in one scope, IP as assignment target, the digits floats are printed with, nesting deep enough to exhaust the stack.
* *Assembler*: non-ASCII bytes; numbers beyond int32 may be refused; `MOV R, R + i` and `LEA R, [R * i]` (doc/ and code
  disagree: either is accepted); register numbers with leading zeros or beyond int; damage inside skipped sections beyond what the lexer must read;
  files without `.text`.
* *Debug information*: repeated sections; text on the `.debug_source` line itself; the nesting rules, duplicate attributes,
  trailing semicolons and an empty section may be accepted or refused; one line given two addresses.
* *Command line*: GETCHAR, `$n` numbering after a re-run, bad option values of `run`, views after a CPU error, usage text versus
  error for malformed resume commands, tabs as separators, attaching to a VM with other sizes than the defaults, a program file
  changed between runs, `reg get FLAGS`, `help frame`.
* *C18*: scheduling by the operating system is sampled; exhaustive interleavings exist in the models only.
* Dead code (found by the coverage run in section 9) has no behaviour to specify.

## 6. Defects found and repaired

Each was found by a check (or while writing the specification and then shown by a check), is repaired by a `fix:` commit in
/repo, and is listed as `fixed` in known_findings.json; the checks report it again if it returns.

| property | commit | what failed |
|---|---|---|
'''
for e in k['fixed']:
    p,c,w=e.split(' ',3)[1:]
    s+='| %s | %s | %s |\n'%(p.split('=')[1],c,w.replace('|','\\|'))
s+='''
## 7. Known findings (recorded, not repaired)

'''
for e in k['findings']:
    s+='* **%s `%s`**: %s\n'%(e['property'],e['key'],e['what'])
s+='''
Both are kept in place by tests of the repository (repairing them makes a stable test fail). A dedicated scenario triggers each on
every run, so the KNOWN-FINDING line is always printed; other scenarios avoid the condition, and any other violation of the same property is still reported.

## 8. Planted bugs

`seeded/<id>/` holds planted bugs, each confirmed with tools/seedtest.sh (builds, all stable tests pass, demo 0 without and nonzero with the patch).
"Caught" is the result of the property's own quick check, run with tools/try.sh or vcheck.

| id | property | needs | caught |
|---|---|---|---|
'''
try: caught=json.load(open('/verif/tools/caught.json'))
except Exception: caught={}
for f in sorted(glob.glob('/verif/seeded/*/meta.json'),key=lambda f:json.load(open(f))['property']):
    m=json.load(open(f)); i=f.split('/')[-2]
    s+='| %s | %s | %s | %s |\n'%(i,m['property'],m['needs'].replace('|','\\|'),caught.get(i,'?'))
s+='''
Bugs tried and dropped because existing tests catch them: step-onto-watch, fourth-watchpoint, rerun-watchpoints.

'''
s+=open('/verif/tools/design_tail.md').read()
open('/verif/DESIGN.md','w').write(s)
