#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl, the harness directives and the notes below."""
import json, os, re, glob
V = os.path.dirname(os.path.abspath(__file__))
have = set(); conc = set()
for f in glob.glob(V + '/harness/*.cpp'):
    for l in open(f):
        if l.startswith('//@ entry'):
            p = re.search(r'prop=(\w+)', l).group(1); have.add(p)
            if ' conc' in l: conc.add(p)
NA = json.load(open(V + '/not_applicable.json')) if os.path.exists(V + '/not_applicable.json') else {}
checks, na = [], []
for l in open(V + '/properties.jsonl'):
    p = json.loads(l)['id']
    if p in have and p not in NA:
        checks.append({'property': p, 'quick_cmd': 'python3 run.py %s --tier quick' % p, 'thorough_cmd': 'python3 run.py %s --tier thorough' % p,
          'technique': 'bounded symbolic execution of the real code\'s LLVM bitcode, Z3 deciding every branch, address and assertion' + ('; thread schedules explored exhaustively up to a preemption bound' if p in conc else ''),
          'level': 'model_checking',
          'level_note': 'Holds for every value of the symbolic inputs within the bounds listed per entry in the evidence file (sizes, steps' + (', preemptions; sequentially consistent memory' if p in conc else '') + '); nothing is claimed beyond them. Trusts clang 18 -O1, Z3, the executor in engine/ and the library models in rt/; each counterexample is replayed natively under AddressSanitizer before it is reported.'})
    else: na.append({'property': p, 'reason': NA.get(p, 'check under construction')})
m = {'version': 1, 'setup_cmd': 'make -s -j8 && python3 run.py --warm', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: the harnesses in harness/ include the library\'s headers and sources as they are. stubs/ holds stand-ins for the shm, affinity and demangle submodules, which are absent from this checkout.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1); open(V + '/MANIFEST.json', 'a').write('\n')
print(len(checks), 'checks', len(na), 'not applicable')

# the generated parts of DESIGN.md: what each entry decides within which bounds, and the planted changes
ents = {}
for f in sorted(glob.glob(V + '/harness/*.cpp')):
    for l in open(f):
        if l.startswith('//@ entry'): ents.setdefault(re.search(r'prop=(\w+)', l).group(1), []).append((l.split()[2], os.path.basename(f), ' conc' in l, re.search(r'bound="([^"]*)"', l).group(1)))
t = ''
for l in open(V + '/properties.jsonl'):
    d = json.loads(l); t += '**%s %s** (%s)\n\n' % (d['id'], d['title'], ', '.join(sorted({e[1] for e in ents.get(d['id'], [])})) or 'not claimed')
    for n, f, c, b in ents.get(d['id'], []): t += '* `%s`%s: %s\n' % (n, ' (threads)' if c else '', b)
    t += '\n'
s = '| planted change | property | needs | caught by |\n|---|---|---|---|\n'
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    d = json.load(open(f)); pf = os.path.dirname(f) + '/patch.diff'; s += '| %s | %s | %s | %s |\n' % (os.path.basename(os.path.dirname(f)), d['property'], d['needs'], d.get('caught_by', d['property']))
doc = open(V + '/DESIGN.md').read()
doc = re.sub(r'(<!-- table -->\n).*?(<!-- /table -->)', lambda m: m.group(1) + t + m.group(2), doc, flags=re.S)
doc = re.sub(r'(<!-- seeds -->\n).*?(<!-- /seeds -->)', lambda m: m.group(1) + s + m.group(2), doc, flags=re.S)
open(V + '/DESIGN.md', 'w').write(doc)
