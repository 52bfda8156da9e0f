#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from props.txt.

props.txt: blocks separated by blank lines, with lines "key: text":
  id, title, statement, over, quantifier, why, files, mech (name @ where; may be
  repeated), na (reason; makes the property not applicable), level_note.
"""
import glob, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props, checks, na = [], [], []
for block in re.split(r'\n\s*\n', open(os.path.join(V, 'tools', 'props.txt'), encoding='utf-8').read()):
    d = {}
    for line in block.strip().split('\n'):
        if not line or line.startswith('#'):
            continue
        k, v = line.split(':', 1)
        d.setdefault(k.strip(), []).append(v.strip())
    if not d:
        continue
    g = lambda k: d[k][0]
    i = g('id')
    hs = glob.glob(os.path.join(V, 'harness', i + '_*.cc'))
    if not hs and 'na' not in d:
        print('no harness for', i, file=sys.stderr)
        continue
    assert len(g('title')) <= 80, (i, len(g('title')))
    props.append(dict(id=i, title=g('title'), statement=g('statement'),
                      quantifier=dict(over=g('over').split(), text=g('quantifier')), why_tests_cant=g('why'),
                      anchors=dict(files=g('files').split(),
                                   mechanism=[dict(name=m.split(' @ ')[0], where=m.split(' @ ')[1]) for m in d['mech']])))
    for f in g('files').split():
        if not os.path.exists('/repo/' + f):
            print(i, 'no file', f, file=sys.stderr)
    if 'na' in d:
        na.append(dict(property=i, reason=g('na')))
        continue
    bounds = []
    for h in sorted(hs):
        for line in open(h, encoding='utf-8'):
            m = re.match(r'//@ (bound|assume) (.*)', line)
            if m:
                bounds.append(('Bounds: ' if m.group(1) == 'bound' else 'Assumed: ') + m.group(2).strip())
    real = any('mode=real' in open(h, encoding='utf-8').read() for h in hs)
    note = ' '.join(bounds)
    if real:
        note += ' Entries in real mode: doubles are mathematical reals, rounding is not modelled.'
    cmd = 'python3 tools/vfcheck.py ' + i
    checks.append(dict(property=i, quick_cmd=cmd, thorough_cmd='VERIF_TIER=thorough ' + cmd,
                       technique='Symbolic execution of the LLVM bitcode of the real code with Z3 deciding every assertion over all input values within the bounds',
                       level='model_checking', level_note=note[:3000]))
with open(os.path.join(V, 'properties.jsonl'), 'w', encoding='utf-8') as f:
    for p in props:
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
m = dict(version=1, setup_cmd='make -C engine -j8 && python3 tools/vfcheck.py --setup', checks=checks, not_applicable=na)
with open(os.path.join(V, 'MANIFEST.json'), 'w', encoding='utf-8') as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write('\n')
print(len(props), 'properties', len(checks), 'checks', len(na), 'not applicable')
