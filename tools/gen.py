#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the registry."""
import json, os, sys
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, HERE)
import registry
order = sorted(registry.PROPS)
def rec(i, p): return dict(id=i, title=p.title, statement=p.statement, quantifier=dict(over=p.over, text=p.quant), why_tests_cant=p.why,
    anchors=dict(files=p.files, mechanism=[dict(name=n, where=w) for n, w in p.mech]))
with open(HERE + '/properties.jsonl', 'w') as f:
    for i in order: f.write(json.dumps(rec(i, registry.PROPS[i]), ensure_ascii=False) + '\n')
    for i, (p, reason) in sorted(registry.NOT_APPLICABLE.items()): f.write(json.dumps(rec(i, p), ensure_ascii=False) + '\n')
m = dict(version=1, setup_cmd='python3 check.py --build',
    checks=[dict(property=i, quick_cmd=f'python3 check.py {i} quick', thorough_cmd=f'python3 check.py {i} thorough', evidence_file=f'evidence/{i}.json',
        technique='symbolic execution of the compiled real code (LLVM IR) with Z3 deciding every branch and assertion', level='model_checking',
        level_note='Every path of the compiled code within the bounds, decided by the solver for all values: ' + registry.PROPS[i].bounds + '. Nothing beyond the bounds is claimed. Trusted: rustc and LLVM, the translation to SMT (sampled paths are re-run natively on every run), Z3.') for i in order],
    not_applicable=[dict(property=i, reason=r) for i, (p, r) in sorted(registry.NOT_APPLICABLE.items())],
    notes='One engine (engine/), one harness crate per area (harness/), bounds and texts in props/. See DESIGN.md.')
json.dump(m, open(HERE + '/MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
open(HERE + '/MANIFEST.json', 'a').write('\n')
for i in order: assert len(registry.PROPS[i].title) <= 80 and registry.PROPS[i].statement.count('. ') < 3, i
print(len(order), 'properties')
# --- DESIGN.md
bugs = {}
for d in sorted(os.listdir(HERE + '/seeded')) if os.path.isdir(HERE + '/seeded') else []:
    bugs[d] = json.load(open(f'{HERE}/seeded/{d}/meta.json'))
C = HERE + '/tools/bugs/caught.json'
caught = json.load(open(C)) if os.path.exists(C) else {}
first = json.load(open(HERE + '/tools/bugs/first_missed.json'))
o = open(HERE + '/tools/design.md').read()
o += '\n## The properties\n\n`q`/`t`: bounds in the quick and the thorough tier; the text after them says what a bound means. Quick checks explore in the `dev` build, and bounds up to the one in parentheses also in `rel`; thorough ones both. All are decided by the machinery above; the assumptions common to all are listed in every evidence file.\n'
for i in order:
    p = registry.PROPS[i]
    o += f'\n### {i} {p.title}\n\n{p.statement}\n\n'
    o += f'- anchored in {", ".join(p.files)} ({"; ".join(n for n, _ in p.mech)})\n- over {p.quant}\n- within: {p.bounds}\n'
    for a in p.assumptions: o += f'- assumed: {a}\n'
    if p.note: o += f'- {p.note}\n'
    for j in p.jobs:
        q, t = [str(a) for a, _ in j.quick], [str(a) for a, _ in j.thorough]
        o += f'- `{j.area}::{j.entry}` q {",".join(q)} (rel: {",".join(map(str, j.qrel)) or "none"}); t {",".join(t)}: {j.what}\n'
    o += f'- why tests cannot settle it: {p.why}\n'
    b = [x for x in bugs if bugs[x]['property'] == i]
    if b: o += f'- planted bugs: {", ".join(b)}\n'
o += '\n## Not applicable\n\n'
for i, (p, r) in sorted(registry.NOT_APPLICABLE.items()): o += f'- {i} {p.title}: {r}\n'
if not registry.NOT_APPLICABLE: o += 'None: every property listed is decided.\n'
o += '\n## Planted bugs\n\nEach compiles, passes the existing tests, and comes with a demonstration. They were written from the statements and the code, before looking at what the checks cover; the last column says how the check of the property first fared, when it did not catch the bug at once.\n\n| bug | property | needs | caught by | at first |\n|---|---|---|---|---|\n'
for x, m in bugs.items(): o += f'| {x} | {m["property"]} | {m["needs"]} | {caught.get(x, "not run yet").replace("|", ": ")} | {first.get(x, "")} |\n'
open(HERE + '/DESIGN.md', 'w').write(o)
