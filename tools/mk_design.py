'''Assembles DESIGN.md from tools/design_head.md, tools/design_props.md and the recorded results (tools/results.json: written by tools/record.py).'''
import json, pathlib, sys
V = pathlib.Path(__file__).resolve().parent.parent; T = V / 'tools'
R = json.loads((T / 'results.json').read_text())
out = [(T / 'design_head.md').read_text().rstrip(), '', (T / 'design_props.md').read_text().strip(), '']
out += ['## 5. Behaviour-preserving edits', '', (T / 'design_refactor.md').read_text().strip(), '', '| edit | check | result | obligations proved / undecided / refuted without replay |', '|---|---|---|---|']
for r in R['refactors']: out.append(f"| {r['id']} | {r['property']} | {r['verdict']} | {r['proved']} / {r['undecided']} / {r['loud']} |")
out += ['', '## 6. Obligations on the unchanged tree', '', 'Per property: obligations generated and discharged, back ends, solver seconds, wall seconds of the proof, functions under contract. None is bounded.', '',
        '| property | obligations | discharged | back ends | solver s | wall s | functions |', '|---|---|---|---|---|---|---|']
for p, r in R['proofs'].items(): out.append(f"| {p} | {r['obligations']} | {r['discharged']} | {r['backends']} | {r['solver_s']} | {r['wall_s']} | {r['functions']} |")
out += ['', '## 7. Planted bugs', '', (T / 'design_bugs.md').read_text().strip(), '', '| bug | property | deductive part alone | whole check | needs |', '|---|---|---|---|---|']
for r in R['bugs']:
    m = json.loads((V / 'seeded' / r['id'] / 'meta.json').read_text())
    out.append(f"| {r['id']} | {r['property']} | {r['proof']} | {r['check']} | {m['needs']} |")
(V / 'DESIGN.md').write_text('\n'.join(out) + '\n')
