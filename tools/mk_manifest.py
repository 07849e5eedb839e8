import json, importlib.util, pathlib, sys
V = pathlib.Path(__file__).resolve().parent.parent
props = [json.loads(l) for l in (V / 'properties.jsonl').read_text().splitlines()]
info = json.loads((V / 'tools' / 'levels.json').read_text())
checks = []
for p in props:
    i = p['id']; d = {**info['default'], **info.get(i, {})}
    checks.append(dict(property = i, quick_cmd = f'bin/check {i}', thorough_cmd = f'VERIF_TIER=thorough bin/check {i}', technique = d['technique'], level = d['level'], level_note = d['level_note']))
m = dict(version = 1, setup_cmd = 'bin/setup', checks = checks, not_applicable = info.get('not_applicable', []), notes = info.get('notes', ''))
(V / 'MANIFEST.json').write_text(json.dumps(m, indent = 1) + '\n')
