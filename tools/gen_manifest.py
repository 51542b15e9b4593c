"""Writes MANIFEST.json from the check modules."""
import ast, json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {}
DEFAULT = ('runtime monitoring: trace oracle over deterministic simulated sessions of the real manager under randomised '
           'schedules and workloads')
NOTE = ('Oracle over recorded executions: every property clause is judged on each observed execution; schedules, faults '
        'and inputs are sampled from VERIF_SEED, not enumerated. Trusts the simulated process/pipe/event layer '
        '(gmon/sim.py).')
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    pid = p['id']
    fn = os.path.join(HERE, 'gmon', 'checks', pid.lower() + '.py')
    if not os.path.exists(fn):
        na.append({'property': pid, 'reason': 'No check built yet.'})
        continue
    vals = {}
    for n in ast.parse(open(fn).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ('LEVEL', 'TECHNIQUE', 'LEVEL_NOTE'):
            vals[n.targets[0].id] = ast.literal_eval(n.value)
    checks.append({'property': pid, 'quick_cmd': f'./check {pid} --tier quick',
                   'thorough_cmd': f'./check {pid} --tier thorough', 'technique': vals.get('TECHNIQUE', DEFAULT),
                   'level': vals.get('LEVEL', 'exploration'), 'level_note': vals.get('LEVEL_NOTE', NOTE)})
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: everything is observed at documented extension points and at the standard-library '
              'boundary. known_findings.json lists repaired defects and known findings.'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
