"""writes MANIFEST.json from the checks present in sim/checks and the reasons below"""
import importlib, json, pathlib, sys
V = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V))
PURE = ('a pure function of its inputs: no schedule, clock, I/O, randomness or multi-party history can make it true or false, '
        'so deterministic simulation has nothing to decide ({}); the parts that do depend on threads, history or faults are claimed '
        'separately')
NA = {
    'N01': PURE.format('symmetry and Hermiticity of the dynamical matrix are algebra on one input; schedule dependence is C01'),
    'N02': PURE.format('the sum rule is algebra on one force constants array; its interaction with history and interruption is C03/C04'),
    'N03': PURE.format('quadrature and normalisation of one array; batching and histories are C13/C15'),
    'N04': PURE.format('unit and phase conventions on intact files; damaged files and failing storage are C07/C08'),
    'N05': PURE.format('physics identities of one evaluation; schedules, batches and histories are C05/C15'),
    'N06': PURE.format('geometry of one cell'),
}
checks = []
done = set()
for p in sorted((V/'sim'/'checks').glob('c*.py')):
    m = importlib.import_module(f'sim.checks.{p.stem}')
    c = m.CHECK
    done.add(c.id)
    note = ('seeded search, not exhaustive: quiet means no violation in the simulated runs counted in the evidence file. '
            + ' '.join(c.assumptions))
    checks.append(dict(property=c.id, quick_cmd=f'./check.py {c.id} --tier quick', thorough_cmd=f'./check.py {c.id} --tier thorough',
                       evidence_file=f'evidence/{c.id}.json', technique=c.technique, level=c.level, level_note=note.strip()))
na = [dict(property=k, reason=v) for k, v in NA.items()]
for l in (V/'properties.jsonl').read_text().splitlines():
    i = json.loads(l)['id']
    if i not in done and i not in NA:
        na.append(dict(property=i, reason='no check registered yet'))
json.dump(dict(version=1, setup_cmd='./check.py --setup',
               hooks=dict(guard='none: every seam is outside /repo', enable='no hooks are compiled into /repo; the checks build the C extension '
                          'out of tree against a simulated OpenMP/malloc/LAPACK runtime and interpose on Python seams', source_commits=[]),
               checks=checks, not_applicable=na), open(V/'MANIFEST.json', 'w'), indent=1)
print([c['property'] for c in checks], 'n/a', [n['property'] for n in na])
