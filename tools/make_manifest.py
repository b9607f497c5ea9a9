#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and the check modules present."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
from vf import core  # noqa: E402
core.setup_paths()

TECH = {
    'C04': 'stateful property-based testing (copy histories) against a reference encoder',
    'C05': 'stateful model-based property testing of access histories',
    'C11': 'stateful model-based property testing of cache histories with file-system faults',
    'C24': 'property-based testing with injected write faults at every write',
    'C36': 'property-based testing of histories with metamorphic scaling relations on memory and descriptors',
    'C23': 'structured fuzzing (mutation, truncation) against a reference parser',
}
DEFAULT = 'property-based testing (Hypothesis) against an independent reference model'


def main():
    checks, missing = [], []
    with open(os.path.join(HERE, 'properties.jsonl')) as f:
        props = [json.loads(line) for line in f]
    for p in props:
        pid = p['id']
        if not os.path.exists(os.path.join(HERE, 'vf', 'checks', pid.lower() + '.py')):
            missing.append(dict(property=pid, reason='The check for this property is still being built.'))
            continue
        m = importlib.import_module('vf.checks.' + pid.lower())
        n = sum(pr.quick * pr.shards for pr in m.PROPS if pr.cases is None) * core.QUICK_FACTOR
        note = getattr(m, 'NOTE', None) or (
            'Generated-input search: about %d random cases per quick run%s (15 times as many or more when thorough), '
            'shrunk on failure; evidence by testing, not proof. %s' % (
                n, ' plus enumerated ones' if any(pr.cases for pr in m.PROPS) else '',
                ' '.join(getattr(m, 'ASSUMPTIONS', [])[:2])))
        checks.append(dict(
            property=pid,
            quick_cmd='python3-vt run.py %s --tier quick' % pid,
            thorough_cmd='python3-vt run.py %s --tier thorough' % pid,
            evidence_file='evidence/%s.json' % pid,
            technique=getattr(m, 'TECHNIQUE', TECH.get(pid, DEFAULT)),
            level=getattr(m, 'LEVEL', 'exploration'),
            level_note=note.strip()))
    manifest = dict(version=1, setup_cmd='python3-vt -c "import hypothesis, numpy"', checks=checks,
                    not_applicable=missing)
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(manifest, f, indent=1)
        f.write('\n')
    try:
        import jsonschema
        with open('/root/.vp/MANIFEST.schema.json') as f:
            jsonschema.validate(manifest, json.load(f))
    except (ImportError, FileNotFoundError):
        pass
    print(len(checks), 'checks;', len(missing), 'not claimed')


main()
