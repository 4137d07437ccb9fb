"""Regenerates MANIFEST.json from properties.jsonl and the check modules."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    'default': 'model checking: exhaustive bounded enumeration of inputs/histories on the real code, compared step by step with an executable reference model',
    'C19': 'model checking: exhaustive enumeration of crash points, torn writes and I/O errors over every file-system call of the real store (LD_PRELOAD fault injector)',
}
checks, na = [], []
for line in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(line)
    f = os.path.join(V, 'mc', 'checks', p['id'].lower() + '.py')
    if not os.path.exists(f):
        na.append({'property': p['id'], 'reason': 'check not built yet'})
        continue
    lev = re.search(r"^LEVEL = '(\w+)'", open(f).read(), re.M).group(1)
    checks.append({
        'property': p['id'], 'quick_cmd': 'bin/check {} quick'.format(p['id']),
        'thorough_cmd': 'bin/check {} thorough'.format(p['id']),
        'technique': TECH.get(p['id'], TECH['default']), 'level': lev,
        'level_note': 'Complete within the bounds stated in the check module and its evidence (rule, assumptions); every model '
                      'trace is executed on the real code in /repo. Trusted: the reference model in mc/, Python, numpy, and that '
                      'bugs show within the bounds.'})
json.dump({'version': 1, 'setup_cmd': 'bash bin/setup', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks are needed: everything is observed through the public API. See DESIGN.md.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
