"""Write /verif/MANIFEST.json from properties.jsonl and the proof modules."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, 'tools'))
from levels import LEVELS
checks = []
for l in open(os.path.join(HERE, 'properties.jsonl'), encoding='utf-8'):
    p = json.loads(l)['id']
    level, technique, note = LEVELS[p]
    checks.append(dict(property=p, quick_cmd=f'python3-vt check.py {p}', thorough_cmd=f'python3-vt check.py {p} --thorough',
                       technique=technique, level=level, level_note=note))
m = dict(version=1, setup_cmd='python3-vt -c "import z3, cvc5; print(z3.get_version_string())"', checks=checks, not_applicable=[])
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w', encoding='utf-8'), indent=1, ensure_ascii=False)
