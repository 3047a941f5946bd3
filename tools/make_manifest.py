"""writes /verif/MANIFEST.json"""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
try: NOTES = json.load(open(os.path.join(H, 'tools', 'notes.json')))
except IOError: NOTES = {}
checks = []
for p in props:
    n = NOTES.get(p['id'], {})
    checks.append(dict(property=p['id'], quick_cmd='./check %s' % p['id'], thorough_cmd='./check %s --tier thorough' % p['id'],
                       technique=n.get('technique', 'run-time checked contracts on the real functions against a specification model (bounded stand-in)'),
                       level=n.get('level', 'exploration'),
                       level_note=n.get('level_note', 'bounded: random histories compared with an independent specification; nothing proved yet')))
json.dump(dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=[],
               notes='./check <id> runs the proof obligations (when present) and the bounded run-time contracts; ./check <id> --replay FILE replays a violation. See DESIGN.md.'),
          open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
