"""Writes properties.jsonl and MANIFEST.json from catalog.py."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from catalog import PROPS, NA, TRUST
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
  with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in PROPS + NA:
      assert len(p['title']) <= 80, p['id']
      f.write(json.dumps({
          'id': p['id'], 'title': p['title'], 'statement': p['statement'],
          'quantifier': {'over': p['over'], 'text': p['quant']},
          'why_tests_cant': p['why'],
          'anchors': {'files': p['files'], 'mechanism': [
              {'name': a, 'where': b} for a, b in p['mech']]}}) + '\n')
  m = {
      'version': 1,
      'setup_cmd': 'python3 -m compileall -q sa >/dev/null 2>&1 || true',
      'checks': [{
          'property': p['id'],
          'quick_cmd': f'python3 sa/run.py {p["id"]} --tier quick',
          'thorough_cmd': f'python3 sa/run.py {p["id"]} --tier thorough',
          'evidence_file': f'evidence/{p["id"]}.json',
          'technique': p['technique'],
          'level': 'other',
          'level_note': 'Sound within the model for all inputs, not sampled. '
                        + p['note'] + ' ' + TRUST,
      } for p in PROPS],
      'not_applicable': [{'property': p['id'], 'reason': p['reason']}
                         for p in NA],
      'notes': 'Every check parses /repo/causal_effect_bandits on every run and '
               'decides its obligations from the source; nothing is executed. '
               'Exit 2: something could not be decided.',
  }
  with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')


main()
