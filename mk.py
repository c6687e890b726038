"""Writes properties.jsonl and MANIFEST.json from the table in catalogue.json.py.

Run by hand after editing ``props_table.py``; the results are committed."""
import json

from props_table import NOT_APPLICABLE, PROPS

TECH = ('symbolic execution of the real Python functions (all feasible paths), property as SMT assertion over '
        'real arithmetic with uninterpreted fluid properties, decided by z3 (sampled queries re-decided by '
        'cvc5); counterexamples replayed on the real code with floats')
NOTE = ('Solver verdict for every input value within the bounds printed in the evidence file, over real '
        'arithmetic; trusts the symbolic-value layer (vs/sym.py, vs/shims.py) and z3. A violation is '
        'reported only after the counterexample reproduces on the unmodified code with floats. ')


def main():
    with open('properties.jsonl', 'w') as f:
        for p in PROPS + NOT_APPLICABLE:
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['text']},
                'why_tests_cant': p['why'],
                'anchors': {'files': p['files'],
                            'mechanism': [{'name': a, 'where': b} for a, b in p['mechanism']]},
            }) + '\n')
            assert len(p['title']) <= 80, p['title']
            assert p['statement'].count('. ') <= 2, p['id']
    man = {
        'version': 1,
        'setup_cmd': './py -c "import vs, run; print(\'ready\')"',
        'checks': [{
            'property': p['id'],
            'quick_cmd': f'./py run.py {p["id"]} --tier quick',
            'thorough_cmd': f'./py run.py {p["id"]} --tier thorough',
            'evidence_file': f'evidence/{p["id"]}.json',
            'technique': TECH,
            'level': 'other',
            'level_note': NOTE + p.get('note', ''),
        } for p in PROPS],
        'not_applicable': [{'property': p['id'], 'reason': p['reason']} for p in NOT_APPLICABLE],
        'notes': 'No hooks in /repo: the checks import the sources of /repo and run them on symbolic values.',
    }
    with open('MANIFEST.json', 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
