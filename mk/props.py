"""Writes properties.jsonl and MANIFEST.json from one list (python3 mk/props.py)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
NA = []

I = 'pdfmajor/interpreter/'
K = I + 'commands/'
P = 'pdfmajor/parser/'
CONV = 'pdfmajor/converters/'
U = 'pdfmajor/utils/'

VF = 'interprocedural value-flow analysis against a reference text'


def prop(id, title, statement, over, quant, why, files, mech, state=None, observe=None, tech=VF, note='', ):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files,
                      mech=mech, state=state, observe=observe, tech=tech, note=note))


def na(id, title, statement, over, quant, why, files, mech, reason):
    prop(id, title, statement, over, quant, why, files, mech)
    NA.append((id, reason))


exec(compile(open(os.path.join(ROOT, 'mk', 'list.py'), encoding='utf-8').read(), 'list.py', 'exec'))

with open(os.path.join(ROOT, 'properties.jsonl'), 'w', encoding='utf-8') as f:
    for p in PROPS:
        assert len(p['title']) <= 80, p['title']
        d = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
             'quantifier': {'over': p['over'], 'text': p['quant']},
             'why_tests_cant': p['why'],
             'anchors': {'files': p['files'],
                         'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                         'observe_at': p['observe'] or [], 'hook_needed': None}}
        if p['state']:
            d['anchors']['state'] = [{'name': a, 'meaning': b, 'where': c} for a, b, c in p['state']]
        f.write(json.dumps(d, ensure_ascii=False) + '\n')

nas = set(i for i, _ in NA)
man = {
    'version': 1,
    'setup_cmd': 'python3 -m compileall -q sa || true',
    'checks': [{
        'property': p['id'],
        'quick_cmd': 'python3 -m sa.run %s --tier quick' % p['id'],
        'thorough_cmd': 'python3 -m sa.run %s --tier thorough' % p['id'],
        'evidence_file': 'evidence/%s.json' % p['id'],
        'technique': p['tech'],
        'level': 'other',
        'level_note': p['note'] or ('Static: every path of the repository code through the listed obligations is '
                                    'abstracted to a normal form and compared with the reference, for arbitrary operand '
                                    'values and starting state; obligations that the analysis cannot resolve are '
                                    'reported as undecided, never as violations. Bounded to the operator sequences and '
                                    'call shapes the reference text names; floating-point rounding is treated as exact '
                                    'arithmetic.'),
    } for p in PROPS if p['id'] not in nas],
    'not_applicable': [{'property': i, 'reason': r} for i, r in NA],
    'notes': 'Everything is decided from the source under /repo on each run; nothing of /repo is imported or executed. '
             'See DESIGN.md. SA_DEBUG=1 shows internal errors.',
}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w', encoding='utf-8') as f:
    json.dump(man, f, indent=1, ensure_ascii=False)
    f.write('\n')
print(len(PROPS), 'properties,', len(NA), 'not applicable')
