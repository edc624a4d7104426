"""Writes properties.jsonl and MANIFEST.json from one table."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []


def prop(id, title, statement, over, text, why, files, mech, observe,
         technique, note, level='model_checking', state=None):
    anchors = {'files': ['src/ncdiff/' + f for f in files],
               'mechanism': [{'name': n, 'where': w} for n, w in mech],
               'observe_at': observe, 'hook_needed': None}
    if state:
        anchors['state'] = [{'name': n, 'meaning': m, 'where': w}
                            for n, m, w in state]
    assert len(title) <= 80, title
    PROPS.append(({'id': id, 'title': title, 'statement': statement,
                   'quantifier': {'over': over, 'text': text},
                   'why_tests_cant': why, 'anchors': anchors},
                  {'property': id,
                   'quick_cmd': '/opt/venv/bin/python mc/run.py ' + id,
                   'thorough_cmd': '/opt/venv/bin/python mc/run.py {} --tier '
                                   'thorough'.format(id),
                   'evidence_file': 'evidence/{}.json'.format(id),
                   'technique': technique, 'level': level,
                   'level_note': note}))


exec(open(os.path.join(V, 'tools', 'props.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p, c in PROPS:
        f.write(json.dumps(p) + '\n')
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump({'version': 1,
               'setup_cmd': '/opt/venv/bin/python mc/selftest.py',
               'checks': [c for p, c in PROPS],
               'not_applicable': NOT_APPLICABLE,
               'notes': 'Every check explores the real code in /repo/src '
                        'exhaustively within the bounds stated in DESIGN.md; '
                        'no hooks in /repo are needed.'}, f, indent=1)
    f.write('\n')
