"""Adds 'fixed:' lines for the fix commits of /repo to known_findings.json."""
import json
import subprocess
import sys

PROP = {
    'apply edits in document order when predicting config': 'C03',
    'predict the implicit deletion of other cases of a choice': 'C02',
    'do not delete nodes of another case explicitly': 'C01',
    'do not set operation replace on nc:config': 'C01',
    'support data nodes in a choice at the root level of a module': 'C01',
    'keep a list key that equals its default value': 'C05',
    'compare identityref list keys by namespace instead of prefix': 'C04',
    'ignore whitespace in list entries when comparing configs': 'C04',
    'ignore XML comments in config': 'C04',
    'reject edit attributes on leaf nodes when validating config': 'C05',
    'quote list keys that contain an apostrophe in insert attributes': 'C01',
    'handle empty values in user-ordered lists and leaf-lists': 'C01',
    'empty delta of equal configs with user-ordered nodes at root level':
        'C07',
    'generate a random seed when only random_depth is given': 'C11',
    'find the statement of a config node in a list or a choice': 'C09',
    'quote values that contain a double quote or are empty in get_xpath':
        'C09',
}
PROP.update(json.load(open('/verif/tools/fixed.json')))
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse',
                      '--format=%h %s'], capture_output=True, text=True).stdout
out = []
for line in log.splitlines():
    h, s = line.split(' ', 1)
    if s.startswith('fix: '):
        s = s[5:]
        if s not in PROP:
            sys.exit('no property for fix: ' + s)
        out.append('fixed: property={} {} {}'.format(PROP[s], h, s))
p = '/verif/known_findings.json'
k = json.load(open(p))
k['fixed'] = out
with open(p, 'w') as f:
    json.dump(k, f, indent=1)
    f.write('\n')
