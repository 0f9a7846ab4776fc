"""writes the 'fixed' part of known_findings.json (the findings part is kept)"""
import json, os, subprocess
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = dict(ef33c29='C01', **{'2c735bf': 'C01', '013d8c5': 'C01', '769071c': 'C07', '480c080': 'C10', '52ac111': 'C11', '97002b7': 'C13',
         '9ab7ad1': 'C16', '42b7aca': 'C17', 'd41df03': 'C18', 'b1be75b': 'C18', '86941e9': 'C18', '23bd1ce': 'C22', 'ca9ccd8': 'C22',
         '2f7f786': 'C22', 'f148e09': 'C22', '731042c': 'C23', 'cc58790': 'C23', '685afe6': 'C23', '79c946a': 'C22', '57ed52b': 'C24',
         '0873501': 'C25', 'eef35d3': 'C25', '08700f3': 'C29', '9ff4086': 'C29', 'acfb0f4': 'C33', 'f350377': 'C26', 'a0292a1': 'C30',
         '6f346c1': 'C30', 'b6aa435': 'C30', '9bf4caa': 'C01', '1ed6070': 'C15', 'eb1fbf4': 'C28', '03133a0': 'C30', '3bf1a66': 'C35', '68e7d90': 'C35'})
p = os.path.join(H, 'known_findings.json')
d = json.load(open(p)) if os.path.exists(p) else dict(findings=[], fixed=[])
d['fixed'] = []
for l in subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], capture_output=True, text=True).stdout.splitlines():
    h, s = l.split(' ', 1)
    if s.startswith('fix: '):
        d['fixed'].append(f'fixed: property={M[h]} {h} {s[5:]}')
json.dump(d, open(p, 'w'), indent=1)
