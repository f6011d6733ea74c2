"""Regenerates known_findings.json from the fix commits of /repo (run by hand)."""
import json, subprocess
log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'], capture_output=True, text=True).stdout.splitlines()
props = {'a6a2478': 'C07', '624047c': 'C05', '2c21b5c': 'C08', '39c4db5': 'C08', '90f31cd': 'C08', '4361960': 'C09', '31b2966': 'C09',
         '46c52f6': 'C10', '91bf67a': 'C12', '345064c': 'C13', '1be7617': 'C13', 'dfadec4': 'C14', 'd16f6a7': 'C14', 'f3142dd': 'C14', 'ba448f6': 'C16', 'e63f1e9': 'C16', 'ce93e52': 'C15', 'ef13cfc': 'C17', 'c38c9d2': 'C18',
         '96aa4d4': 'C07', '9f8e36f': 'C07', '2e09e26': 'C08', '4c60bb6': 'C08', 'c8d1470': 'C12', '4d7225e': 'C13',
         'fb37643': 'C12', 'c0769c6': 'C10', '8bac070': 'C18', 'd5e8281': 'C17', 'ea2c390': 'C18',
         '6d4b1d5': 'C21', '85ea621': 'C21', '591f5db': 'C21', '8014119': 'C21', 'a120a95': 'C08'}
RK8 = [
    ('cube', 'coefficient of h^4, off by -72/175 at c0=3 y0=2 y1=5 A10=7 A11=11'),
    ('cube', 'coefficient of h^5, off by -311826/35875 at c0=3 y0=2 y1=5 A10=7 A11=11'),
    ('cube', 'coefficient of h^6, off by -3345412/25625 at c0=3 y0=2 y1=5 A10=7 A11=11'),
    ('linear', 'coefficient of h^4, off by -9217/11200 at c0=3 y0=2 y1=5 A10=7 A11=11'),
    ('linear', 'coefficient of h^4, off by -21389/2240 at c0=3 y0=2 y1=5 A10=7 A11=11'),
    ('square', 'coefficient of h^4, off by -1/200 at c0=3 y0=2 y1=5 A10=7 A11=11'),
    ('square', 'coefficient of h^5, off by -273623/1968000 at c0=3 y0=2 y1=5 A10=7 A11=11'),
    ('square', 'coefficient of h^6, off by -11295599/13120000 at c0=3 y0=2 y1=5 A10=7 A11=11'),
]
out = []
for l in reversed(log):
    h, s = l.split(' ', 1)
    if s.startswith('fix:'):
        out.append(dict(property=props[h], kind='fixed', commit=h, what='fixed: property=%s %s %s' % (props[h], h, s[5:])))
# genuine defects that are recorded and not repaired: RK8 of numga/examples (files there may not be changed) has -234 in place of
# Shanks' -231 in its eighth stage; each deviation is identified by its exact value
for dyn, label in RK8:
    out.append(dict(property='C19', kind='finding', harness='order', config=dict(rule='RK8', dyn=dyn), label=label,
                    what='RK8 (numga/examples/integrators.py: -234 in place of -231 in the eighth stage) on %s dynamics: %s' % (dyn, label)))
json.dump(out, open('known_findings.json', 'w'), indent=1)
