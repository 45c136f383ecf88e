"""Writes the table of planted bugs into DESIGN.md (from seeded/*/meta.json)."""
import glob, json, re
MISSED = {
 'l09-only-when-converged': 'missed at first; the recording localiser now succeeds or fails at random',
 'l01-light-residuals-skipped': 'missed at first; common factors of the weights down to 2^-60 and residuals in other units added',
 'p01-thousand-poses': 'needed `long_journeys`', 'l03-median-of-many': 'needed sizes beyond 64',
 'n01-first-map-only': 'needed histories of several maps', 'g01-two-names-for-one-argument': 'needed random launch arguments',
}
rows = []
for f in sorted(glob.glob('seeded/*/meta.json')):
    m = json.load(open(f)); i = f.split('/')[1]
    rows.append('| `%s` | %s | %s | %s |' % (i, m['property'], m['needs'].replace('|', '/'), 'caught' + ('; ' + MISSED[i] if i in MISSED else '')))
t = ('<!-- seeded -->\n| bug | property | needs | check of that property |\n|---|---|---|---|\n' + '\n'.join(rows) + '\n<!-- /seeded -->')
s = open('DESIGN.md').read()
s = re.sub(r'<!-- seeded -->.*<!-- /seeded -->', lambda _: t, s, flags=re.S)
open('DESIGN.md', 'w').write(s)
