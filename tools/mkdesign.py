"""Fill the generated parts of DESIGN.md: the table of properties (from the check modules) and of planted changes."""
import importlib
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
FIRST_MISSED = {'window-as-range': 'first missed; C13 got a grid of whole and fractional times, and the engine ranges with '
                                   'unknown bounds',
                'multi-dot-position': 'first missed; C31 got bad tokens after an attribute prefix'}


def props():
    out = []
    for line in open(os.path.join(HERE, 'properties.jsonl')):
        p = json.loads(line)
        f = os.path.join(HERE, 'sa', 'checks', p['id'].lower() + '.py')
        if not os.path.exists(f):
            continue
        m = importlib.import_module('sa.checks.' + p['id'].lower())
        n = sum(1 for _ in m.obligations('quick'))
        t = sum(1 for _ in m.obligations('thorough'))
        out.append('**%s — %s.** %s\n*Bounds:* %s. *Obligations:* %d quick, %d thorough.\n' % (
            p['id'], p['title'], re.sub(r'\s+', ' ', m.RULE).strip(), m.BOUNDS.rstrip('.'), n, t))
    return '\n'.join(out)


def seeds():
    out = ['| planted change | breaks | needs | caught by |', '|---|---|---|---|']
    rows = []
    for d in sorted(os.listdir(os.path.join(HERE, 'seeded'))):
        m = json.load(open(os.path.join(HERE, 'seeded', d, 'meta.json')))
        rows.append((m['property'], d, m))
    for pid, d, m in sorted(rows, key=lambda r: r[:2]):
        note = ' (%s)' % FIRST_MISSED[d] if d in FIRST_MISSED else ''
        out.append('| %s | %s: %s | %s | %s%s |' % (d, pid, m['what_it_breaks'], m['needs'], pid, note))
    return '\n'.join(out)


def main():
    p = os.path.join(HERE, 'DESIGN.md')
    s = open(p).read()
    for name, text in (('PROPS', props()), ('SEEDS', seeds())):
        s = re.sub(r'<!-- %s -->.*?<!-- /%s -->' % (name, name),
                   lambda _: '<!-- %s -->\n%s\n<!-- /%s -->' % (name, text, name), s, flags=re.S)
    open(p, 'w').write(s)


main()
