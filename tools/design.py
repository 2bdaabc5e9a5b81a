"""Writes DESIGN.md: fixed chapters from tools/design_*.md plus the tables that have a machine source."""
import glob
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def table_caught():
    rows = ['| planted bug | property | what it needs to show | caught by (seed 1, quick) |', '|---|---|---|---|']
    caught = json.load(open(os.path.join(V, 'tools', 'catch.json')))
    for d in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
        m = json.load(open(d))
        n = os.path.basename(os.path.dirname(d))
        rows.append(f"| {n} | {m['property']} | {m['needs']} | {', '.join(caught.get(n, ['not run']))} |")
    return '\n'.join(rows)


def table_findings():
    k = json.load(open(os.path.join(V, 'known_findings.json')))
    out = ['Recorded, not repaired (each printed as a `KNOWN-FINDING:` line when observed):', '']
    for e in k['known']:
        out.append(f"* **{e['property']}** `{e['mechanism']}` – {e['what']}")
    out += ['', 'Repaired (one `fix:` commit each):', '']
    for f in k['fixed']:
        out.append('* ' + f.replace('fixed: ', ''))
    return '\n'.join(out)


if __name__ == '__main__':
    s = open(os.path.join(V, 'tools', 'design_body.md')).read()
    s = s.replace('@@CAUGHT@@', table_caught()).replace('@@FINDINGS@@', table_findings())
    open(os.path.join(V, 'DESIGN.md'), 'w').write(s)
