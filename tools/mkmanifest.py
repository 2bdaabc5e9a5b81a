"""MANIFEST.json from the checks that exist and properties.jsonl (python3 tools/mkmanifest.py)."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
props = [json.loads(x) for x in open(os.path.join(V, 'properties.jsonl'))]
NA = {}
TECH = {
 'X01': 'runtime monitor: byte snapshots of caller-owned objects around every public call in random and pipeline workloads',
 'X03': 'runtime monitor: bit-identity of replayed calls under histories, concurrent threads and back-end switches',
 'D01': 'runtime monitor: generated files in each format, offline comparison of records written vs records read',
 'D02': 'runtime monitor: requests captured at the transport boundary, judged against caller arguments and served records',
 'D03': 'fault injection at transport and file boundary (status codes, connection faults, truncation at many bytes) under monitors',
}
DEF = 'runtime monitoring of the real code under seeded hostile workloads, judged online by independent reference equations and relational monitors'
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'checks', i + '.py')):
        checks.append(dict(property=i, quick_cmd=f'bash run.sh {i} quick', thorough_cmd=f'bash run.sh {i} thorough',
                           technique=TECH.get(i, DEF), level='fault_enumeration' if i == 'D03' else 'exploration',
                           level_note='Held on the executions observed (counts in the evidence file); trusts the reference '
                           'equations and generators written for this check in /verif (mon/, checks/), numpy, scipy and pandas.'))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'check not built yet')))
json.dump(dict(version=1, setup_cmd='bash tools/setup.sh', checks=checks, not_applicable=na,
               notes='No hooks are added to /repo: monitors wrap the public API from the harness. run.sh imports pvlib from /repo\'s working tree.'),
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'unclaimed')
