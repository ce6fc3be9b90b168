"""Writes engine/base_fns.json: the functions of the tree the rules were written for (name -> number of overloads).
Functions that are not listed are treated as helpers extracted since: they are judged inside their callers."""
import sys, os, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from prog import *
tus = []
for d, ds, fs in os.walk(REPO):
    rel = os.path.relpath(d, REPO)
    if rel.split('/')[0] in ('.git', 'tools', '_build', 'data', 'backups', 'logs', 'lib', 'bin', '.objs', 'docs', '.debug', 'scripts', 'api'): ds[:] = []; continue
    tus += [os.path.normpath(os.path.join(rel, f)) for f in fs if f.endswith('.cpp')]
seen = {}
build_gx()
for i in range(0, len(tus), 8):
    with ThreadPoolExecutor(8) as ex:
        for tu, d in zip(tus[i:i+8], ex.map(lambda t: (lambda: extract(t))() if True else None, sorted(tus)[i:i+8])):
            for f in d['functions']: seen.setdefault(f['q'], set()).add(f['u'])
json.dump({q: len(l) for q, l in sorted(seen.items())}, open(os.path.join(VERIF, 'engine', 'base_fns.json'), 'w'), indent=0)
print(len(tus), 'units', len(seen), 'names')
