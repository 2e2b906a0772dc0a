"""Record the shape of every function of /repo as its contracts were written against it (specs/baseline.json)."""
import collections, json, os, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import rename, rustlex, splice
with tempfile.TemporaryDirectory() as d:
    info = splice.run('/repo', os.path.join(os.path.dirname(HERE), 'specs'), d)
fns = {f['key']: dict(skel=f['skel'], text=f['text'], calls=f['calls'], frame=f['frame'], light=f['light']) for f in info['fns']}
lits = collections.Counter()
texts = []
for f in sorted(x for x in os.listdir('/repo/src') if x.endswith('.rs')):
    text = open('/repo/src/' + f).read()
    texts.append(text)
    lits += rustlex.literals(text)
json.dump(dict(fns=fns, ids=rename.repo_ids(texts), literals=sorted([k, v, n] for (k, v), n in lits.items())), open(os.path.join(os.path.dirname(HERE), 'specs', 'baseline.json'), 'w'), sort_keys=True, separators=(',', ':'))
print(len(fns))
