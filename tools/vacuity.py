"""Vacuity probe: is the code behind every contract reachable as the verifier sees it?

A false assertion is put at the head (then at the normal end) of every function body given to the verifier. Each must be
refused: one that is accepted would mean that the preconditions, the axioms or the assumed contracts contradict each other
there, so that anything could be proved. Functions that are meant to be unreachable are listed in specs/unreachable.txt.

usage: vacuity.py [head|exit]
"""
import os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import splice
import check


def probe(where, repo='/repo'):
    d = os.path.join(check.BUILD, f'probe-{where}-{os.getpid()}')
    os.makedirs(check.BUILD, exist_ok=True)
    try:
        info = splice.run(repo, os.path.join(check.VERIF, 'specs'), d, probe=where)
        p = subprocess.run(['timeout', '-k', '5', '600', 'verus', 'lib.rs', '--multiple-errors', '30'], cwd=d, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, stdin=subprocess.DEVNULL)
        err = p.stderr.decode('utf-8', 'replace')
        if 'verification results' not in p.stdout.decode() + err:
            return None, None, err
        refused = set()
        lines = {}
        for msg, locs, block, _ in check.diagnostics(err):
            if not msg.startswith('assertion failed') or not any('assert(false)' in b for b in block):
                continue
            for m, l in locs:
                for f in info['fns']:
                    if f['mod'] == m and f['gen_start'] <= l <= f['gen_end']:
                        refused.add(f['key'])
        todo = [f['key'] for f in info['fns'] if f['has_body'] and f['mode'] not in ('external_body', 'external')]
        return todo, refused, err
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    for where in sys.argv[1:] or ['head', 'exit']:
        todo, refused, err = probe(where)
        if todo is None:
            print(where, 'no verdict', err[-3000:])
            continue
        print(where, len(todo), 'probes,', len([k for k in todo if k in refused]), 'refused')
        for k in todo:
            if k not in refused:
                print('  accepted:', k)
