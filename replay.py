#!/usr/bin/env python3
"""replay.py FILE : rebuilds the contract harness natively and replays a recorded violation."""
import json, subprocess, sys, os, tempfile, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
r = json.load(open(sys.argv[1]))
sys.argv = ['check.py', r['property']]
src = open(f'{HERE}/check.py').read().rsplit('main()', 1)[0]
g = {'__file__': f'{HERE}/check.py'}
exec(compile(src, 'check.py', 'exec'), g)
w = tempfile.mkdtemp(prefix='vf_replay_')
try:
    u = g['Unit'](f"{HERE}/contracts/{r['contract']}.cpp", w, 'quick')
    u.build_native()
    print('\n'.join(u.errors))
    if r['input'] is None:
        print('no failing input was found; failed obligation:', r['obligation'], 'at', r['at'])
        sys.exit(1)
    out = g['replay'](u, r['harness'], r['input'])
    print(out or 'the recorded input does not fail on this tree')
    sys.exit(1 if out else 0)
finally:
    shutil.rmtree(w)
