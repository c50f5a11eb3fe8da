"""Regenerate baseline.json: the shape of every function in /repo/src, and the integer literals there.
Run only on the unchanged tree."""
import glob, json, re, subprocess, sys
out = subprocess.run(['/verif/vx/target/release/vx', 'shapes', '--src', '/repo/src'], capture_output=True, text=True, check=True).stdout
d = json.loads(out)
sys.path.insert(0, '/verif/tools')
from literals import literals
d['__literals__'] = {p[len('/repo/src/'):]: dict(literals(open(p).read())) for p in sorted(glob.glob('/repo/src/**/*.rs', recursive=True))}
import os, tempfile
with tempfile.TemporaryDirectory() as t:
    open(t + '/b.json', 'w').write(json.dumps(d))
    subprocess.run(['/verif/vx/target/release/vx', 'gen', '--src', '/repo/src', '--contracts', '/verif/contracts', '--out', t + '/o.rs', '--map', t + '/m.json', '--baseline', t + '/b.json'], check=True)
    d['__derived__'] = json.load(open(t + '/m.json'))['derived']
json.dump(d, open('/verif/baseline.json', 'w'), indent=0, sort_keys=True)
