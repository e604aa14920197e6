#!/usr/bin/env python3
"""runseeds.py [-p PROP] [ID...]: applies each planted bug (or each refactoring, by its path) to a scratch copy, and runs the checks of the scratch copy of /verif there."""
import json, os, subprocess, sys, time
SCR, SV = '/tmp/seedrepo', '/tmp/seedverif'
def sh(c): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
if not os.path.isdir(SCR): sh('cp -a /repo ' + SCR)
sh('cd %s && git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD && git clean -fdq src' % SCR)
sh('mkdir -p %s && cd %s && cp -a check.py pegspec.py known_findings.txt overlays vx replay tools setup.sh %s/' % (SV, os.environ.get('VSRC', '/verif'), SV))
sh("sed -i 's#\"/repo\"#\"%s\"#' %s/replay/Cargo.toml" % (SCR, SV))
a = sys.argv[1:]; only = []
while a and a[0] == '-p': only.append(a[1]); a = a[2:]
ids = a or sorted(os.listdir('/verif/seeded'))
for i in ids:
    d = '/verif/seeded/' + i + '/patch.diff' if '/' not in i else i
    props = only or [json.load(open('/verif/seeded/' + i + '/meta.json'))['property']]
    sh('git -C %s checkout -q -- .' % SCR)
    if sh('git -C %s apply %s' % (SCR, d)).returncode: print(i, 'does not apply'); continue
    for prop in props:
        t = time.time()
        p = subprocess.run(['python3', SV + '/check.py', prop], cwd=SV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick', VP_REPO=SCR))
        print('==', i, prop, 'rc', p.returncode, '%.0fs' % (time.time() - t)); print('   ' + '\n   '.join(l[:330] for l in p.stdout.strip().split('\n')), flush=True)
sh('git -C %s checkout -q -- .' % SCR)
