"""newseed.py NAME PROP  < spec     (spec: python: EDITS=[(file,old,new)..], NEEDS='', BREAKS='', DEMO='''c source''')
Builds the seeded change in a scratch copy, confirms that the demonstration tells it apart, writes /verif/seeded/NAME."""
import sys, os, subprocess, json, shutil
name, prop = sys.argv[1:3]
S = '/tmp/sr'
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
head = sh('git -C /repo rev-parse HEAD').stdout.strip()
if not os.path.isdir(S) or sh('git -C %s rev-parse HEAD' % S).stdout.strip() != head:
    shutil.rmtree(S, ignore_errors=True)
    sh('cp -a /repo %s' % S)
sh('git checkout -q -- .', cwd=S)
ns = {}
exec(sys.stdin.read(), ns)
for f, a, b in ns['EDITS']:
    p = os.path.join(S, f)
    s = open(p, encoding='latin-1').read()
    if s.count(a) != 1:
        raise SystemExit('pattern found %d times in %s: %s' % (s.count(a), f, a))
    open(p, 'w', encoding='latin-1').write(s.replace(a, b))
d = '%s/seeded/%s' % (V, name)
shutil.rmtree(d, ignore_errors=True)
os.makedirs(d)
patch = sh('git diff', cwd=S).stdout
open(d + '/patch.diff', 'w').write(patch)
for f in ('tools/seed/demo.sh', 'tools/seed/dh.h', 'witness/wh.h', 'witness/wl.h'):
    shutil.copy(os.path.join(V, f), d)
os.chmod(d + '/demo.sh', 0o755)
open(d + '/demo.c', 'w').write('#include "wh.h"\n#include "dh.h"\n' + ns['DEMO'])
json.dump(dict(property=prop, needs=ns['NEEDS'], what_it_breaks=ns['BREAKS']), open(d + '/meta.json', 'w'), indent=1)
r = sh('make -j8 2>&1 | grep -E " error: |Error [0-9]"', cwd=S)
print(r.stdout[-1500:])
bad = sh(d + '/demo.sh', cwd=S)
sh('git checkout -q -- . && make -j8', cwd=S)
ok = sh(d + '/demo.sh', cwd=S)
print('patched: %d %s' % (bad.returncode, bad.stdout[-600:]))
print('clean:   %d %s' % (ok.returncode, ok.stdout[-600:]))
if bad.returncode in (0, 3) or ok.returncode:
    print('*** NOT DISTINGUISHED')
    sys.exit(1)
