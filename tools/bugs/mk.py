"""mk.py NAME...: writes /verif/seeded/NAME (patch.diff, demo, meta.json) from bugs.py, checking that it applies, builds and that the demo tells."""
import json, os, shutil, subprocess, sys
sys.path.insert(0, os.path.dirname(__file__))
from bugs import BUGS
here = os.path.dirname(os.path.abspath(__file__))
def sh(c, **k): return subprocess.run(c, shell=True, **k)
for name in sys.argv[1:] or list(BUGS):
    b = BUGS[name]; w = '/tmp/mk-' + name; sh('rm -rf %s; git clone -q /repo %s' % (w, w))
    sh('cp -a /repo/src/config.h %s/src/' % w)
    for f, old, new in b['edits']:
        p = '%s/src/libeopsi/%s' % (w, f); s = open(p).read()
        assert s.count(old) == 1, (name, f, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    d = '/verif/seeded/' + name; os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(subprocess.run(['git', '-C', w, 'diff'], capture_output=True, text=True).stdout)
    shutil.copy(here + '/demo.sh', d); shutil.copy(here + '/demo.h', d)
    open(d + '/demo.cpp', 'w').write('#include "demo.h"\n' + b['demo'].strip() + '\n')
    if b.get('flags'): open(d + '/flags', 'w').write(b['flags'] + '\n')
    json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    bad = sh('cd %s && bash %s/demo.sh' % (w, d), capture_output=True, text=True)
    sh('git -C %s checkout -q -- .' % w)
    good = sh('cd %s && bash %s/demo.sh' % (w, d), capture_output=True, text=True)
    print(name, 'OK' if bad.returncode not in (0, 3) and good.returncode == 0 else 'BAD', 'patched:', bad.returncode, (bad.stdout + bad.stderr).strip()[-300:], '| clean:', good.returncode, (good.stdout + good.stderr).strip()[-600:], flush=True)
    sh('rm -rf %s' % w)
