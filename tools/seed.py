#!/usr/bin/env python3
"""Plant a bug: tools/seed.py SPEC.py  (SPEC defines SEEDS, a list of dicts). For each seed it edits a scratch copy of
/repo, confirms that it builds, passes the stable tests and that the demonstration fails, and writes seeded/<id>/."""
import importlib.util, json, os, shutil, subprocess, sys, tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# run with cwd /repo: exit 0 when the property holds for the demonstrated case
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -r "$tmp"' EXIT
printf '#define MAX_CHANNELS 63\\n' > "$tmp/max_channels.h"
gcc -std=gnu99 -w -O1 %s -I"$tmp" -I"$PWD/include" -I"$PWD/src" -o "$tmp/demo" "$here/demo.c" "$PWD"/src/*.c %s -lm -lpthread || exit 2
"$tmp/demo"
'''
HEAD = '''#include <math.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#define EXPECT(c) do { if (!(c)) { printf("failed: %s\\n", #c); exit(1); } } while (0)
'''
def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
def main():
    spec = importlib.util.spec_from_file_location('spec', sys.argv[1])
    m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    only = set(sys.argv[2:])
    base = json.load(open('/opt/vp/BASELINE.json'))
    stable = set(base.get('passed') or base.get('stable') or base.get('tests') or [])
    scratch = '/tmp/seedwork'
    bad = 0
    for s in m.SEEDS:
        if only and s['id'] not in only:
            continue
        shutil.rmtree(scratch, ignore_errors=True)
        sh('git -C /repo worktree prune; git clone -q /repo %s' % scratch)
        for f, old, new in s['edits']:
            p = os.path.join(scratch, f)
            t = open(p).read()
            if t.count(old) != 1:
                print(s['id'], 'EDIT does not match once:', t.count(old), repr(old)[:80]); bad += 1; break
            open(p, 'w').write(t.replace(old, new))
        else:
            d = os.path.join(VERIF, 'seeded', s['id'])
            os.makedirs(d, exist_ok=True)
            patch = sh('git -C %s diff' % scratch).stdout
            open(d + '/patch.diff', 'w').write(patch)
            open(d + '/demo.c', 'w').write(HEAD + s['demo'])
            open(d + '/demo.sh', 'w').write(DEMO % (s.get('cflags', ''), s.get('ldflags', '')))
            os.chmod(d + '/demo.sh', 0o755)
            json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
            r0 = subprocess.run(['bash', d + '/demo.sh'], cwd='/repo', capture_output=True, text=True)
            r1 = subprocess.run(['bash', d + '/demo.sh'], cwd=scratch, capture_output=True, text=True)
            # the stable tests, in the real tree's build with the patch applied
            a = sh('git -C /repo apply %s/patch.diff' % d)
            try:
                t = sh('bash /opt/vp/test.sh /tmp/seed_out.json')
                out = json.load(open('/tmp/seed_out.json'))
            finally:
                sh('git -C /repo checkout -- .')
            lost = [x for x in stable if x not in set(out['passed'])]
            ok = r0.returncode == 0 and r1.returncode not in (0, 2) and a.returncode == 0 and not lost and out['passed']
            print(s['id'], 'OK' if ok else 'BAD', 'demo clean=%d patched=%d lost=%s' % (r0.returncode, r1.returncode, lost[:3]), flush=True)
            if not ok:
                print(r0.stdout[-300:], r0.stderr[-300:], r1.stdout[-300:], r1.stderr[-300:], a.stdout); bad += 1
                shutil.rmtree(d)
    shutil.rmtree(scratch, ignore_errors=True)
    sh('bash /opt/vp/build.sh')
    sys.exit(bad > 0)
main()
