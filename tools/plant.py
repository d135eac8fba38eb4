#!/usr/bin/env python3
"""plant.py DEFS.py [ID...]: builds /verif/seeded/<ID> from definitions.

DEFS.py defines BUGS = [dict(id, property, file, old, new, needs, breaks, demo)].
For each: patch, stable tests and demo are confirmed in a scratch copy of /repo,
then the check of the property runs against the copy (VERIF_REPO).
"""
import json, os, runpy, shutil, subprocess, sys, tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
export PYTHONPATH=$PWD PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu CUDA_VISIBLE_DEVICES= TF_CPP_MIN_LOG_LEVEL=3
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''

def sh(cmd, **kw):
  return subprocess.run(cmd, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)

def tests(d):
  t = tempfile.mkdtemp(prefix='plant_t_')
  shutil.copytree('/opt/vp/support', t + '/support')
  for f in ('test.sh', 'support/env.sh', 'support/check.py'):
    s = open('/opt/vp/' + f).read()
    s = s.replace('/opt/vp/support', t + '/support').replace('/opt/vp/reports', t + '/reports').replace('/repo', d)
    open(f'{t}/{f}', 'w').write(s)
  p = sh(f'bash {t}/test.sh {t}/out.json')
  stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
  try:
    out = json.load(open(t + '/out.json'))
  except OSError:
    return 'no result ' + p.stdout[-500:]
  passed = set(out.get('passed', []))
  shutil.rmtree(t)
  return sorted(stable - passed)

def main():
  bugs = runpy.run_path(sys.argv[1])['BUGS']
  notest = os.environ.get('NOTEST')
  for b in bugs:
    if len(sys.argv) > 2 and b['id'] not in sys.argv[2:]:
      continue
    d = tempfile.mkdtemp(prefix='plant_')
    subprocess.check_call(f'cp -a /repo/. {d}', shell=True)
    for f, old, new in b.get('edits') or [(b['file'], b['old'], b['new'])]:
      s = open(f'{d}/{f}').read()
      assert s.count(old) == 1, (b['id'], f, s.count(old))
      open(f'{d}/{f}', 'w').write(s.replace(old, new))
    out = f'{VERIF}/seeded/{b["id"]}'
    os.makedirs(out, exist_ok=True)
    open(out + '/patch.diff', 'w').write(sh(f'git -C {d} diff').stdout)
    open(out + '/demo.sh', 'w').write(SH)
    os.chmod(out + '/demo.sh', 0o755)
    open(out + '/demo.py', 'w').write(b['demo'])
    json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
              open(out + '/meta.json', 'w'), indent=1)
    clean = sh(f'bash {out}/demo.sh', cwd='/repo')
    bad = sh(f'bash {out}/demo.sh', cwd=d)
    res = {'demo_clean': clean.returncode, 'demo_bug': bad.returncode}
    if clean.returncode != 0:
      print(clean.stdout[-1500:])
    if bad.returncode == 0:
      print('demo passes with bug', bad.stdout[-300:])
    if not notest:
      res['tests_broken'] = tests(d)
    c = sh(f'python3 check.py {b["property"]} quick', cwd=VERIF, env=dict(os.environ, VERIF_REPO=d))
    res['check'] = c.returncode
    print(b['id'], b['property'], json.dumps(res), c.stdout.strip().split('\n')[-2 if c.returncode == 1 else -1][:200], flush=True)
    shutil.rmtree(d)

main()
