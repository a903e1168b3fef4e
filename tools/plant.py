"""Makes and tries planted bugs.

  plant.py make SPEC.py...     writes seeded/<id>/ from specifications (confirms the demo)
  plant.py tests ID...         runs the repository's tests with those patches together
  plant.py check ID...         runs the check of each one's property (quick)

A specification is a Python file that calls bug(id, property, [(file, old, new)...],
needs, breaks, demo).  Work happens in copies bound over /repo in a private mount
namespace, so that /repo itself is never touched.
"""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, sys, textwrap

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TMP = '/tmp/plant'
SH = '''#!/bin/bash
# Exits 0 when the property holds on the code in the current directory.
export JAX_PLATFORMS=cpu JAX_ENABLE_X64=%s PYTHONPATH="$PWD"
exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''


def sh(cmd, **kw):
  return subprocess.run(['bash', '-c', cmd], capture_output=True, text=True, **kw)


def fresh(name):
  d = f'{TMP}/{name}'
  shutil.rmtree(d, ignore_errors=True)
  os.makedirs(TMP, exist_ok=True)
  r = sh(f'cp -a /repo {d} && git -C {d} checkout -q -- .')
  assert r.returncode == 0, r.stderr
  return d


def make(specs):
  bugs = []

  def bug(id, prop, edits, needs, breaks, demo, x64=1):
    bugs.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks,
                     demo=textwrap.dedent(demo).lstrip(), x64=x64))
  for s in specs:
    exec(compile(open(s).read(), s, 'exec'), dict(bug=bug))
  only = set(os.environ.get('ONLY', '').split(',')) - {''}
  d = fresh('make')
  for b in bugs:
    if only and b['id'] not in only:
      continue
    out = f"{VERIF}/seeded/{b['id']}"
    if os.path.exists(out + '/meta.json') and not only:
      continue
    os.makedirs(out, exist_ok=True)
    sh(f'git -C {d} checkout -q -- .')
    for f, old, new in b['edits']:
      p = f'{d}/jax_cfd/{f}'
      t = open(p).read()
      assert t.count(old) == 1, (b['id'], f, t.count(old), old)
      open(p, 'w').write(t.replace(old, new))
    diff = sh(f'git -C {d} diff').stdout
    open(out + '/patch.diff', 'w').write(diff)
    open(out + '/demo.py', 'w').write(b['demo'])
    open(out + '/demo.sh', 'w').write(SH % b['x64'])
    os.chmod(out + '/demo.sh', 0o755)
    json.dump(dict(property=b['prop'], needs=b['needs'], what_it_breaks=b['breaks']),
              open(out + '/meta.json', 'w'), indent=1)
    bad = sh(f'cd {d} && bash {out}/demo.sh')
    sh(f'git -C {d} checkout -q -- .')
    good = sh(f'cd {d} && bash {out}/demo.sh')
    ok = good.returncode == 0 and bad.returncode != 0
    print('OK ' if ok else 'BAD', b['id'], b['prop'], good.returncode, bad.returncode,
          bad.stderr.strip().splitlines()[-1:][0][:150] if bad.stderr.strip() else '',
          '' if good.returncode == 0 else good.stderr[-600:], flush=True)
  shutil.rmtree(d)


def bound(d, cmd, extra=''):
  return (f"unshare -Urm bash -c 'mount --bind {d} /repo; "
          f"{extra} cd /repo; {cmd}'")


def tests(ids):
  d = fresh('tests')
  for i in ids:
    r = sh(f'git -C {d} apply {VERIF}/seeded/{i}/patch.diff')
    print(i, 'applies' if r.returncode == 0 else 'DOES NOT APPLY (with the others)')
  os.makedirs(TMP + '/reports', exist_ok=True)
  r = sh(bound(d, f'bash /opt/vp/test.sh {TMP}/reports/out.json',
               f'mkdir -p {TMP}/rep; mount --bind {TMP}/rep /opt/vp/reports 2>/dev/null;'))
  got = json.load(open(f'{TMP}/reports/out.json'))
  base = json.load(open('/opt/vp/BASELINE.json'))
  stable = set(base['stable'] if 'stable' in base else base['passed'])
  passed = set(got['passed'])
  miss = sorted(stable - passed)
  print(len(stable), 'stable', len(miss), 'now failing')
  for m in miss[:60]:
    print('  ', m)
  shutil.rmtree(d)


def check_one(i):
  m = json.load(open(f'{VERIF}/seeded/{i}/meta.json'))
  d = fresh('c-' + i)
  r = sh(f'git -C {d} apply {VERIF}/seeded/{i}/patch.diff')
  assert r.returncode == 0, r.stderr
  extra = ''
  for sub in ('evidence', 'replays'):
    os.makedirs(f'{TMP}/{i}-{sub}', exist_ok=True)
    extra += f'mount --bind {TMP}/{i}-{sub} {VERIF}/{sub}; '
  r = sh(bound(d, f"cd {VERIF}; ./check {m['property']} quick", extra))
  lines = [l for l in (r.stdout + r.stderr).splitlines() if 'VIOLATION' in l]
  shutil.rmtree(d)
  return i, m['property'], r.returncode, (lines or (r.stdout + r.stderr).splitlines()[-3:])


def check(ids):
  for i in ids:
    i, p, rc, lines = check_one(i)
    print('CAUGHT' if rc == 1 else 'MISSED', i, p, rc, str(lines[:2])[:260], flush=True)
    path = VERIF + '/tools/planted.json'
    known = json.load(open(path)) if os.path.exists(path) else {}
    known[i] = dict(property=p, caught=rc == 1, facets=sorted({
        re.search(r'replays/C\d\d-(\w+)-', l).group(1) for l in lines if 'replay=' in l}))
    json.dump(dict(sorted(known.items())), open(path, 'w'), indent=1)


if __name__ == '__main__':
  {'make': make, 'tests': tests, 'check': check}[sys.argv[1]](sys.argv[2:])
