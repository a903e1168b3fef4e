"""Reverts each repair ("fix:" commit) in a copy of /repo bound over /repo and runs the
check of its property, which must report the defect.  `regress.py [--save] [HASH...]`;
--save adds the minimised failure to corpus/."""
import glob
import json
import os
import shutil
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plant

ROOT = plant.VERIF


def main():
  args = sys.argv[1:]
  save = '--save' in args
  only = [a for a in args if not a.startswith('-')]
  fixed = json.load(open(ROOT + '/known_findings.json'))['fixed']
  for line in fixed:
    _, prop, commit, what = line.split(' ', 3)
    pid = prop.split('=')[1]
    if only and not any(commit.startswith(o) for o in only):
      continue
    d = plant.fresh('r-' + commit[:8])
    r = plant.sh(f'git -C {d} show {commit} | git -C {d} apply -R --3way')
    if r.returncode:
      print('CONFLICT', commit[:8], pid, what[:80], r.stderr[-200:], flush=True)
      shutil.rmtree(d)
      continue
    extra = ''
    for sub in ('evidence', 'replays'):
      p = f'{plant.TMP}/{commit[:8]}-{sub}'
      shutil.rmtree(p, ignore_errors=True)
      os.makedirs(p)
      extra += f'mount --bind {p} {ROOT}/{sub}; '
    # the generators must find it again without the saved case
    os.makedirs(plant.TMP + '/empty', exist_ok=True)
    if os.path.isdir(ROOT + '/corpus'):
      extra += f'mount --bind {plant.TMP}/empty {ROOT}/corpus; '
    r = plant.sh(plant.bound(d, f'cd {ROOT}; ./check {pid} quick', extra))
    shutil.rmtree(d)
    found = glob.glob(f'{plant.TMP}/{commit[:8]}-replays/*.json')
    print('CAUGHT' if r.returncode == 1 else 'MISSED', commit[:8], pid, r.returncode,
          [os.path.basename(f) for f in found], what[:70], flush=True)
    if save:
      for f in found[:2]:
        rec = json.load(open(f))
        out = f'{ROOT}/corpus/{pid}/{rec["facet"]}.json'
        os.makedirs(os.path.dirname(out), exist_ok=True)
        cases = json.load(open(out)) if os.path.exists(out) else []
        if rec['case'] not in cases:
          cases.append(rec['case'])
          with open(out, 'w') as h:
            h.write('[\n' + ',\n'.join(json.dumps(c, sort_keys=True) for c in cases) + '\n]\n')


main()
