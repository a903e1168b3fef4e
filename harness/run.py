"""Entry point: runs every facet of a property and writes its evidence file."""
import argparse
import hashlib
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARD_LIMIT = {'quick': 840, 'thorough': 6 * 3600}
GEN_BUDGET = {'quick': 420, 'thorough': 4 * 3600}


def replay(pid, path):
  from harness import deps
  deps.install()
  from harness import worker
  prop = importlib.import_module(f'checks.{pid.lower()}').P
  with open(path) as f:
    rec = json.load(f)
  if rec.get('history'):
    h = rec['history']
    res = worker.run(pid, rec['facet'], h['shard'], h['tier'], h['seed'], 600, 1)
    v = res['violation']
    status, msg = ('violation', v['message']) if v else ('ok', '')
  else:
    status, msg, _, _ = worker.evaluate(prop.facets[rec['facet']], rec['case'])
  print(f'{pid}.{rec["facet"]}: {status} {msg}')
  if status == 'violation':
    print(f'VIOLATION property={pid} replay={path}')
    return 1
  return 0


def known_findings(pid):
  path = os.path.join(ROOT, 'known_findings.json')
  if not os.path.exists(path):
    return []
  with open(path) as f:
    return [k for k in json.load(f)['findings'] if k['property'] == pid]


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument('pid')
  ap.add_argument('tier', nargs='?', default=os.environ.get('VERIF_TIER', 'quick'))
  ap.add_argument('--replay')
  ap.add_argument('--facet', action='append')
  ap.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 1))
  ap.add_argument('--scale', type=float, default=1.0)
  a = ap.parse_args()
  pid = a.pid.upper()
  tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
  seed = int(os.environ.get('VERIF_SEED', '1') or 1)
  scratch = tempfile.mkdtemp(prefix='verif_')
  os.environ['MPLCONFIGDIR'] = scratch
  try:
    if a.replay:
      return replay(pid, a.replay)
    return campaign(pid, tier, seed, a, scratch)
  finally:
    shutil.rmtree(scratch, ignore_errors=True)


def campaign(pid, tier, seed, a, scratch):
  t0 = time.monotonic()
  from harness import deps
  deps.install()
  prop = importlib.import_module(f'checks.{pid.lower()}').P
  tasks = []
  for f in prop.facets.values():
    if a.facet and f.name not in a.facet:
      continue
    for s in range(f.shards_quick if tier == 'quick' else f.shards_thorough):
      tasks.append((s, f.name))
  order = {f: i for i, f in enumerate(prop.facets)}
  tasks.sort(key=lambda t: (t[0], order[t[1]]))
  running, results, errors = {}, [], []
  pending = list(tasks)
  deadline = t0 + HARD_LIMIT[tier]
  violated = False
  while pending or running:
    while pending and len(running) < a.jobs and not violated:
      shard, name = pending.pop(0)
      out = os.path.join(scratch, f'{name}-{shard}.json')
      log = open(os.path.join(scratch, f'{name}-{shard}.log'), 'w')
      p = subprocess.Popen(
          [sys.executable, '-W', 'ignore', '-m', 'harness.worker', pid, name,
           '--shard', str(shard), '--tier', tier, '--seed', str(seed),
           '--budget', str(GEN_BUDGET[tier]), '--out', out],
          cwd=ROOT, stdout=log, stderr=subprocess.STDOUT)
      running[p] = (name, shard, out, log)
    if violated and pending:
      pending = []
    time.sleep(0.05)
    for p in list(running):
      rc = p.poll()
      if rc is None:
        if time.monotonic() > deadline:
          p.kill(); p.wait()
          errors.append(f'{running[p][:2]}: hard time limit')
          del running[p]
        continue
      name, shard, out, log = running.pop(p)
      log.close()
      if rc == 0 and os.path.exists(out):
        with open(out) as f:
          r = json.load(f)
        results.append(r)
        if r['violation']:
          violated = True
      else:
        with open(log.name) as f:
          tail = f.read()[-3000:]
        errors.append(f'{name}[{shard}] exit {rc}:\n{tail}')
  return report(pid, tier, seed, prop, results, errors, time.monotonic() - t0)


def report(pid, tier, seed, prop, results, errors, wall):
  facets, samples, violations = {}, [], []
  total_eval = 0
  nontrivial = set()
  for r in results:
    d = facets.setdefault(r['facet'], dict(
        evaluations=0, distinct_nontrivial=0, saved_cases=0, discarded=0,
        labels={}, wall_s=0.0, rule=prop.facets[r['facet']].rule, keys=set()))
    d['evaluations'] += r['evaluations']
    d['saved_cases'] += r['corpus']
    d['discarded'] += r['discarded']
    d['wall_s'] = round(d['wall_s'] + r.get('wall_s', 0.0), 2)
    if r['truncated']:
      d['truncated_by_time_budget'] = True
    d['keys'].update(r['nontrivial'])
    for k, v in r['labels'].items():
      d['labels'][k] = d['labels'].get(k, 0) + v
    total_eval += r['evaluations']
    nontrivial.update(r['facet'] + k for k in r['nontrivial'])
    if r['shard'] == 0:
      for s in r['samples'][:1]:
        samples.append(dict(facet=r['facet'], case=s))
    if r['violation']:
      violations.append((r['facet'], r['violation']))
  for d in facets.values():
    d['distinct_nontrivial'] = len(d.pop('keys'))
    d['labels'] = dict(sorted(d['labels'].items()))
  findings = known_findings(pid)
  known = {}
  fresh = []
  for facet, v in violations:
    fresh.append((facet, v))
  for k in findings:
    # A finding is re-executed on its own recorded input; the generators avoid
    # that input by construction, so any other violation is reported.
    from harness import worker
    status, msg, _, _ = worker.evaluate(prop.facets[k['facet']], k['case'])
    known[k['id']] = status
    if status == 'violation':
      print(f'KNOWN-FINDING: property={pid} {k["id"]}: {k["what"]}')
  evidence = dict(
      property=pid, tier=tier, seed=seed, level='exploration',
      coverage=dict(
          evaluations=total_eval, distinct_nontrivial=len(nontrivial),
          rule='; '.join(f'{f.name}: {f.rule}' for f in prop.facets.values()),
          samples=samples, facets=facets, known_findings=known),
      assumptions=[
          'float64 on CPU; comparisons use the stated relative tolerances',
          'arrays are a pure function of the drawn descriptors'],
      wall_s=round(wall, 2), violations=len(fresh))
  os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
  with open(os.path.join(ROOT, 'evidence', f'{pid}.json'), 'w') as f:
    json.dump(evidence, f, indent=1)
  print(f'{pid} [{tier}] seed={seed}: {total_eval} cases, '
        f'{len(nontrivial)} distinct non-trivial, {wall:.1f} s')
  for name, d in facets.items():
    print(f'  {name}: {d["evaluations"]} cases, {d["distinct_nontrivial"]} '
          f'non-trivial, {d["wall_s"]} s'
          + (' (truncated)' if d.get('truncated_by_time_budget') else ''))
  for facet, v in fresh:
    rec = dict(property=pid, facet=facet, case=v['case'], message=v['message'],
               replay_cmd=f'./check {pid} --replay <this file>')
    if v.get('history'):
      rec['history'] = v['history']
    blob = json.dumps(rec, indent=1)
    os.makedirs(os.path.join(ROOT, 'replays'), exist_ok=True)
    path = os.path.join(
        ROOT, 'replays',
        f'{pid}-{facet}-{hashlib.sha1(blob.encode()).hexdigest()[:10]}.json')
    with open(path, 'w') as f:
      f.write(blob)
    print(f'{pid}.{facet}: {v["message"]}')
    print(f'  case: {json.dumps(v["case"])}')
    print(f'VIOLATION property={pid} replay={path}')
  sys.stdout.flush()
  if fresh:
    return 1
  if errors:
    for e in errors:
      print('HARNESS ERROR', e[:80] + ' ... ' + e[-700:], file=sys.stderr)
    return 2
  return 0


if __name__ == '__main__':
  sys.exit(main())
