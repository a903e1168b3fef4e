"""Runs one shard of one facet and writes its result as JSON."""
import argparse
import errno
import hashlib
import importlib
import json
import os
import sys
import time
import traceback
import zlib


class _Stop(BaseException):
  """Ends generation or shrinking from inside the test body."""


def jsonify(case):
  from harness import core
  return json.loads(core.canonical(case))


def evaluate(facet, case):
  """Returns (status, message, nontrivial, labels); status ok|violation|discard."""
  from harness import core
  ctx = core.Ctx()
  try:
    nontrivial = facet.check(jsonify(case), ctx)
  except core.Violation as e:
    return 'violation', str(e), True, ctx.labels
  except core.Discard:
    return 'discard', '', False, ctx.labels
  except (KeyboardInterrupt, SystemExit, MemoryError):
    raise
  except Exception as e:  # pylint: disable=broad-except
    if isinstance(e, ImportError) or getattr(e, 'errno', None) in (
        errno.ENOSPC, errno.ENOMEM, errno.EMFILE) or 'RESOURCE_EXHAUSTED' in str(e):
      raise  # the environment, not the code under test
    # Cases are valid by construction, so that any exception is a failure: raised by
    # the code under test, by a library it called lazily (no frame of /repo is left
    # when JAX transposes a loop), or by the check on output of an unexpected form.
    tb = traceback.extract_tb(e.__traceback__)
    where = [f for f in tb if f.filename.startswith('/repo/')] or [
        f for f in tb if '/checks/' in f.filename] or tb
    at = f'{where[-1].filename}:{where[-1].lineno}' if where else '?'
    return ('violation',
            f'valid input raised {type(e).__name__} at {at}: {str(e)[:300]}',
            True, ctx.labels)
  return 'ok', '', bool(nontrivial), ctx.labels


def run(pid, name, shard, tier, seed, budget, shrink_budget):
  from harness import deps
  deps.install()
  import hypothesis
  from hypothesis.internal.conjecture import engine
  # By default most examples are earlier ones with a few parts copied over others,
  # which suits parsers but makes every other part of the case repeat itself.
  engine.ConjectureRunner.generate_mutations_from = lambda self, data: None
  from harness import core
  prop = importlib.import_module(f'checks.{pid.lower()}').P
  import jax_cfd
  if not os.path.realpath(jax_cfd.__file__).startswith(
      os.path.realpath('/repo') + os.sep):
    raise RuntimeError(f'jax_cfd comes from {jax_cfd.__file__}')
  facet = prop.facets[name]
  start = time.monotonic()
  res = dict(pid=pid, facet=name, shard=shard, evaluations=0, nontrivial=[],
             distinct=0, labels={}, samples=[], discarded=0, truncated=False,
             violation=None, corpus=0)
  seen = set()

  def note(case, nontrivial, labels):
    res['evaluations'] += 1
    for l in set(labels):
      res['labels'][l] = res['labels'].get(l, 0) + 1
    key = hashlib.sha1(core.canonical(case).encode()).hexdigest()[:16]
    if key not in seen:
      seen.add(key)
      if nontrivial:
        res['nontrivial'].append(key)
        if len(res['samples']) < 2:
          res['samples'].append(jsonify(case))

  # Saved cases first: plain replays that do not need the library.
  corpus = os.path.join(os.path.dirname(os.path.dirname(__file__)), 'corpus',
                        pid, name + '.json')
  if shard == 0 and os.path.exists(corpus):
    with open(corpus) as f:
      saved = json.load(f)
    for case in saved:
      status, msg, nt, labels = evaluate(facet, case)
      if status == 'discard':
        continue
      res['corpus'] += 1
      note(case, nt, labels)
      if status == 'violation':
        res['violation'] = dict(case=case, message=msg)
        break

  n = facet.quick if tier == 'quick' else facet.thorough
  best = {}

  def body(case):
    now = time.monotonic()
    if best and now - best['t0'] > shrink_budget:
      raise _Stop()
    if not best and now - start > budget:
      res['truncated'] = True
      raise _Stop()
    status, msg, nt, labels = evaluate(facet, case)
    if status == 'discard':
      res['discarded'] += 1
      return
    if not best:
      note(case, nt, labels)
    if status == 'violation':
      best.setdefault('t0', now)
      size = len(core.canonical(case))
      best.setdefault('first', jsonify(case))
      best.update(case=jsonify(case), message=msg, size=size)
      raise core.Violation(msg)

  if res['violation'] is None and n > 0:
    hseed = (int(seed) * 1000003 + zlib.crc32(f'{pid}.{name}'.encode())
             + 7919 * shard) % (2 ** 32)
    test = hypothesis.given(facet.strategy)(body)
    test = hypothesis.seed(hseed)(test)
    test = hypothesis.settings(
        max_examples=n, deadline=None, database=None, report_multiple_bugs=False,
        print_blob=False, verbosity=hypothesis.Verbosity.quiet,
        suppress_health_check=list(hypothesis.HealthCheck),
        phases=[hypothesis.Phase.generate, hypothesis.Phase.shrink])(test)
    try:
      test()
    except _Stop:
      pass
    except core.Violation:
      pass
    except BaseException as e:  # pylint: disable=broad-except
      # e.g. Flaky, if the failure depends on the process' history: the
      # recorded case did fail, so re-evaluate it below.
      if not best:
        raise
      res['note'] = f'{type(e).__name__}'
    if best:
      # Confirm by a plain replay, outside the library.
      for cand in (best['case'], best['first']):
        status, msg, _, _ = evaluate(facet, cand)
        if status == 'violation':
          res['violation'] = dict(case=cand, message=msg)
          break
      else:
        # Failed on this input once, but not again: what it returns depends on
        # what ran before.  Replay the whole shard.
        res['violation'] = dict(
            case=best['first'], message='depends on earlier calls: ' + best['message'],
            history=dict(shard=shard, tier=tier, seed=seed))
  res['distinct'] = len(seen)
  res['wall_s'] = time.monotonic() - start
  return res


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument('pid'); ap.add_argument('facet')
  ap.add_argument('--shard', type=int, default=0)
  ap.add_argument('--tier', default='quick')
  ap.add_argument('--seed', type=int, default=1)
  ap.add_argument('--budget', type=float, default=400)
  ap.add_argument('--shrink', type=float, default=40)
  ap.add_argument('--out', required=True)
  a = ap.parse_args()
  res = run(a.pid, a.facet, a.shard, a.tier, a.seed, a.budget, a.shrink)
  with open(a.out, 'w') as f:
    json.dump(res, f)


if __name__ == '__main__':
  main()
