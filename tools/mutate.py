"""Mutation analysis: small edits of /repo/jax_cfd, run against the facets that reach them.

  mutate.py COVER.json N SEED OUT.json [FILE_REGEX] [MAX_FACETS]

COVER.json comes from cover.py.  Each mutant lives in a copy of /repo bound over /repo in
a private mount namespace.  Survivors are printed; what they mean is for a person to judge.
"""
import ast
import concurrent.futures as cf
import copy
import glob
import json
import os
import random
import re
import shutil
import subprocess
import sys
import threading

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TMP = '/tmp/mutants'
SWAPS = dict(sin='cos', cos='sin', max='min', min='max', maximum='minimum',
             minimum='maximum', floor='ceil', ceil='floor', zeros_like='ones_like',
             ones_like='zeros_like', zeros='ones', ones='zeros', sum='mean', mean='sum',
             lower='upper', upper='lower', fftn='ifftn', any='all', all='any', real='imag',
             rfft='fft', abs='negative', argmax='argmin', argmin='argmax')


def variants(n):
  """New expressions for an expression node."""
  def alt(**kw):
    m = copy.deepcopy(n)
    for k, v in kw.items():
      setattr(m, k, v)
    return m
  if isinstance(n, ast.BinOp):
    for a, b in ((ast.Add, ast.Sub), (ast.Sub, ast.Add), (ast.Mult, ast.Div),
                 (ast.Div, ast.Mult), (ast.Pow, ast.Mult), (ast.FloorDiv, ast.Mult),
                 (ast.Mod, ast.FloorDiv), (ast.MatMult, ast.Mult)):
      if isinstance(n.op, a):
        yield alt(op=b())
    if isinstance(n.op, (ast.Add, ast.Sub, ast.Mult, ast.Div)):
      yield n.left
    if isinstance(n.op, (ast.Add, ast.Mult)):
      yield n.right
  elif isinstance(n, ast.Compare) and len(n.ops) == 1:
    for a, b in ((ast.Lt, ast.LtE), (ast.LtE, ast.Lt), (ast.Gt, ast.GtE), (ast.GtE, ast.Gt),
                 (ast.Eq, ast.NotEq), (ast.NotEq, ast.Eq), (ast.In, ast.NotIn),
                 (ast.Is, ast.IsNot), (ast.IsNot, ast.Is)):
      if isinstance(n.ops[0], a):
        yield alt(ops=[b()])
  elif isinstance(n, ast.Constant):
    if isinstance(n.value, bool):
      yield ast.Constant(not n.value)
    elif isinstance(n.value, int):
      yield ast.Constant(n.value + 1)
      if n.value:
        yield ast.Constant(n.value - 1)
    elif isinstance(n.value, float):
      yield ast.Constant(n.value * 2 if n.value else 1.0)
  elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not, ast.Invert)):
    yield n.operand
  elif isinstance(n, ast.Call):
    for i, k in enumerate(n.keywords):
      if k.arg:
        yield alt(keywords=n.keywords[:i] + n.keywords[i + 1:])
    if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args[:2]):
      yield alt(args=[n.args[1], n.args[0]] + n.args[2:])
    if isinstance(n.func, ast.Attribute) and n.func.attr in SWAPS:
      m = copy.deepcopy(n)
      m.func.attr = SWAPS[n.func.attr]
      yield m
    if len(n.args) == 1 and not n.keywords and not isinstance(n.args[0], (
        ast.Starred, ast.GeneratorExp)):
      yield n.args[0]
  elif isinstance(n, ast.IfExp):
    yield alt(body=n.orelse, orelse=n.body)
  elif isinstance(n, ast.BoolOp):
    yield alt(op=ast.Or() if isinstance(n.op, ast.And) else ast.And())
  elif isinstance(n, ast.Attribute) and n.attr in SWAPS:
    yield alt(attr=SWAPS[n.attr])


def mutants(path, reached):
  """(line, old, new, text) for every edit of an expression in a function body."""
  text = open(path).read()
  lines = text.splitlines(keepends=True)
  starts = [0]
  for l in lines:
    starts.append(starts[-1] + len(l.encode()))
  raw = text.encode()
  def walk(n, inside, stmt):
    if isinstance(n, (ast.Raise, ast.Assert)):
      return
    if isinstance(n, ast.If) and all(isinstance(s, ast.Raise) for s in n.body):
      return  # what is refused is a separate matter
    if isinstance(n, (ast.FunctionDef, ast.Lambda)):
      for s in n.body if isinstance(n.body, list) else [n.body]:
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
          continue
        yield from walk(s, True, s if isinstance(s, ast.stmt) else stmt)
      return
    if inside and isinstance(n, ast.expr) and stmt.lineno in reached:
      for v in variants(n):
        a = starts[n.lineno - 1] + n.col_offset
        b = starts[n.end_lineno - 1] + n.end_col_offset
        new = ast.unparse(v)
        if not isinstance(v, (ast.Constant, ast.Name, ast.Call, ast.Attribute, ast.Subscript)):
          new = f'({new})'
        old = raw[a:b].decode()
        out = (raw[:a] + new.encode() + raw[b:]).decode()
        try:
          ast.parse(out)
        except SyntaxError:
          continue
        yield n.lineno, stmt.lineno, old, new, out
    for c in ast.iter_child_nodes(n):
      yield from walk(c, inside, c if isinstance(c, ast.stmt) else stmt)
  yield from walk(ast.parse(text), False, None)


FREE = []
LOCK = threading.Lock()


def facet_run(d, name, budget=120):
  pid, facet = name.split('.')
  out = f'{d}.out'
  r = subprocess.run(
      ['unshare', '-m', 'bash', '-c',
       f'mount --bind {d} /repo; cd {ROOT}; export JAX_PLATFORMS=cpu JAX_ENABLE_X64=1 '
       f'OMP_NUM_THREADS=1 XLA_FLAGS="--xla_cpu_multi_thread_eigen=false --xla_cpu_max_isa=AVX2" '
       f'TF_CPP_MIN_LOG_LEVEL=3 PYTHONPATH=/repo MPLCONFIGDIR=/tmp; exec timeout 400 nice -n 5 /opt/venv/bin/python -W ignore '
       f'-m harness.worker {pid} {facet} --shard 0 --tier quick --seed 1 --budget {budget} '
       f'--shrink 1 --out {out}'], capture_output=True, text=True)
  if not os.path.exists(out):
    return 'error ' + r.stderr[-200:]
  res = json.load(open(out))
  os.remove(out)
  return res.get('violation')


def one(m):
  rel, line, stmt, old, new, text, facets = m
  with LOCK:
    d = FREE.pop()
  try:
    p = f'{d}/jax_cfd/{rel}'
    keep = open(p).read()
    open(p, 'w').write(text)
    killed = None
    for f in facets:
      v = facet_run(d, f)
      if v:
        killed = f
        break
    open(p, 'w').write(keep)
    return dict(file=rel, line=line, old=old, new=new, killed=killed, tried=facets)
  finally:
    with LOCK:
      FREE.append(d)


def main():
  cover, n, seed, out = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
  only = re.compile(sys.argv[5] if len(sys.argv) > 5 else '.')
  top = int(sys.argv[6]) if len(sys.argv) > 6 else 12
  got = json.load(open(cover))
  size = {}
  for f in got:
    for l, fs in got[f].items():
      for x in fs:
        size[x] = size.get(x, 0) + 1
  rng = random.Random(seed)
  pool = []
  for p in sorted(glob.glob('/repo/jax_cfd/**/*.py', recursive=True)):
    rel = p.split('/jax_cfd/')[1]
    if rel.endswith('_test.py') or 'test_util' in rel or '__init__' in rel or not only.search(rel):
      continue
    have = {int(x): y for x, y in got.get(rel, {}).items()}
    per = {}
    for line, stmt, old, new, text in mutants(p, have):
      fs = sorted(have[stmt], key=lambda x: size[x])
      per.setdefault(line, []).append((rel, line, stmt, old, new, text, fs[:top]))
    for line, ms in per.items():  # at most two of each line
      rng.shuffle(ms)
      pool += ms[:2]
  rng.shuffle(pool)
  done = set()
  if os.path.exists(out):
    done = {(r['file'], r['line'], r['old'], r['new']) for r in map(json.loads, open(out))}
  pool = [m for m in pool if (m[0], m[1], m[3], m[4]) not in done][:n]
  workers = int(os.environ.get('WORKERS', 6))
  shutil.rmtree(TMP, ignore_errors=True)
  os.makedirs(TMP)
  for i in range(workers):
    shutil.copytree('/repo', f'{TMP}/{i}', symlinks=True)
    FREE.append(f'{TMP}/{i}')
  with cf.ThreadPoolExecutor(workers) as ex, open(out, 'a') as log:
    for r in ex.map(one, pool):
      log.write(json.dumps(r) + '\n')
      log.flush()
      if not r['killed']:
        print(f"SURVIVED {r['file']}:{r['line']} {r['old']!r} -> {r['new']!r} [{len(r['tried'])}]",
              flush=True)
  shutil.rmtree(TMP, ignore_errors=True)


main()
