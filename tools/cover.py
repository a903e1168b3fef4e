"""Which lines of /repo/jax_cfd the checks execute: `cover.py OUT.json [CNN...]`, then
`cover.py --show OUT.json` lists the code that no check reaches."""
import ast
import concurrent.futures as cf
import glob
import json
import os
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RUN = r'''
import sys, json, runpy
lines = set()
M = sys.monitoring
M.use_tool_id(1, 'cover')
def line(code, n):
  if '/repo/jax_cfd/' in code.co_filename:
    lines.add((code.co_filename.split('/jax_cfd/')[1], n))
  return M.DISABLE
M.register_callback(1, M.events.LINE, line)
M.set_events(1, M.events.LINE)
out = sys.argv.pop(1)
try:
  runpy.run_module('harness.worker', run_name='__main__', alter_sys=True)
finally:
  json.dump(sorted(lines), open(out, 'w'))
'''


def facets(pid):
  tree = ast.parse(open(f'{ROOT}/checks/{pid.lower()}.py').read())
  for n in tree.body:
    if isinstance(n, ast.FunctionDef):
      for d in n.decorator_list:
        if isinstance(d, ast.Call) and getattr(d.func, 'attr', '') == 'facet':
          yield n.name


def one(job):
  pid, name = job
  with tempfile.TemporaryDirectory() as t:
    subprocess.run(['/opt/venv/bin/python', '-W', 'ignore', '-c', RUN, t + '/lines', pid, name,
                    '--shard', '0', '--tier', 'quick', '--seed', '1', '--budget', '200',
                    '--out', t + '/out'], cwd=ROOT, capture_output=True, env=dict(
                       os.environ, JAX_PLATFORMS='cpu', JAX_ENABLE_X64='1', TF_CPP_MIN_LOG_LEVEL='3',
                       PYTHONPATH='/repo'))
    if not os.path.exists(t + '/lines'):
      return job, None
    return job, json.load(open(t + '/lines'))


def main():
  if sys.argv[1] == '--show':
    return show(sys.argv[2], sys.argv[3:])
  pids = sys.argv[2:] or sorted(os.path.basename(f)[:-3].upper()
                                for f in glob.glob(ROOT + '/checks/c[0-9]*.py'))
  got = {}
  with cf.ThreadPoolExecutor(int(os.environ.get('WORKERS', 6))) as pool:
    for (pid, name), lines in pool.map(one, [(p, f) for p in pids for f in facets(p)]):
      if lines is None:
        print('no result', pid, name)
      for f, n in lines or []:
        got.setdefault(f, {}).setdefault(str(n), []).append(f"{pid}.{name}")
  json.dump(got, open(sys.argv[1], 'w'))


def show(path, only):
  got = json.load(open(path))
  for p in sorted(glob.glob('/repo/jax_cfd/**/*.py', recursive=True)):
    rel = p.split('/jax_cfd/')[1]
    if rel.endswith('_test.py') or '__init__' in rel or (only and rel not in only):
      continue
    text = open(p).read()
    stmts = {n.lineno for n in ast.walk(ast.parse(text)) if isinstance(n, ast.stmt)
             and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant))}
    have = {int(n) for n in got.get(rel, {})}
    miss = sorted(stmts - have)
    print(f'== {rel}: {len(stmts) - len(miss)}/{len(stmts)}')
    src = text.splitlines()
    for n in miss:
      print(f'   {n}: {src[n - 1]}')


main()
