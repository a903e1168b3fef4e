"""Source of properties.jsonl and MANIFEST.json: run `python3 tools/meta.py`."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = 'jax_cfd/base/'
C = 'jax_cfd/collocated/'
S = 'jax_cfd/spectral/'
D = 'jax_cfd/data/'
M = 'jax_cfd/ml/'

PROPS = []


def prop(id, title, statement, over, text, why, files, mech, observe, note,
         technique):
  PROPS.append(dict(
      id=id, title=title, statement=statement,
      quantifier=dict(over=over, text=text), why_tests_cant=why,
      anchors=dict(files=files,
                   mechanism=[dict(name=n, where=w) for n, w in mech],
                   observe_at=observe, hook_needed=None),
      _note=note, _technique=technique))


prop('C01', 'Grid geometry is exact for every way of specifying a grid',
     'However a grid is specified (cell counts with one step, a step per axis, '
     'one length, or a domain per axis), its extent equals cell width times cell '
     'count on every axis, sample i at offset o lies at lower + (i + o) * step, '
     'functions are sampled at those points, and the Fourier frequencies are '
     'those of that spacing. Grids are values: the same geometry compares and '
     'hashes equal, a different one does not, and ill-formed specifications are '
     'rejected. Placing arrays on cell faces or centres attaches the documented '
     'offsets and leaves the data unchanged.',
     ['inputs', 'configurations'],
     'all cell counts (including 1 and odd), dimensions 1-3, isotropic and '
     'anisotropic steps, domains with arbitrary lower ends, all offsets',
     'the tests look at a handful of grids with unit steps; every other guarantee '
     'is stated in terms of this geometry for arbitrary grids',
     [B + 'grids.py'],
     [('Grid construction and mesh', B + 'grids.py:Grid')],
     ['Grid attributes', 'axes/mesh/eval_on_mesh', 'stagger/center'],
     'Random exploration against a numpy model of the documented geometry.',
     'property-based testing against a reference model (Hypothesis)')

prop('C02', 'Field arithmetic matches array arithmetic and never mixes grids',
     'Arithmetic on fields equals the same arithmetic on the plain arrays and '
     'keeps offset and grid, while operands with different offsets or different '
     'grids are rejected rather than silently combined, in every sequence of '
     'operations. Queries for the common offset, grid, boundary conditions or '
     'periodicity of several fields return the unique answer or raise, and the '
     'averaged offset is the mean. Fields, variables and tensors of fields '
     'survive flattening, jit and vmap with data and metadata intact.',
     ['inputs', 'histories'],
     'all sequences of unary/binary/in-place/mixed operations over fields with '
     'equal or different metadata, all dimensions and tensor ranks',
     'unit tests try one operation at a time on one or two fields; the guarantee '
     'is about every composition',
     [B + 'grids.py'],
     [('ufunc dispatch', B + 'grids.py:GridArray.__array_ufunc__'),
      ('consistency queries', B + 'grids.py:consistent_offset'),
      ('pytree registration', B + 'grids.py:GridArrayTensor')],
     ['result data/offset/grid', 'exceptions raised'],
     'Random operation histories against plain numpy arrays.',
     'model-based operation histories against numpy (Hypothesis)')

prop('C03', 'Values beyond the array follow the boundary conditions',
     'Shifting or padding a variable by any width on any axis and side yields '
     'the stored values inside the domain and, outside it, the periodic image, '
     'the wall value on edge-aligned points, or the ghost value that makes the '
     'prescribed wall value or wall slope hold, continued by extension or '
     'mirroring as requested, with the offset moved by the same amount. Trimming '
     'a padded variable recovers its interior, imposing boundary values changes '
     'exactly the points on a wall and is idempotent, and histories of periodic '
     'shifts compose to one shift. The conditions built by the convenience '
     'constructors, and those inferred for pressure and advective flux, are the '
     'documented ones, and unsupported combinations are rejected.',
     ['inputs', 'histories', 'configurations'],
     'all combinations of periodic/Dirichlet/Neumann per side with arbitrary '
     'values, offsets 0/0.5/1, widths on both sides, both modes, 1-3 dimensions',
     'the tests are 1-D tables with a few literal arrays; combinations of axes, '
     'sides, modes, widths and inhomogeneous values are not reached',
     [B + 'boundaries.py', B + 'grids.py'],
     [('padding rules', B + 'boundaries.py:ConstantBoundaryConditions._pad'),
      ('trimming', B + 'boundaries.py:ConstantBoundaryConditions.trim_boundary'),
      ('inferred conditions',
       B + 'boundaries.py:get_advection_flux_bc_from_velocity_and_scalar')],
     ['shift/pad/pad_all/trim_boundary/impose_bc results'],
     'Random exploration against an independent per-index numpy model of the '
     'extension; mirrored edge ghosts follow the values pinned by the test suite.',
     'property-based testing against a reference extension model (Hypothesis)')

exec(open(os.path.join(ROOT, 'tools', 'meta_rest.py')).read())


def main():
  with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
      f.write(json.dumps({k: v for k, v in p.items() if k[0] != '_'}) + '\n')
  checks, na = [], []
  for p in PROPS:
    if len(p['title']) > 80:
      raise ValueError(p['id'] + ' title')
    if p['statement'].count('. ') > 2:
      raise ValueError(p['id'] + ' has more than three sentences')
    pid = p['id']
    if os.path.exists(os.path.join(ROOT, 'checks', pid.lower() + '.py')):
      checks.append(dict(
          property=pid, quick_cmd=f'./check {pid} quick',
          thorough_cmd=f'./check {pid} thorough',
          technique=p['_technique'], level='exploration',
          level_note=p['_note']))
    else:
      na.append(dict(property=pid, reason='no check built yet'))
  manifest = dict(
      version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
      notes='No hooks in /repo. Every check imports jax_cfd from /repo at run '
      'time; there is nothing to compile.')
  with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(manifest, f, indent=1)
    f.write('\n')
  print(len(PROPS), 'properties', len(checks), 'checks')


if __name__ == '__main__':
  main()
