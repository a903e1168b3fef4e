"""C10: pressure projection."""
import functools

import hypothesis.strategies as st
import jax
import jax.numpy as jnp
import numpy as np

from harness import core, gen
from jax_cfd.base import boundaries
from jax_cfd.base import finite_differences as fd
from jax_cfd.base import grids
from jax_cfd.base import pressure

P = core.Property('C10')
POOL = {1: [(5,), (2,), (8,)], 2: [(4, 3), (3, 6), (2, 4), (4, 4)], 3: [(3, 4, 2), (3, 3, 2)]}


def cg(v, q0, pressure_bc=None):
  """Conjugate gradients to an error far below the tolerances used here."""
  g = v[0].grid
  size = max(float(jnp.abs(u.data).max()) for u in v)
  atol = 1e-11 * size * sum(1 / h for h in g.step) + 1e-300
  return pressure.solve_cg(v, q0, pressure_bc, rtol=1e-11, atol=atol)


def fast(impl):
  def solve(v, q0, pressure_bc=None):
    return pressure.solve_fast_diag(v, q0, pressure_bc, implementation=impl)
  return solve


SOLVERS = {
    'cg': cg,
    'default': pressure.solve_fast_diag,
    'matmul': fast('matmul'),
    'fft': fast('fft'),
    'rfft': fast('rfft'),
    'channel': pressure.solve_fast_diag_channel_flow,
}


@st.composite
def velocity(draw, homogeneous=False, walls=None):
  g = draw(gen.grid((1, 2, 3), POOL))
  d = len(g['shape'])
  wall = [draw(st.booleans()) if walls is None else walls for _ in range(d)]
  bcs = []
  normal = [0.0 if homogeneous else draw(gen.pick(0.0, 0.0, 1.5)) for _ in range(d)]
  for i in range(d):
    types, values = [], []
    for ax in range(d):
      if not wall[ax]:
        types.append(['periodic'] * 2)
        values.append([0.0, 0.0])
      elif ax == i:
        types.append(['dirichlet'] * 2)
        values.append([normal[ax]] * 2)
      else:  # moving, resting or free-slip wall
        t = draw(gen.pick('dirichlet', 'dirichlet', 'neumann'))
        types.append([t, t])
        moving = not homogeneous and t == 'dirichlet'
        values.append([draw(gen.pick(0.0, 1.0, -2.0)) if moving else 0.0
                       for _ in range(2)])
    bcs.append(dict(types=types, values=values))
  solvers = ['cg', 'default', 'matmul', 'channel']
  if not any(wall):
    solvers += ['fft'] + (['rfft'] if g['shape'][-1] % 2 == 0 else [])
  return dict(g=g, wall=wall, bcs=bcs, normal=normal,
              stale=not homogeneous and draw(gen.pick(False, False, True)),
              fs=[draw(gen.field()) for _ in range(d)],
              solver=draw(st.sampled_from(solvers)))


def build(c):
  g = gen.mk_grid(c['g'])
  d = g.ndim
  arrs, v = [], []
  for i in range(d):
    off = gen.face_offset(d, i)
    k = dict(g=c['g'], off=list(off), bc=c['bcs'][i])
    raw = gen.arr(c['fs'][i], g.shape)
    a = gen.imposed(raw, k)
    arrs.append(a)
    # values stored on a wall may be stale: the boundary condition rules
    v.append(gen.gvar(raw if c.get('stale') else a, off, g, gen.mk_bc(c['bcs'][i])))
  return g, arrs, tuple(v)


def diff_faces(q, wall, ax, h):
  """Gradient of a centred scalar on the upper faces; zero on walls."""
  out = (np.roll(q, -1, axis=ax) - q) / h
  if wall:
    sl = [slice(None)] * q.ndim
    sl[ax] = -1
    out[tuple(sl)] = 0.0
  return out


@functools.lru_cache(64)
def gradient_matrix(shape, wall, step):
  n = core.prod(shape)
  cols = []
  for j in range(n):
    e = np.zeros(n)
    e[j] = 1.0
    e = e.reshape(shape)
    cols.append(np.concatenate([diff_faces(e, wall[ax], ax, step[ax]).ravel()
                                for ax in range(len(shape))]))
  return np.stack(cols, axis=1)


def reference(c, g, arrs):
  """Orthogonal removal of the discrete gradient part."""
  m = gradient_matrix(tuple(g.shape), tuple(c['wall']), tuple(g.step))
  lifts = [np.full(g.shape, c['normal'][i] if c['wall'][i] else 0.0)
           for i in range(g.ndim)]
  x = np.concatenate([(a - l).ravel() for a, l in zip(arrs, lifts)])
  q = np.linalg.lstsq(m, x, rcond=1e-12)[0]
  w = x - m @ q
  w = w.reshape((g.ndim,) + g.shape)
  return [w[i] + lifts[i] for i in range(g.ndim)], q.reshape(g.shape)


def np_divergence(arrs, c, g):
  out = np.zeros(g.shape)
  for ax, a in enumerate(arrs):
    prev = np.roll(a, 1, axis=ax)
    if c['wall'][ax]:
      sl = [slice(None)] * g.ndim
      sl[ax] = 0
      prev[tuple(sl)] = c['normal'][ax]
    out += (a - prev) / g.step[ax]
  return out


@P.facet(velocity(), quick=70, shards=5,
         rule='projection by every solver between any mix of walls (resting, '
         'moving, free-slip, porous) and periodic sides vs a dense orthogonal '
         'projector; divergence, offsets, boundary conditions, idempotence; '
         'non-trivial = input has divergence')
def projection(c, ctx):
  g, arrs, v = build(c)
  d = g.ndim
  solve = SOLVERS[c['solver']]
  w = pressure.projection(v, solve)
  ctx.label(c['solver'] + ('/walls' if any(c['wall']) else '/periodic'))
  tol = 1e-7 if c['solver'] == 'cg' else 1e-9
  scale = max(np.abs(a).max() for a in arrs) + 1e-30
  want, _ = reference(c, g, arrs)
  ctx.eq(len(w), d, 'components')
  out = []
  for i, (u0, u) in enumerate(zip(v, w)):
    ctx.true(tuple(u.offset) == tuple(u0.offset) and u.grid == g, 'offset, grid')
    ctx.true(u.bc == u0.bc, 'boundary conditions')
    out.append(np.asarray(u.data))
    ctx.close(out[i], want[i], f'{c["solver"]} projected component {i}', tol, scale)
    if not c['wall'][i]:
      ctx.close(out[i].sum(), arrs[i].sum(), 'momentum', tol, scale * arrs[i].size)
  steps = sum(1 / h for h in g.step)
  div = np_divergence(out, c, g)
  ctx.close(div, np.zeros(g.shape), f'{c["solver"]} remaining divergence', tol,
            scale * steps)
  ctx.close(fd.divergence(w), np.zeros(g.shape), 'library divergence', tol,
            scale * steps)
  again = pressure.projection(w, solve)
  for u, a in zip(again, out):
    ctx.close(u, a, f'{c["solver"]} idempotent', 10 * tol, scale)
  if not any(c['normal'][i] for i in range(d) if c['wall'][i]):
    ctx.le(sum((a ** 2).sum() for a in out), sum((a ** 2).sum() for a in arrs),
           'kinetic energy', tol * scale ** 2 * arrs[0].size * d)
  return float(np.abs(np_divergence(arrs, c, g)).max()) > 1e-9 * scale


@P.facet(velocity(), quick=50, shards=3,
         rule='pressure field of every solver: Laplacian equals the divergence, '
         'equal to the dense solution up to a constant; non-trivial = input has '
         'divergence')
def pressure_field(c, ctx):
  c = dict(c, stale=False)
  g, arrs, v = build(c)
  pbc = boundaries.get_pressure_bc_from_velocity(v)
  for ax in range(g.ndim):
    ctx.eq(tuple(pbc.types[ax]),
           (('neumann',) * 2 if c['wall'][ax] else ('periodic',) * 2),
           'pressure boundary condition')
  solve = SOLVERS[c['solver']]
  q0 = pbc.impose_bc(grids.GridArray(jnp.zeros(g.shape), g.cell_center, g))
  q = solve(v, q0, pbc)
  q2 = solve(v, q0)
  _, want = reference(c, g, arrs)
  scale = max(np.abs(a).max() for a in arrs) * sum(
      h * n for h, n in zip(g.step, g.shape)) + 1e-30
  tol = 1e-6 if c['solver'] == 'cg' else 1e-9
  ctx.eq(tuple(q.offset), (0.5,) * g.ndim, 'pressure offset')
  a, b = np.asarray(q.data), np.asarray(q2.data)
  ctx.close(a - a.mean(), want - want.mean(), f'{c["solver"]} pressure', tol,
            scale * max(g.step) / min(g.step))
  ctx.close(b - b.mean(), want - want.mean(), 'inferred boundary conditions', tol,
            scale * max(g.step) / min(g.step))
  return float(np.abs(np_divergence(arrs, c, g)).max()) > 0


@P.facet(velocity(homogeneous=True), quick=40, shards=3,
         rule='pure gradients vanish, solenoidal fields stay, projection is '
         'linear; non-trivial = gradient part non-zero')
def decomposition(c, ctx):
  g, arrs, v = build(c)
  d = g.ndim
  solve = SOLVERS[c['solver']]
  tol = 1e-7 if c['solver'] == 'cg' else 1e-9
  sol, _ = reference(c, g, arrs)
  q = gen.arr(c['fs'][-1], g.shape)
  grad = [diff_faces(q, c['wall'][ax], ax, g.step[ax]) for ax in range(d)]
  mk = lambda xs: tuple(gen.gvar(x, u.offset, g, u.bc) for x, u in zip(xs, v))
  gs = max(np.abs(x).max() for x in grad) + 1e-30
  ss = max(np.abs(x).max() for x in arrs) + 1e-30
  for u in pressure.projection(mk(grad), solve):
    ctx.close(u, np.zeros(g.shape), 'gradient removed', tol, gs)
  for u, a in zip(pressure.projection(mk(sol), solve), sol):
    ctx.close(u, a, 'solenoidal field unchanged', tol, ss)
  both = [2.0 * s - 0.5 * x for s, x in zip(sol, grad)]
  for u, a in zip(pressure.projection(mk(both), solve), sol):
    ctx.close(u, 2.0 * a, 'sum of both parts', tol, 2 * ss + gs)
  return gs > 1e-20


@st.composite
def prescribed(draw):
  g = draw(gen.grid((1, 2, 3), POOL))
  d = len(g['shape'])
  kind = [draw(gen.pick('open', 'wall', 'half', 'periodic')) for _ in range(d)]
  if all(k in ('periodic', 'wall') for k in kind):
    kind[draw(st.integers(0, d - 1))] = draw(gen.pick('open', 'half'))
  flow = [[draw(gen.pick(0.0, 1.0, -2.0)) for _ in range(2)] for _ in range(d)]
  return dict(g=g, kind=kind, flow=flow, flip=draw(st.booleans()),
              fs=[draw(gen.field()) for _ in range(d)],
              solver=draw(st.sampled_from(['cg', 'default', 'matmul', 'channel'])))


@P.facet(prescribed(), quick=40, shards=3,
         rule='pressure under boundary conditions given explicitly, with zero '
         'pressure on at least one side (so that it is unique): the discrete '
         'Laplacian of the solution is the divergence, whatever flows through '
         'the walls; non-trivial = net flux through the walls')
def prescribed_pressure(c, ctx):
  g = gen.mk_grid(c['g'])
  d = g.ndim
  sides = {'open': ('dirichlet',) * 2, 'wall': ('neumann',) * 2,
           'half': ('dirichlet', 'neumann')[::-1 if c['flip'] else 1],
           'periodic': ('periodic',) * 2}
  types = tuple(sides[k] for k in c['kind'])
  pbc = boundaries.HomogeneousBoundaryConditions(types)
  ctx.label('/'.join(sorted(set(c['kind']))))
  v, div = [], np.zeros(g.shape)
  for i in range(d):
    vt = tuple(('periodic',) * 2 if k == 'periodic' else ('dirichlet',) * 2
               for k in c['kind'])
    values = tuple((0.0, 0.0) if ax != i or c['kind'][ax] == 'periodic'
                   else tuple(c['flow'][ax]) for ax in range(d))
    bc = boundaries.ConstantBoundaryConditions(vt, values)
    a = np.array(gen.arr(c['fs'][i], g.shape))
    prev = np.roll(a, 1, axis=i)
    if c['kind'][i] != 'periodic':
      last = [slice(None)] * d
      last[i] = -1
      first = [slice(None)] * d
      first[i] = 0
      a[tuple(last)] = c['flow'][i][1]
      prev = np.roll(a, 1, axis=i)
      prev[tuple(first)] = c['flow'][i][0]
    div += (a - prev) / g.step[i]
    v.append(gen.gvar(a, gen.face_offset(d, i), g, bc))
  q0 = pbc.impose_bc(grids.GridArray(jnp.zeros(g.shape), g.cell_center, g))
  q = SOLVERS[c['solver']](tuple(v), q0, pbc)
  ctx.eq(tuple(q.offset), (0.5,) * d, 'pressure offset')
  x = np.asarray(q.data)
  lap = np.zeros(g.shape)
  for ax in range(d):
    y = np.moveaxis(x, ax, 0)
    ghost = {'periodic': (y[-1], y[0]), 'neumann': (y[0], y[-1]),
             'dirichlet': (-y[0], -y[-1])}
    lo, hi = ghost[types[ax][0]][0], ghost[types[ax][1]][1]
    z = np.concatenate([lo[None], y, hi[None]])
    lap += np.moveaxis(z[2:] - 2 * y + z[:-2], 0, ax) / g.step[ax] ** 2
  scale = (np.abs(div).max() + np.abs(x).max() * sum(4 / h ** 2 for h in g.step)
           + 1e-30)
  ctx.close(lap, div, f'{c["solver"]} solves the Poisson equation',
            1e-6 if c['solver'] == 'cg' else 1e-9, scale)
  return abs(div.mean()) > 1e-6


@P.facet(gen.dct(v=velocity(), rtol=gen.pick(1e-2, 1e-5, 1e-8, 1e-10),
                 atol=gen.pick(1e-2, 1e-6, 1e-9, 0.0), size=gen.pick(1e-3, 1.0, 1e5)),
         quick=40, shards=2,
         rule='conjugate gradients stop at the requested relative or absolute accuracy, '
         'not before; non-trivial = input has divergence')
def tolerances(c, ctx):
  v = c['v']
  v = dict(v, fs=[dict(f, amp=c['size']) for f in v['fs']])
  g, arrs, u = build(v)
  before = np.linalg.norm(np_divergence(arrs, v, g))
  if before < 1e-6 * c['size']:
    raise core.Discard
  out = pressure.projection(u, functools.partial(
      pressure.solve_cg, rtol=c['rtol'], atol=c['atol']))
  after = np.linalg.norm(core.to_np(fd.divergence(out)))
  ctx.le(after, max(c['rtol'] * before, c['atol']) * 1.01 + 1e-12 * before
         + 1e-11 * c['size'] * sum(1 / h for h in g.step), 'divergence left')
  ctx.label(f"rtol {c['rtol']} atol {c['atol']}")
  return True


@P.facet(gen.dct(v=velocity(), scale=gen.ints(-6, 9), single=st.booleans()),
         quick=30, shards=3,
         rule='direct solvers on cells of any size from micrometres to megametres, in '
         'double and single precision; non-trivial = input has divergence')
def sizes(c, ctx):
  v = dict(c['v'])
  k = 10.0 ** c['scale']
  v['g'] = dict(v['g'], domain=[[a * k, b * k] for a, b in v['g']['domain']])
  with jax.enable_x64(not c['single']):
    g, arrs, u = build(v)
    if c['v']['solver'] == 'cg':
      v['solver'] = 'default'
    before = np.abs(np_divergence(arrs, v, g)).max()
    out = pressure.projection(u, SOLVERS[v['solver']])
    after = np.abs(core.to_np(fd.divergence(out))).max()
  size = max(np.abs(a).max() for a in arrs) * sum(1 / h for h in g.step)
  ctx.le(after, (1e-4 if c['single'] else 1e-9) * size, 'divergence left')
  ctx.label('single' if c['single'] else 'double')
  return before > 1e-6 * size
