"""C18: collocated solvers."""
import functools

import hypothesis.strategies as st
import jax
import jax.numpy as jnp
import numpy as np

from harness import core, gen
from jax_cfd.base import advection as base_advection
from jax_cfd.base import grids
from jax_cfd.collocated import advection
from jax_cfd.collocated import diffusion
from jax_cfd.collocated import equations
from jax_cfd.collocated import initial_conditions as ic
from jax_cfd.collocated import pressure

P = core.Property('C18')
POOL = {1: [(5,), (6,), (2,)], 2: [(4, 3), (5, 6), (5, 3), (5, 5)], 3: [(3, 4, 2), (3, 5, 3)]}


def central(a, ax, h):
  return (np.roll(a, -1, axis=ax) - np.roll(a, 1, axis=ax)) / (2 * h)


def np_div(arrs, h):
  return sum(central(a, i, h[i]) for i, a in enumerate(arrs))


@functools.lru_cache(64)
def gradient_matrix(shape, step):
  n = core.prod(shape)
  cols = []
  for j in range(n):
    e = np.zeros(n)
    e[j] = 1.0
    e = e.reshape(shape)
    cols.append(np.concatenate([central(e, ax, step[ax]).ravel()
                                for ax in range(len(shape))]))
  return np.stack(cols, axis=1)


def project(arrs, g):
  """Orthogonal removal of centred gradients."""
  m = gradient_matrix(tuple(g.shape), tuple(g.step))
  x = np.concatenate([a.ravel() for a in arrs])
  q = np.linalg.lstsq(m, x, rcond=1e-10)[0]
  return list((x - m @ q).reshape((g.ndim,) + tuple(g.shape)))


def centred(arrs, g):
  return tuple(gen.gvar(a, g.cell_center, g, gen.periodic_bc(g.ndim)) for a in arrs)


def tight(v, q0):
  g = v[0].grid
  size = max(float(jnp.abs(u.data).max()) for u in v) if not isinstance(
      v[0].data, jax.core.Tracer) else 0.0
  return pressure.solve_cg(v, q0, rtol=1e-12,
                           atol=1e-12 * size * sum(1 / h for h in g.step) + 1e-300)


def traced_tight(v, q0):
  return pressure.solve_cg(v, q0, rtol=1e-12, atol=1e-13)


@st.composite
def velocity(draw, ndims=(1, 2, 3), steps=None):
  g = draw(gen.grid(ndims, POOL, steps=steps))
  d = len(g['shape'])
  return dict(g=g, fs=[draw(gen.field()) for _ in range(d)],
              mean=[draw(gen.pick(0.0, 1.0, -2.0)) for _ in range(d)],
              roll=[draw(gen.ints(-3, 3)) for _ in range(d)],
              perm=draw(st.permutations(list(range(d)))))


def build(c):
  g = gen.mk_grid(c['g'])
  return g, [gen.arr(f, g.shape) + m for f, m in zip(c['fs'], c['mean'])]


@P.facet(velocity(steps=(1.0, 0.37)), quick=24, thorough=200, shards=2,
         rule='collocated projection against dense least squares; divergence, '
         'idempotence, momentum, energy, gradients; non-trivial = non-zero '
         'divergence')
def projection(c, ctx):
  g, arrs = build(c)
  d, h = g.ndim, g.step
  v = centred(arrs, g)
  got = pressure.projection(v, tight)
  want = project(arrs, g)
  out = [core.to_np(u.data) for u in got]
  scale = max(np.abs(a).max() for a in arrs) + 1e-300
  # noise in the null space of the wide Laplacian is not amplified
  for i in range(d):
    ctx.close(out[i], want[i], f'component {i}', 1e-8, scale)
    ctx.eq(tuple(got[i].offset), tuple(v[i].offset), 'offset')
    ctx.true(got[i].bc == v[i].bc and got[i].grid == g, 'boundary conditions')
    ctx.close(out[i].sum(), arrs[i].sum(), 'momentum', 1e-9, scale * arrs[i].size)
  ctx.close(np_div(out, h), np.zeros(g.shape), 'centred divergence', 1e-8,
            scale * sum(1 / x for x in h))
  ctx.le(sum((a ** 2).sum() for a in out), sum((a ** 2).sum() for a in arrs),
         'energy does not grow', 1e-8 * scale ** 2 * arrs[0].size * d)
  again = pressure.projection(got, tight)
  for a, b in zip(again, out):
    ctx.close(a.data, b, 'idempotent', 1e-8, scale)
  # pure gradients vanish
  grad = [central(arrs[0], ax, h[ax]) for ax in range(d)]
  gs = max(np.abs(a).max() for a in grad)
  for u in pressure.projection(centred(grad, g), tight):
    ctx.close(u.data, np.zeros(g.shape), 'gradients are removed', 1e-7,
              gs + 1e-12 * scale / min(h))
  # the default solver reaches its advertised tolerance
  rough = [core.to_np(u.data) for u in pressure.projection(v)]
  before = np.sqrt((np_div(arrs, h) ** 2).sum())
  after = np.sqrt((np_div(rough, h) ** 2).sum())
  ctx.le(after, max(1e-6 * before, 1e-6), 'default tolerance',
         1e-8 * scale * sum(1 / x for x in h) * np.sqrt(arrs[0].size))
  return before > 1e-9 * scale


@st.composite
def scalar_case(draw):
  c = draw(velocity())
  c['f'] = draw(gen.field())
  c['nu'] = draw(gen.floats(0, 3))
  return c


@P.facet(scalar_case(), quick=100, shards=2,
         rule='periodic advection, convection and diffusion against the centred '
         'stencils; totals conserved; non-trivial = non-constant scalar')
def operators(c, ctx):
  g, arrs = build(c)
  d, h = g.ndim, g.step
  s = gen.arr(c['f'], g.shape)
  v = centred(arrs, g)
  var = centred([s] * 1, g)[0] if d else None
  vmax = max(np.abs(a).max() for a in arrs)
  got = core.to_np(advection.advect_linear(var, v).data)
  want = -np_div([s * a for a in arrs], h)
  scale = (np.abs(s).max() * vmax * d) / min(h) + 1e-300
  ctx.close(got, want, 'advection', 1e-11, scale)
  ctx.close(got.sum(), 0.0, 'total', 1e-11, scale * got.size)
  ctx.close(advection.advect_linear(var, v, 0.3).data, got, 'independent of dt', 0.0)
  for i, u in enumerate(advection.convect_linear(v)):
    ctx.close(u.data, -np_div([arrs[i] * a for a in arrs], h), f'convection {i}',
              1e-11, vmax ** 2 * d / min(h) + 1e-300)
    ctx.eq(tuple(u.offset), tuple(g.cell_center), 'offset')
  lap = core.to_np(diffusion.diffuse(var, c['nu']).data)
  wide = c['nu'] * sum(central(central(s, ax, h[ax]), ax, h[ax]) for ax in range(d))
  ls = c['nu'] * np.abs(s).max() * d / min(h) ** 2 + 1e-300
  ctx.close(lap, wide, 'diffusion', 1e-11, ls)
  ctx.close(lap.sum(), 0.0, 'diffused total', 1e-11, ls * lap.size)
  ctx.le((lap * s).sum(), 0.0, 'diffusion dissipates', 1e-11 * ls * np.abs(s).max()
         * lap.size)
  bad = gen.gvar(s, g.cell_center, g, gen.homogeneous(
      [['dirichlet'] * 2] * d))
  ctx.raises(ValueError, lambda: diffusion.diffuse(bad, c['nu']), 'walls')
  return gen.nonconstant(s)


@st.composite
def wall_case(draw):
  g = draw(gen.grid((1, 2, 3), POOL))
  d = len(g['shape'])
  kinds = [draw(gen.pick('periodic', 'dirichlet', 'neumann')) for _ in range(d)]
  c = dict(g=g, kinds=kinds, fs=[draw(gen.field()) for _ in range(d)], f=draw(gen.field()))
  c['cvals'] = [draw(gen.pick(0.0, 1.0, -0.5)) for _ in range(2 * d)]
  return c


@P.facet(wall_case(), quick=100,
         rule='advection between resting and porous walls: flux form, totals behind '
         'closed walls, convection is the advection of each component; '
         'non-trivial = some walls')
def walls(c, ctx):
  g = gen.mk_grid(c['g'])
  d, h = g.ndim, g.step
  types = [[k, k] for k in c['kinds']]
  arrs = [gen.arr(f, g.shape) for f in c['fs']]
  s = gen.arr(c['f'], g.shape)
  bc = gen.homogeneous(types)
  v = tuple(gen.gvar(a, g.cell_center, g, bc) for a in arrs)
  # a scalar with any wall values where the walls are closed
  vals = [[0.0, 0.0] if k != 'dirichlet' else c['cvals'][2 * i:2 * i + 2]
          for i, k in enumerate(c['kinds'])]
  scalar = gen.gvar(s, g.cell_center, g, gen.mk_bc(dict(types=types, values=vals)))

  def ref(a):
    out = 0
    for ax in range(d):
      k = dict(g=c['g'], off=[0.5] * d, bc=dict(types=types, values=[[0.0, 0.0]] * d))
      f = a * arrs[ax]
      out = out - (gen.ext_shift(f, k, ax, 1) - gen.ext_shift(f, k, ax, -1)) / (2 * h[ax])
    return out
  vmax = max(np.abs(a).max() for a in arrs)
  scale = d * vmax * np.abs(s).max() / min(h) + 1e-300
  got = core.to_np(advection.advect_linear(scalar, v).data)
  ctx.close(got, ref(s), 'advection', 1e-11, scale)
  if 'neumann' not in c['kinds']:
    ctx.close(got.sum(), 0.0, 'total', 1e-11, scale * got.size)
  for i, u in enumerate(advection.convect_linear(v)):
    ctx.close(u.data, ref(arrs[i]), f'convection of component {i}', 1e-11,
              d * vmax ** 2 / min(h) + 1e-300)
    ctx.close(u.data, advection.advect_linear(v[i], v).data, 'advected component',
              1e-11, d * vmax ** 2 / min(h) + 1e-300)
  return any(k != 'periodic' for k in c['kinds'])


@st.composite
def step_case(draw):
  c = draw(velocity((2, 3), steps=(1.0, 0.37, 2.0)))
  c.update(nu=draw(gen.pick(None, 0.0, 0.02, 0.1)), rho=draw(gen.pick(1.0, 2.5, 0.5)),
           scheme=draw(gen.pick('default', 'linear')), steps=draw(gen.ints(1, 2)),
           force=draw(gen.pick(None, 'drag', 'field')), ff=draw(gen.field()),
           cfl=draw(gen.pick(0.1, 0.4)))
  return c


@P.facet(step_case(), quick=12, thorough=100, shards=4,
         rule='collocated steps vs a numpy solver with a dense projector: divergence, '
         'momentum, translations, axis permutations, uniform flow; non-trivial = '
         'non-uniform flow')
def steps(c, ctx):
  g, arrs = build(c)
  d, h = g.ndim, g.step
  arrs = project(arrs, g)
  top = max(np.abs(a).max() for a in arrs)
  if top < 1e-9:
    raise core.Discard()
  arrs = [a / top for a in arrs]
  dt = c['cfl'] * min(h)
  mu = None if c['nu'] is None else c['nu'] * min(h) ** 2 / dt * c['rho']
  ff = gen.arr(c['ff'], g.shape)
  ff = ff / (np.abs(ff).max() + 1e-300)
  def solver(g, ff, axes):
    def field(v):
      return tuple(gen.garray(ff if ax == 0 else -0.5 * ff, g.cell_center, g)
                   for ax in axes)
    force = {None: None, 'drag': lambda v: tuple(-0.3 * u.array for u in v),
             'field': field}[c['force']]
    return equations.semi_implicit_navier_stokes(
        density=c['rho'], viscosity=mu, dt=dt, grid=g, forcing=force,
        convect=advection.convect_linear if c['scheme'] == 'linear' else None,
        pressure_solve=traced_tight)

  step = jax.jit(solver(g, ff, list(range(d))))
  x, y = centred(arrs, g), arrs
  gain = np.zeros(d)
  for _ in range(c['steps']):
    x = step(x)
    if c['scheme'] == 'linear':
      r = [-np_div([a * b for b in y], h) for a in y]
    else:
      var = centred(y, g)
      r = [core.to_np(base_advection.advect_van_leer_using_limiters(u, var, dt).data)
           for u in var]
    for i in range(d):
      if mu is not None:
        r[i] = r[i] + mu / c['rho'] * sum(
            central(central(y[i], ax, h[ax]), ax, h[ax]) for ax in range(d))
      f = {None: 0.0 * y[i], 'drag': -0.3 * y[i],
           'field': ff if i == 0 else -0.5 * ff}[c['force']]
      r[i] = r[i] + f / c['rho']
      gain[i] += dt * f.sum() / c['rho']
    y = project([a + dt * b for a, b in zip(y, r)], g)
  out = [core.to_np(u.data) for u in x]
  for i in range(d):
    ctx.close(out[i], y[i], f'component {i}', 1e-7, 2.0)
    ctx.close(out[i].sum(), arrs[i].sum() + gain[i], 'momentum', 1e-9,
              2.0 * out[i].size)
    ctx.eq(tuple(x[i].offset), tuple(g.cell_center), 'offset')
    ctx.true(x[i].bc == gen.periodic_bc(d), 'boundary conditions')
  ctx.close(np_div(out, h), np.zeros(g.shape), 'centred divergence', 1e-8,
            sum(1 / t for t in h))
  ax = tuple(range(d))
  moved = jax.jit(solver(g, np.roll(ff, c['roll'], ax), list(range(d))))
  z = centred([np.roll(a, c['roll'], ax) for a in arrs], g)
  perm = c['perm']
  gp = grids.Grid(tuple(g.shape[p] for p in perm),
                  domain=tuple(g.domain[p] for p in perm))
  turned = jax.jit(solver(gp, np.transpose(ff, perm), perm))
  w = centred([np.transpose(arrs[p], perm) for p in perm], gp)
  for _ in range(c['steps']):
    z, w = moved(z), turned(w)
  for i, p in enumerate(perm):
    ctx.close(z[i].data, np.roll(out[i], c['roll'], ax), 'translated flow', 1e-7, 2.0)
    ctx.close(w[i].data, np.transpose(out[p], perm), 'permuted axes', 1e-7, 2.0)
  if c['force'] is None:
    u = step(centred([np.full(g.shape, m) for m in c['mean']], g))
    for a, m in zip(u, c['mean']):
      ctx.close(a.data, np.full(g.shape, m), 'uniform flow', 1e-10, 2.0)
  return any(gen.nonconstant(a) for a in arrs)


@st.composite
def random_case(draw):
  return dict(g=draw(gen.grid((2, 3), {2: [(8, 6), (5, 7)], 3: [(4, 5, 6)]},
                              steps=(1.0, 0.37))),
              key=draw(gen.seeds()), vmax=draw(gen.pick(1.0, 0.1, 7.0)),
              peak=draw(gen.pick(1.0, 3.0)), iters=draw(gen.pick(3, 4)))


@P.facet(random_case(), quick=12, thorough=100, shards=2,
         rule='random collocated velocities: centred, solenoidal, of the requested '
         'speed, reproducible; all non-trivial')
def random_velocity(c, ctx):
  g = gen.mk_grid(c['g'])
  d = g.ndim
  fn = jax.jit(lambda key, vmax, peak: ic.filtered_velocity_field(
      key, g, vmax, peak, c['iters']))
  make = lambda key=c['key'], vmax=c['vmax'], peak=c['peak']: fn(
      jax.random.PRNGKey(key), vmax, peak)
  v = make()
  arrs = [core.to_np(u.data) for u in v]
  for u, a in zip(v, arrs):
    ctx.eq(tuple(u.offset), tuple(g.cell_center), 'offset')
    ctx.true(u.bc == gen.periodic_bc(d) and u.grid == g, 'boundary conditions')
    ctx.finite(a, 'values')
    ctx.close(a.mean(), 0.0, 'no mean flow', 1e-9, c['vmax'])
  ctx.close(np.sqrt(sum(a ** 2 for a in arrs)).max(), c['vmax'], 'maximum speed', 1e-9)
  ctx.close(np_div(arrs, g.step), np.zeros(g.shape), 'centred divergence', 1e-5,
            c['vmax'] * sum(1 / h for h in g.step))
  for a, b in zip(arrs, make()):
    ctx.close(b.data, a, 'same key, same field', 0.0, 1.0)
  ctx.true(max(np.abs(core.to_np(b.data) - a).max()
               for a, b in zip(arrs, make(key=c['key'] + 1))) > 1e-3 * c['vmax'],
           'another key gives another field')
  k = np.sqrt(sum(np.meshgrid(*[(2 * np.pi * np.fft.fftfreq(n, h)) ** 2 for n, h in
                                zip(g.shape, g.step)], indexing='ij')))
  cent = lambda xs: (sum((np.abs(np.fft.fftn(x)) ** 2 * k).sum() for x in xs)
                     / sum((np.abs(np.fft.fftn(x)) ** 2).sum() for x in xs))
  hi = [core.to_np(u.data) for u in make(peak=2 * c['peak'])]
  ctx.le(cent(arrs), cent(hi), 'higher peak, higher wavenumbers', 1e-3 * k.max())
  return True
