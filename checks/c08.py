"""C08: diffusion."""
import hypothesis.strategies as st
import jax.numpy as jnp
import numpy as np

from harness import core, gen
from jax_cfd.base import diffusion
from jax_cfd.base import grids

P = core.Property('C08')
POOL = {1: [(5,), (2,), (8,)], 2: [(4, 3), (3, 5), (2, 6), (4, 4)], 3: [(3, 4, 2), (3, 3, 2)]}
NUS = (0.1, 1.0, 3.0)


def ref_laplacian(a, c):
  """Five-point Laplacian of the variable (g, off, bc) holding `a`."""
  hs = gen.steps_of(c['g'])
  out = np.zeros_like(a)
  for ax in range(a.ndim):
    out += (gen.ext_shift(a, c, ax, 1) - 2 * a + gen.ext_shift(a, c, ax, -1)
            ) / hs[ax] ** 2
  return out


@P.facet(gen.dct(c=gen.variable(pool=POOL), nu=gen.pick(*NUS)), quick=100, shards=3,
         rule='rate of change = diffusivity * Laplacian with any boundary '
         'conditions, totals on periodic/insulated domains; non-trivial = '
         'non-constant field')
def rate(case, ctx):
  c = case['c']
  g = gen.mk_grid(c['g'])
  a = gen.var_data(c)
  u = gen.gvar(a, c['off'], g, gen.mk_bc(c['bc']))
  got = diffusion.diffuse(u, case['nu'])
  vmax = max([abs(x) for v in c['bc']['values'] for x in v if x] + [0.0])
  scale = case['nu'] * sum((np.abs(a).max() + vmax * (1 + h)) / h ** 2 * 4
                           for h in g.step)
  ctx.eq(tuple(got.offset), tuple(c['off']), 'offset')
  ctx.close(got, case['nu'] * ref_laplacian(a, c), 'diffusivity times Laplacian',
            1e-11, scale)
  closed = all(t[0] == 'periodic' or (set(t) == {'neumann'} and not any(v))
               for t, v in zip(c['bc']['types'], c['bc']['values']))
  if closed:
    ctx.label('closed')
    ctx.close(np.sum(np.asarray(got.data)), 0.0, 'total', 1e-11, scale * a.size)
  return gen.nonconstant(a)


@P.facet(gen.dct(g=gen.grid((1, 2, 3), POOL), nu=gen.pick(0.0, *NUS),
                 k=st.lists(gen.ints(-3, 3), min_size=3, max_size=3),
                 f=gen.field(), frac=gen.pick(1.0, 1.0, 0.5),
                 wall=gen.pick(False, True), phase=gen.floats(0, 6)), quick=100,
         shards=2,
         rule='explicit step at the advertised limit: extrema and decay rate of a '
         'Fourier mode; non-trivial = non-constant field and nu > 0')
def explicit(c, ctx):
  g = gen.mk_grid(c['g'])
  d = g.ndim
  nu = c['nu']
  dt = diffusion.stable_time_step(nu, g)
  if nu == 0:
    ctx.true(dt == float('inf'), 'no limit without diffusion')
    u = gen.gvar(gen.arr(c['f'], g.shape), (0.5,) * d, g, gen.periodic_bc(d))
    ctx.close(diffusion.diffuse(u, 0.0), np.zeros(g.shape), 'no diffusion')
    return False
  dt = float(dt) * c['frac']
  ctx.true(dt > 0, 'positive time step')
  bc = gen.homogeneous([['neumann' if c['wall'] else 'periodic'] * 2] * d)
  a = gen.arr(c['f'], g.shape)
  x = gen.gvar(a, (0.5,) * d, g, bc)
  for _ in range(2):
    x = grids.GridVariable(x.array + dt * diffusion.diffuse(x, nu), bc)
  y = np.asarray(x.data)
  slack = 1e-12 * np.abs(a).max()
  ctx.le(y, a.max(), 'new maximum', slack)
  ctx.le(a.min(), y, 'new minimum', slack)
  bc = gen.periodic_bc(d)
  mesh = np.meshgrid(*[np.arange(n) / n for n in g.shape], indexing='ij')
  mode = np.cos(2 * np.pi * sum(k * m for k, m in zip(c['k'], mesh)) + c['phase'])
  lam = sum((2 * np.cos(2 * np.pi * k / n) - 2) / h ** 2
            for k, n, h in zip(c['k'], g.shape, g.step))
  got = diffusion.diffuse(gen.gvar(mode, (0.5,) * d, g, bc), nu)
  ctx.close(got, nu * lam * mode, 'decay rate of a mode', 1e-11,
            nu * sum(4 / h ** 2 for h in g.step))
  return gen.nonconstant(a)


SOLVERS = {
    'cg': lambda v, nu, dt: diffusion.solve_cg(v, nu, dt, rtol=1e-13, atol=0.0),
    'matmul': lambda v, nu, dt: diffusion.solve_fast_diag(v, nu, dt, 'matmul'),
    'fft': lambda v, nu, dt: diffusion.solve_fast_diag(v, nu, dt, 'fft'),
    'rfft': lambda v, nu, dt: diffusion.solve_fast_diag(v, nu, dt, 'rfft'),
    'default': lambda v, nu, dt: diffusion.solve_fast_diag(v, nu, dt),
}


@st.composite
def periodic_solve(draw):
  g = draw(gen.grid((1, 2, 3), POOL))
  d = len(g['shape'])
  n = draw(gen.pick(1, 1, d))
  names = ['cg', 'matmul', 'fft', 'default']
  if g['shape'][-1] % 2 == 0:
    names.append('rfft')
  return dict(g=g, fs=[draw(gen.field()) for _ in range(n)],
              off=[[draw(gen.pick(0.5, 1.0, 0.0)) for _ in range(d)]
                   for _ in range(n)],
              nu=draw(gen.pick(*NUS)), r=draw(gen.pick(1e-4, 0.3, 5.0, 1e3)),
              solver=draw(st.sampled_from(names)))


@P.facet(periodic_solve(), quick=60, shards=4,
         rule='every implicit solver on periodic variables, dt*nu/h^2 from 1e-4 '
         'to 1e3: backward-Euler residual, mean, contraction, extrema; '
         'non-trivial = non-constant field')
def implicit_periodic(c, ctx):
  g = gen.mk_grid(c['g'])
  d = g.ndim
  bc = gen.periodic_bc(d)
  arrs = [gen.arr(f, g.shape) for f in c['fs']]
  v = tuple(gen.gvar(a, o, g, bc) for a, o in zip(arrs, c['off']))
  dt = c['r'] * min(g.step) ** 2 / c['nu']
  out = SOLVERS[c['solver']](v, c['nu'], dt)
  ctx.label(c['solver'])
  ctx.eq(len(out), len(v), 'number of components')
  tol = 1e-7 if c['solver'] == 'cg' else 1e-9
  for a, o, u in zip(arrs, c['off'], out):
    ctx.true(tuple(u.offset) == tuple(o) and u.grid == g, 'offset and grid')
    ctx.true(u.bc == bc, 'boundary conditions')
    y = np.asarray(u.data)
    k = dict(g=c['g'], off=o, bc=dict(types=[['periodic'] * 2] * d,
                                      values=[[0.0, 0.0]] * d))
    big = np.abs(a).max() * (1 + dt * c['nu'] * sum(4 / h ** 2 for h in g.step))
    ctx.close(y - dt * c['nu'] * ref_laplacian(y, k), a,
              f'{c["solver"]} backward-Euler residual', tol, big)
    s = np.abs(a).max()
    ctx.close(y.mean(), a.mean(), 'mean', tol, s)
    ctx.le(np.linalg.norm(y), np.linalg.norm(a), 'norm', tol * s * a.size)
    ctx.le(y, a.max(), 'new maximum', tol * s * 10)
    ctx.le(a.min(), y, 'new minimum', tol * s * 10)
  return any(gen.nonconstant(a) for a in arrs)


@st.composite
def wall_solve(draw):
  g = draw(gen.grid((1, 2, 3), POOL))
  d = len(g['shape'])
  main = draw(gen.ints(0, d - 1))  # the axis that may have non-zero walls
  inhom = draw(st.booleans())
  types, values, off = [], [], []
  for ax in range(d):
    if inhom:
      if ax == main:
        types.append(['dirichlet'] * 2)
        values.append([draw(gen.pick(0.0, 1.0, -2.5)), draw(gen.pick(0.5, 3.0))])
      else:
        types.append([draw(gen.pick('periodic', 'neumann'))] * 2)
        values.append([0.0, 0.0])
    else:
      t = draw(gen.pick('periodic', 'dirichlet', 'neumann', 'mixed', 'mixed2'))
      if ax == main and t == 'periodic':
        t = 'dirichlet'
      types.append({'mixed': ['dirichlet', 'neumann'],
                    'mixed2': ['neumann', 'dirichlet']}.get(t, [t, t]))
      values.append([0.0, 0.0])
    off.append(0.5 if 'neumann' in types[-1] else draw(gen.pick(0.5, 1.0, 0.0)))
  return dict(g=g, off=off, bc=dict(types=types, values=values), f=draw(gen.field()),
              nu=draw(gen.pick(*NUS)), r=draw(gen.pick(1e-4, 0.3, 5.0, 1e3)))


@P.facet(wall_solve(), quick=70, shards=4,
         rule='implicit solver between walls of every supported kind, including '
         'fixed non-zero values on one axis: backward-Euler residual inside, '
         'boundary values on the walls; non-trivial = non-constant field')
def implicit_walls(c, ctx):
  g = gen.mk_grid(c['g'])
  a = gen.var_data(c)
  bc = gen.mk_bc(c['bc'])
  dt = c['r'] * min(g.step) ** 2 / c['nu']
  out, = diffusion.solve_fast_diag((gen.gvar(a, c['off'], g, bc),), c['nu'], dt)
  ctx.true(tuple(out.offset) == tuple(c['off']) and out.grid == g, 'offset, grid')
  ctx.true(out.bc == bc, 'boundary conditions')
  y = np.asarray(out.data)
  ctx.eq(y.shape, a.shape, 'shape')
  vmax = max(abs(x) for v in c['bc']['values'] for x in v)
  big = (np.abs(a).max() + vmax) * (
      1 + dt * c['nu'] * sum(4 / h ** 2 for h in g.step))
  res = y - dt * c['nu'] * ref_laplacian(y, c) - a
  inner = []
  for t, o in zip(c['bc']['types'], c['off']):
    if t[0] == 'dirichlet' and o == 1.0:
      inner.append(slice(0, -1))
    elif t[0] == 'dirichlet' and o == 0.0:
      inner.append(slice(1, None))
    else:
      inner.append(slice(None))
  res = res[tuple(inner)]
  ctx.close(res, np.zeros_like(res), 'backward-Euler residual', 1e-9, big)
  ctx.close(y, gen.imposed(y, c), 'values on the walls', 1e-12, np.abs(a).max() + vmax)
  if vmax == 0:
    ctx.le(np.linalg.norm(y), np.linalg.norm(a), 'norm',
           1e-9 * np.abs(a).max() * a.size)
  return gen.nonconstant(a)


@P.facet(gen.dct(g=gen.grid((1, 2), POOL), f=gen.field()), quick=20,
         rule='unsupported settings are refused; all non-trivial')
def refusals(c, ctx):
  g = gen.mk_grid(c['g'])
  d = g.ndim
  a = gen.arr(c['f'], g.shape)
  wall = gen.homogeneous([['dirichlet'] * 2] * d)
  ctx.raises(ValueError, lambda: diffusion.solve_cg(
      (gen.gvar(a, (0.5,) * d, g, wall),), 1.0, 0.1), 'walls with CG')
  slope = gen.mk_bc(dict(types=[['neumann'] * 2] * d, values=[[0.0, 1.0]] * d))
  ctx.raises(NotImplementedError, lambda: diffusion.solve_fast_diag(
      (gen.gvar(a, (0.5,) * d, g, slope),), 1.0, 0.1), 'non-zero slope')
  return True
