"""C17: subgrid-scale models."""
import functools

import hypothesis.strategies as st
import jax
import jax.numpy as jnp
import numpy as np

from checks import c06
from harness import core, gen
from jax_cfd.base import advection
from jax_cfd.base import diffusion
from jax_cfd.base import equations
from jax_cfd.base import grids
from jax_cfd.base import pressure
from jax_cfd.base import subgrid_models as sgs

P = core.Property('C17')
POOL = {2: [(4, 3), (5, 6), (4, 4)], 3: [(3, 4, 2)]}


# ---- numpy model ------------------------------------------------------------


def fwd(a, ax, h):
  return (np.roll(a, -1, axis=ax) - a) / h


def bwd(a, ax, h):
  return (a - np.roll(a, 1, axis=ax)) / h


def strain(arrs, h):
  d = len(arrs)
  return [[0.5 * (fwd(arrs[i], j, h[j]) + fwd(arrs[j], i, h[i])) for j in range(d)]
          for i in range(d)]


def strain_offset(d, i, j):
  o = [0.5] * d
  if i == j:
    o[i] = 1.5
  else:
    o[i] = o[j] = 1.0
  return tuple(o)


def move(a, src, dst):
  """Periodic linear interpolation between alignments that are 0, 1/2 or 1 apart."""
  for ax, (p, q) in enumerate(zip(src, dst)):
    d = q - p
    lo, hi = int(np.floor(d)), int(np.ceil(d))
    a = (np.roll(a, -lo, axis=ax) + np.roll(a, -hi, axis=ax)) / 2
  return a


def eddy_viscosity(arrs, h, cs):
  d = len(arrs)
  s = strain(arrs, h)
  center = (0.5,) * d
  sq = sum(move(s[i][j], strain_offset(d, i, j), center) ** 2
           for i in range(d) for j in range(d))
  width = np.prod(h) ** (1 / d)
  nu = (cs * width) ** 2 * np.sqrt(2 * sq)
  return [[move(nu, center, strain_offset(d, i, j)) for j in range(d)]
          for i in range(d)]


def stress_divergence(arrs, h, nu):
  d = len(arrs)
  s = strain(arrs, h)
  return [sum(bwd(2 * nu[i][j] * s[i][j], j, h[j]) for j in range(d))
          for i in range(d)]


# ---- cases ------------------------------------------------------------------


@st.composite
def flow(draw, solenoidal=False, steps=(1.0, 0.1, 0.37, 2.0)):
  g = draw(gen.grid((2, 3), POOL, steps=steps))
  d = len(g['shape'])
  c = dict(g=g, fs=[draw(gen.field()) for _ in range(d)],
           mean=[draw(gen.floats(-2, 2)) for _ in range(d)])
  if solenoidal:
    c['psi'] = [draw(gen.field(['noise', 'modes', 'spike', 'step'], amps=(1.0,)))
                for _ in range(max(d, 3))]
  return c


def build(c):
  g = gen.mk_grid(c['g'])
  if 'psi' in c:
    arrs = [np.asarray(a) for a in c06.solenoidal(dict(psi=c['psi'], mean=c['mean']), g)]
    size = max(np.abs(a).max() for a in arrs) + 1e-300
    arrs = [a / size for a in arrs]
  else:
    arrs = [gen.arr(f, g.shape) for f in c['fs']]
  return g, arrs, variables(arrs, g)


def variables(arrs, g):
  return tuple(gen.gvar(a, gen.face_offset(g.ndim, i), g, gen.periodic_bc(g.ndim))
               for i, a in enumerate(arrs))


def tensor_of(arrs, g):
  s = strain(arrs, g.step)
  d = g.ndim
  return grids.GridArrayTensor([[gen.garray(s[i][j], strain_offset(d, i, j), g)
                                 for j in range(d)] for i in range(d)])


def viscosity(arrs, g, cs):
  """Eddy viscosities as seen by a viscosity function inside the model."""
  v = variables(arrs, g)
  nu = sgs.smagorinsky_viscosity(tensor_of(arrs, g), v, cs=cs)
  return [[core.to_np(nu[i, j]) for j in range(g.ndim)] for i in range(g.ndim)]


@P.facet(st.tuples(flow(), gen.floats(0, 0.5), gen.floats(-3, 3)).map(list),
         quick=60, shards=2,
         rule='eddy viscosity against the strain-rate formula; non-negative, '
         'homogeneous, Galilean invariant; non-trivial = non-zero strain')
def eddy(c, ctx):
  c, cs, factor = c
  g, arrs, v = build(c)
  d = g.ndim
  h = g.step
  nu = viscosity(arrs, g, cs)
  want = eddy_viscosity(arrs, h, cs)
  smax = max(np.abs(x).max() for r in strain(arrs, h) for x in r)
  scale = (cs * np.prod(h) ** (1 / d)) ** 2 * smax * d * 2
  for i in range(d):
    for j in range(d):
      ctx.close(nu[i][j], want[i][j], f'viscosity {i}{j}', 1e-11, scale)
      ctx.true((nu[i][j] >= 0).all(), 'viscosity is not negative')
      ctx.close(nu[i][j], nu[j][i], 'symmetric', 1e-12, scale)
  amp = max(np.abs(a).max() for a in arrs)
  shifted = viscosity([a + m for a, m in zip(arrs, c['mean'])], g, cs)
  scaled = viscosity([factor * a for a in arrs], g, cs)
  twice = viscosity(arrs, g, 2 * cs)
  # adding a mean costs rounding relative to the larger velocity
  loss = 1e-12 * (amp + max(np.abs(c['mean']))) / min(h) / (smax + 1e-300)
  for i in range(d):
    for j in range(d):
      ctx.close(shifted[i][j], nu[i][j], 'uniform motion adds nothing', 1e-9 + loss,
                scale)
      ctx.close(scaled[i][j], abs(factor) * nu[i][j], 'scales with the velocity',
                1e-10, scale * max(1, abs(factor)))
      ctx.close(twice[i][j], 4 * nu[i][j], 'scales with the constant squared', 1e-11,
                4 * scale)
  rest = viscosity([np.full(g.shape, m) for m in c['mean']], g, cs)
  for i in range(d):
    for j in range(d):
      ctx.close(rest[i][j], np.zeros(g.shape), 'uniform flow', 1e-12,
                (cs * max(h)) ** 2 * max(np.abs(c['mean'])) / min(h) + 1e-300)
  return smax > 1e-12 and cs > 0


@st.composite
def evm_case(draw):
  c = draw(flow())
  c.update(kind=draw(gen.pick('tensor', 'tensor', 'smagorinsky', 'zero', 'constant')),
           nus=[draw(gen.field(['positive', 'spike', 'const'])) for _ in range(6)],
           nu=draw(gen.floats(0, 2)), cs=draw(gen.floats(0, 0.5)),
           roll=[draw(gen.ints(-2, 2)) for _ in c['g']['shape']])
  return c


def viscosity_fn(c, g, raw):
  d = g.ndim
  if c['kind'] == 'smagorinsky':
    return functools.partial(sgs.smagorinsky_viscosity, cs=c['cs'])
  def fn(s_ij, v):
    out = [jnp.asarray(raw[i][j]) for i in range(d) for j in range(d)]
    return jax.tree_util.tree_unflatten(jax.tree_util.tree_structure(s_ij), out)
  return fn


@P.facet(evm_case(), quick=80, shards=2,
         rule='eddy-viscosity acceleration against the divergence of the stress for '
         'any symmetric viscosities; momentum and energy budgets; non-trivial = '
         'non-zero acceleration')
def stress(c, ctx):
  g, arrs, v = build(c)
  d, h = g.ndim, g.step
  pair = {}
  raw = [[None] * d for _ in range(d)]
  for i in range(d):
    for j in range(d):
      key = (min(i, j), max(i, j))
      if key not in pair:
        pair[key] = np.abs(gen.arr(c['nus'][len(pair)], g.shape))
      raw[i][j] = pair[key]
  if c['kind'] == 'zero':
    raw = [[np.zeros(g.shape)] * d for _ in range(d)]
  elif c['kind'] == 'constant':
    raw = [[np.full(g.shape, c['nu'])] * d for _ in range(d)]
  elif c['kind'] == 'smagorinsky':
    raw = eddy_viscosity(arrs, h, c['cs'])
  want = stress_divergence(arrs, h, raw)
  got = sgs.evm_model(v, viscosity_fn(c, g, raw))
  nmax = max(np.abs(x).max() for r in raw for x in r)
  vmax = max(np.abs(a).max() for a in arrs)
  scale = 8 * d * nmax * vmax / min(h) ** 2
  power = 0.0
  for i in range(d):
    acc = core.to_np(got[i].data)
    ctx.close(acc, want[i], f'acceleration {i}', 1e-11, scale)
    ctx.eq(tuple(got[i].offset), gen.face_offset(d, i), 'offset')
    ctx.true(got[i].grid == g, 'grid')
    ctx.close(acc.sum(), 0.0, 'momentum', 1e-11, scale * acc.size)
    power += float((acc * arrs[i]).sum())
  s = strain(arrs, h)
  loss = -2 * sum((raw[i][j] * s[i][j] ** 2).sum() for i in range(d) for j in range(d))
  ctx.close(power, loss, 'energy budget', 1e-10, scale * vmax * arrs[0].size)
  ax = tuple(range(d))
  if c['kind'] == 'smagorinsky':
    rolled = sgs.evm_model(variables([np.roll(a, c['roll'], ax) for a in arrs], g),
                           viscosity_fn(c, g, raw))
    for i in range(d):
      ctx.close(rolled[i].data, np.roll(core.to_np(got[i].data), c['roll'], ax),
                'translated flow', 1e-10, scale)
  ctx.label(c['kind'])
  return scale > 0 and max(np.abs(w).max() for w in want) > 1e-12


@P.facet(st.tuples(flow(solenoidal=True), gen.floats(0, 2)).map(list), quick=50,
         rule='constant viscosity on solenoidal flow is ordinary diffusion; '
         'non-trivial = non-zero acceleration')
def constant_viscosity(c, ctx):
  c, nu = c
  g, arrs, v = build(c)
  fn = viscosity_fn(dict(kind='constant'), g,
                    [[np.full(g.shape, nu)] * g.ndim] * g.ndim)
  got = sgs.evm_model(v, fn)
  scale = 16 * nu * max(np.abs(a).max() for a in arrs) / min(g.step) ** 2
  for u, acc in zip(v, got):
    ctx.close(acc.data, core.to_np(diffusion.diffuse(u, nu).data), 'Laplacian', 1e-10,
              scale)
  return nu > 0


@st.composite
def solver_case(draw):
  c = draw(flow(solenoidal=True, steps=(1.0, 0.5)))
  c.update(cs=draw(gen.pick(0.0, 0.1, 0.3)), rho=draw(gen.pick(1.0, 1.0, 3.0, 0.5)),
           nu=draw(gen.pick(0.0, 1e-3, 0.05)), dt=draw(gen.pick(0.01, 0.05)),
           force=draw(gen.pick(None, 0.5, -1.0)), steps=draw(gen.ints(1, 3)),
           cgtol=1e-12)
  return c


def linear_force(k):
  return None if k is None else lambda v: tuple(k * u.array for u in v)


@P.facet(solver_case(), quick=20, shards=2,
         rule='explicit solver adds the eddy acceleration to the plain solver, keeps '
         'the flow solenoidal and its momentum; non-trivial = positive constant')
def explicit_solver(c, ctx):
  g, arrs, v = build(c)
  d = g.ndim
  kw = dict(density=c['rho'], viscosity=c['nu'] * c['rho'], dt=c['dt'], grid=g,
            convect=advection.convect_linear)
  step = jax.jit(sgs.explicit_smagorinsky_navier_stokes(
      cs=c['cs'], forcing=linear_force(c['force']), **kw))
  def with_eddies(cs):
    def force(v):
      # density times the acceleration: the solver divides forces by density
      a = sgs.evm_model(v, functools.partial(sgs.smagorinsky_viscosity, cs=cs))
      out = [c['rho'] * x for x in a]
      if c['force'] is not None:
        out = [x + c['force'] * u.array for x, u in zip(out, v)]
      return tuple(out)
    return jax.jit(equations.semi_implicit_navier_stokes(forcing=force, **kw))
  plain = with_eddies(c['cs'])
  w = v
  for _ in range(c['steps']):
    w = step(w)
    v_want = plain(v)
    for a, b in zip(w, v_want):
      ctx.close(a.data, b.data, 'plain solver plus eddy acceleration', 1e-9, 2.0)
      ctx.true(a.bc == b.bc and a.offset == b.offset, 'alignment')
    v = w
    out = [core.to_np(u.data) for u in w]
    div = sum(bwd(a, i, g.step[i]) for i, a in enumerate(out))
    ctx.close(div, np.zeros(g.shape), 'divergence', 1e-9, 2 / min(g.step))
  growth = (1 + c['dt'] * (c['force'] or 0.0) / c['rho']) ** c['steps']
  for a, b in zip(arrs, out):
    ctx.close(b.mean(), growth * a.mean(), 'momentum', 1e-10, 2.0)
  if c['cs'] == 0:
    base = jax.jit(equations.semi_implicit_navier_stokes(
        forcing=linear_force(c['force']), **kw))
    u = variables(arrs, g)
    for _ in range(c['steps']):
      u = base(u)
    for a, b in zip(u, w):
      ctx.close(b.data, a.data, 'constant zero is the plain solver', 1e-9, 2.0)
  return c['cs'] > 0


@P.facet(solver_case(), quick=10, thorough=80, shards=2,
         rule='implicit subgrid solve: first-order consistent with the explicit '
         'model, conserves momentum, plain implicit diffusion when the constant is '
         'zero; non-trivial = positive constant')
def implicit_solver(c, ctx):
  g, arrs, v = build(c)
  d = g.ndim
  nu, dt = c['nu'], c['dt']
  model = functools.partial(sgs.evm_model, viscosity_fn=functools.partial(
      sgs.smagorinsky_viscosity, cs=c['cs']))
  solve = lambda dt: [core.to_np(u.data) for u in sgs.implicit_evm_solve_with_diffusion(
      v, nu, dt, model, dict(tol=c['cgtol'], atol=1e-13))]
  got = solve(dt)
  for a, b in zip(arrs, got):
    ctx.close(b.mean(), a.mean(), 'momentum', 1e-9, 2.0)
  if c['cs'] == 0:
    for want, b in zip(diffusion.solve_fast_diag(v, nu, dt), got):
      ctx.close(b, want.data, 'plain implicit diffusion', 1e-8, 2.0)
  # du/dt at dt -> 0 is the explicit tendency
  h = g.step
  tend = stress_divergence(arrs, h, eddy_viscosity(arrs, h, c['cs']))
  size = 0.0
  for i, a in enumerate(arrs):
    lap = sum(bwd(fwd(a, ax, h[ax]), ax, h[ax]) for ax in range(d))
    tend[i] = tend[i] + nu * lap
    size = max(size, np.abs(tend[i]).max())
  if size > 1e-6:
    rate = (nu + (c['cs'] * max(h)) ** 2 * 4 * d / min(h)) * 16 * d / min(h) ** 2
    eps = 1e-5 / (rate + 1)
    small = solve(eps)
    for i, a in enumerate(arrs):
      ctx.close((small[i] - a) / eps, tend[i], 'initial tendency', 1e-2, size)
  # a whole step with the implicit solver
  kw = dict(density=c['rho'], viscosity=nu * c['rho'], dt=dt, grid=g,
            convect=advection.convect_linear, forcing=linear_force(c['force']))
  w = jax.jit(sgs.implicit_smagorinsky_navier_stokes(cs=c['cs'], **kw))(v)
  growth = 1 + dt * (c['force'] or 0.0) / c['rho']
  for a, b in zip(arrs, w):
    ctx.close(core.to_np(b.data).mean(), growth * a.mean(), 'momentum of a step', 1e-5,
              2.0)
  if c['cs'] == 0:
    u = jax.jit(equations.implicit_diffusion_navier_stokes(**kw))(v)
    for a, b in zip(u, w):
      ctx.close(b.data, a.data, 'step with zero constant', 1e-5, 2.0)
  return c['cs'] > 0


@P.facet(gen.dct(n=gen.ints(2, 5), which=gen.ints(0, 2)), quick=20,
         rule='walls are refused by all subgrid models; all non-trivial')
def refusals(c, ctx):
  from jax_cfd.base import boundaries
  g = grids.Grid((c['n'] + 1, c['n']), step=1.0)
  bc = (boundaries.dirichlet_boundary_conditions(2),
        boundaries.channel_flow_boundary_conditions(2),
        boundaries.neumann_boundary_conditions(2))[c['which']]
  v = tuple(gen.gvar(np.ones(g.shape), gen.face_offset(2, i), g, bc) for i in range(2))
  fn = functools.partial(sgs.smagorinsky_viscosity, cs=0.1)
  ctx.raises(ValueError, lambda: sgs.evm_model(v, fn), 'eddy model with walls')
  ctx.raises(ValueError, lambda: sgs.smagorinsky_viscosity(
      tensor_of([np.ones(g.shape)] * 2, g), v), 'viscosity with walls')
  ctx.raises(ValueError, lambda: sgs.implicit_evm_solve_with_diffusion(
      v, 0.1, 0.1, functools.partial(sgs.evm_model, viscosity_fn=fn)),
             'implicit solve with walls')
  return True
