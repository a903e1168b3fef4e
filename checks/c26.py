"""C26: modular and learned components around the solver."""
import functools

import haiku as hk
import hypothesis.strategies as st
import jax
import jax.numpy as jnp
import numpy as np

from checks import c17
from checks.c24 import run
from harness import core, gen
from jax_cfd import spectral
from jax_cfd.base import advection
from jax_cfd.base import diffusion
from jax_cfd.base import equations as base_equations
from jax_cfd.base import forcings as base_forcings
from jax_cfd.base import grids
from jax_cfd.base import interpolation
from jax_cfd.base import pressure
from jax_cfd.base import time_stepping
from jax_cfd.ml import advections
from jax_cfd.ml import diffusions
from jax_cfd.ml import equations
from jax_cfd.ml import forcings
from jax_cfd.ml import interpolations
from jax_cfd.ml import networks
from jax_cfd.ml import physics_specifications as specs
from jax_cfd.ml import pressures
from jax_cfd.ml import time_integrators
from jax_cfd.ml import towers
from jax_cfd.ml import viscosities
from jax_cfd.spectral import utils as spectral_utils

P = core.Property('C26')

C_INTERP = {
    'upwind': (interpolations.upwind, interpolation.upwind),
    'linear': (interpolations.linear, interpolation.linear),
    'lax_wendroff': (interpolations.lax_wendroff, interpolation.lax_wendroff),
    'limited': (interpolations.transformed, interpolation.apply_tvd_limiter(
        interpolation.lax_wendroff, interpolation.van_leer_limiter)),
    'limited_upwind': (
        functools.partial(interpolations.transformed,
                          base_interpolation_module=interpolations.linear),
        interpolation.apply_tvd_limiter(interpolation.linear,
                                        interpolation.van_leer_limiter)),
}


def velocity(arrs, g):
  return c17.variables(arrs, g)


def npv(v):
  return [core.to_np(u) for u in v]


def divergence(arrs, g):
  return sum((a - np.roll(a, 1, axis=i)) / g.step[i] for i, a in enumerate(arrs))


def pure(make, *args):
  f = hk.without_apply_rng(hk.transform(make))
  return f.apply({}, *args)


def forcing_pair(kind, amp, k, lin):
  """A forcing module and the base forcing it stands for."""
  if kind == 'none':
    return forcings.no_forcing, base_forcings.no_forcing
  if kind == 'linear':
    return (functools.partial(forcings.linear_forcing, scale=amp),
            lambda g: base_forcings.linear_forcing(g, amp))
  if kind == 'filtered':
    return (functools.partial(forcings.filtered_linear_forcing, scale=amp,
                              lower_wavenumber=0, upper_wavenumber=k),
            lambda g: base_forcings.filtered_linear_forcing(0, k, amp, g))
  if kind == 'taylor_green':
    mod = functools.partial(forcings.taylor_green_forcing, scale=amp, wavenumber=k,
                            linear_coefficient=lin)
    base = lambda g: base_forcings.taylor_green_forcing(g, amp, k)
  else:
    swap = kind == 'kolmogorov_swapped'
    mod = functools.partial(forcings.kolmogorov_forcing, scale=amp, wavenumber=k,
                            linear_coefficient=lin, swap_xy=swap)
    base = lambda g: base_forcings.kolmogorov_forcing(g, amp, k, swap)

  def total(g):
    parts = [base(g)] + ([base_forcings.linear_forcing(g, lin)] if lin else [])
    return lambda v: tuple(sum(x[1:], x[0]) for x in zip(*[p(v) for p in parts]))
  return mod, total


FORCES = ('none', 'linear', 'filtered', 'taylor_green', 'kolmogorov', 'kolmogorov_swapped')


@st.composite
def step_case(draw):
  flow = draw(c17.flow(solenoidal=draw(st.booleans())))
  return dict(flow=flow, solver=draw(gen.pick('implicit', 'explicit', 'explicit')),
              c=draw(st.sampled_from(sorted(C_INTERP))), cg=draw(gen.pick(False, False, True)),
              force=draw(gen.pick(*FORCES)), amp=draw(gen.pick(0.5, -1.0)),
              k=draw(gen.ints(1, 3)), lin=draw(gen.pick(0.0, -0.3)),
              rho=draw(gen.pick(1.0, 1.0, 2.5, 0.4)), nu=draw(gen.pick(0.0, 0.01, 0.3)),
              dt=draw(gen.pick(0.01, 0.1)), rk=draw(gen.ints(0, 2)), steps=draw(gen.ints(1, 2)),
              default=draw(st.booleans()))


STEPPERS = [time_stepping.forward_euler, time_stepping.midpoint_rk2, time_stepping.heun_rk2]


@P.facet(step_case(), quick=40, shards=2,
         rule='modular model of standard components against the base solver; '
         'non-trivial = velocity not uniform')
def standard(c, ctx):
  g, arrs, _ = c17.build(c['flow'])
  size = max(np.abs(a).max() for a in arrs) or 1.0
  h = min(g.step)
  arrs = [a / size * h for a in arrs]  # unit steps move less than a cell
  v = velocity(arrs, g)
  dt, nu, rho = c['dt'], c['nu'] * h * h, c['rho']
  module, force = forcing_pair(c['force'], c['amp'] * h, c['k'], c['lin'])
  ps = specs.NavierStokesPhysicsSpecs(forcing_module=module, density=rho, viscosity=nu)
  c_mod, c_base = C_INTERP[c['c']]
  kw, base_kw = {}, {}
  if c['cg']:
    kw['pressure_module'] = functools.partial(pressures.conjugate_gradient, atol=1e-13,
                                              maxiter=300)
    base_kw['pressure_solve'] = functools.partial(pressure.solve_cg, atol=1e-13,
                                                  maxiter=300)
  if c['solver'] == 'implicit':
    diff = c['rk']
    mods = [dict(), dict(diffusion_module=functools.partial(
        diffusions.solve_fast_diag, implementation='matmul')),
            dict(diffusion_module=functools.partial(diffusions.solve_cg, atol=1e-14,
                                                    rtol=1e-13, maxiter=500))]
    if c['rk'] or not c['default']:
      kw['equation_solver'] = functools.partial(
          equations.implicit_diffusion_navier_stokes, **mods[diff])
    base = functools.partial(base_equations.implicit_diffusion_navier_stokes,
                             diffusion_solve=diffusion.solve_fast_diag)
  else:
    stepper = STEPPERS[c['rk']]
    kw['equation_solver'] = functools.partial(equations.semi_implicit_navier_stokes,
                                              time_stepper=stepper)
    base = functools.partial(base_equations.semi_implicit_navier_stokes,
                             time_stepper=stepper)
  if c['c'] != 'upwind' or not c['default']:
    kw['convection_module'] = functools.partial(
        advections.self_advection, advection_module=functools.partial(
            advections.modular_advection, c_interpolation_module=c_mod))
  convect = lambda v: tuple(
      advection.advect_general(u, v, interpolation.linear, c_base, dt) for u in v)
  reference = base(density=rho, viscosity=nu, dt=dt, grid=g, convect=convect,
                   forcing=force(g), **base_kw)
  want = got = v
  for _ in range(c['steps']):
    want = reference(want)
    got = pure(lambda x: equations.modular_navier_stokes_model(g, dt, ps, **kw)(x), got)
  ctx.label(f"{c['solver']} {c['c']} {c['force']} cg={c['cg']}")
  iterative = c['cg'] or (c['solver'] == 'implicit' and c['rk'] == 2)
  for a, b, u in zip(got, want, v):
    ctx.eq((a.offset, a.grid, a.bc), (u.offset, u.grid, u.bc), 'metadata')
    ctx.close(a, b, 'model against base solver', 1e-5 if iterative else 1e-11, h)
  if c['solver'] == 'explicit':
    ctx.close(divergence(npv(got), g), np.zeros(g.shape), 'divergence',
              1e-5 if c['cg'] else 1e-10, 10.0)
  ctx.raises(ValueError, lambda: pure(
      lambda x: equations.modular_navier_stokes_model(g, dt, ps)(x),
      tuple(u.array for u in v)), 'state without boundary conditions')
  return any(gen.nonconstant(a) for a in arrs)


def closed_tower(seed, scale=1.0):
  """A pointwise network with known weights."""
  def factory(n, ndim, **kw):
    del kw, ndim

    def net(x):
      w = np.random.default_rng([seed, x.shape[-1], n]).standard_normal((x.shape[-1], n))
      return scale * jnp.tanh(x @ w)
    return net
  return factory


def closed_net(seed, x, n, scale=1.0):
  w = np.random.default_rng([seed, x.shape[-1], n]).standard_normal((x.shape[-1], n))
  return scale * np.tanh(x @ w)


@P.facet(gen.dct(flow=c17.flow(), seed=gen.seeds(), scale=gen.pick(0.0, 0.1, 2.0),
                 kind=gen.pick('smagorinsky', 'scalar', 'gradients', 'tensor'),
                 cs=gen.pick(0.2, 0.0, 0.1), over=st.booleans()), quick=60,
         rule='eddy viscosity modules against formulas and conservation; non-trivial '
         '= non-zero strain')
def viscosity(c, ctx):
  g, arrs, v = c17.build(c['flow'])
  d, h = g.ndim, g.step
  s = c17.strain(arrs, h)
  factory = closed_tower(c['seed'])
  nu0 = c['scale']
  ps = specs.NavierStokesPhysicsSpecs(forcings.no_forcing, 1.0, nu0)
  if c['kind'] == 'smagorinsky':
    module = functools.partial(viscosities.smagorinsky_viscosity, cs=c['cs'])
    want = c17.eddy_viscosity(arrs, h, c['cs'])
  else:
    offs = [[c17.strain_offset(d, i, j) for j in range(d)] for i in range(d)]
    cls = dict(scalar=viscosities.learned_scalar_viscosity, tensor=viscosities.learned_tensor_viscosity,
               gradients=viscosities.learned_scalar_viscosity_from_gradients)[c['kind']]
    module = functools.partial(cls, tower_factory=factory)
    center = (0.5,) * d
    if c['kind'] == 'gradients':
      x = np.stack([c17.move(s[i][j], offs[i][j], center) for i in range(d)
                    for j in range(d)], -1)
    else:
      x = np.stack(arrs, -1)
    if c['kind'] == 'tensor':
      n = len({o for row in offs for o in row})
      channels = (nu0 + 1e-6) * closed_net(c['seed'], x, n)
      want = None
    else:
      nu = (nu0 + 1e-6) * closed_net(c['seed'], x, 1)[..., 0]
      want = [[c17.move(nu, center, offs[i][j]) for j in range(d)] for i in range(d)]
  tensor = c17.tensor_of(arrs, g)
  got = pure(lambda t: module(g, 0.1, ps, viscosity_scale=nu0)(t, v), tensor)
  got = [[core.to_np(got[i, j]) for j in range(d)] for i in range(d)]
  if want is None:
    used = []
    for i in range(d):
      for j in range(d):
        hits = [k for k in range(channels.shape[-1])
                if np.allclose(got[i][j], channels[..., k], rtol=1e-9, atol=1e-14)]
        ctx.true(hits, 'every stress uses one channel of the network')
        used.append((offs[i][j], hits))
        ctx.close(got[i][j], got[j][i], 'symmetric', 0.0)
    if c['flow']['fs'][0]['kind'] == 'noise':
      ctx.eq(len({tuple(k) for _, k in used}), len({o for o, _ in used}),
             'one channel per alignment')
    want = got
  else:
    top = max(np.abs(w).max() for row in want for w in row)
    for i in range(d):
      for j in range(d):
        ctx.close(got[i][j], want[i][j], f'viscosity {i}{j}', 1e-10, top)
  over = dict(viscosity_scale=nu0) if c['over'] else {}
  if c['over']:
    ps = specs.NavierStokesPhysicsSpecs(forcings.no_forcing, 1.0, 7.0)
  acc = pure(lambda v: viscosities.eddy_viscosity_model(
      g, 0.1, ps, viscosity_model=module, **over)(v), v)
  ref = c17.stress_divergence(arrs, h, want)
  top = max(np.abs(r).max() for r in ref)
  stress = max(np.abs(want[i][j] * s[i][j]).max() for i in range(d) for j in range(d))
  for i, (a, r, u) in enumerate(zip(acc, ref, v)):
    ctx.eq((a.offset, a.grid), (u.offset, u.grid), 'acceleration metadata')
    ctx.close(a, r, 'acceleration', 1e-10, top + stress / min(h))
    ctx.le(abs(core.to_np(a).sum()), 1e-10 * (stress / min(h)) * a.data.size, 'momentum')
  return max(np.abs(x).max() for row in s for x in row) > 0


@P.facet(gen.dct(flow=c17.flow(solenoidal=True), seed=gen.seeds(), rho=gen.pick(1.0, 3.0),
                 kind=gen.pick('acceleration', 'implicit', 'learned', 'learned_self'),
                 interp=gen.pick('fused', 'individual'), force=gen.pick('none', 'kolmogorov')),
         quick=26, shards=2,
         rule='steps with learned interpolation or closure; non-trivial = velocity '
         'not uniform')
def learned_step(c, ctx):
  g, arrs, _ = c17.build(c['flow'])
  h = min(g.step)
  arrs = [a * h for a in arrs]
  v = velocity(arrs, g)
  dt, nu = 0.1, 0.05 * h * h
  module, force = forcing_pair(c['force'], 0.3 * h, 2, 0.0)
  ps = specs.NavierStokesPhysicsSpecs(module, c['rho'], nu)
  factory = closed_tower(c['seed'], 1.0)
  evm = functools.partial(
      viscosities.eddy_viscosity_model, viscosity_model=functools.partial(
          viscosities.learned_scalar_viscosity, tower_factory=factory))
  kw = dict(equation_solver=equations.semi_implicit_navier_stokes)
  momentum = True
  ctx.label(c['kind'])
  if c['kind'] == 'acceleration':
    kw['acceleration_modules'] = (evm,) * (1 + c['seed'] % 2)
  elif c['kind'] == 'implicit':
    momentum = False
    kw['equation_solver'] = functools.partial(
        equations.implicit_diffusion_navier_stokes, diffusion_module=functools.partial(
            diffusions.implicit_evm_solve_with_diffusion, viscosity_module=evm,
            atol=1e-12, maxiter=200))
  else:
    small = functools.partial(towers.forward_tower_factory, num_hidden_channels=3,
                              num_hidden_layers=1, kernel_size=2)
    if g.ndim == 3 or min(g.shape) < 4:
      factory2 = closed_tower(c['seed'])
    else:
      factory2 = small
    if c['kind'] == 'learned_self':
      adv = functools.partial(
          advections.modular_self_advection, interpolation_module=functools.partial(
              interpolations.FusedLearnedInterpolation, tags=('u', 'c'), stencil_size=2,
              tower_factory=factory2))
    else:
      cls = (interpolations.FusedLearnedInterpolation if c['interp'] == 'fused'
             else interpolations.IndividualLearnedInterpolation)
      adv = functools.partial(
          advections.modular_advection, c_interpolation_module=functools.partial(
              cls, stencil_size=2, tower_factory=factory2))
    kw['convection_module'] = functools.partial(advections.self_advection,
                                                advection_module=adv)
    if g.step != (g.step[0],) * g.ndim:
      raise core.Discard('learned interpolation needs equal steps')
  fn = lambda x: equations.modular_navier_stokes_model(g, dt, ps, **kw)(x)
  apply, params = run(fn, v, c['seed'], 0.3)
  out = apply(params, v)
  got = npv(out)
  for a, u in zip(out, v):
    ctx.eq((a.offset, a.grid, a.bc), (u.offset, u.grid, u.bc), 'metadata')
    ctx.finite(a, 'values')
  size = max(np.abs(a).max() for a in got) + h
  if c['kind'] != 'implicit':
    ctx.close(divergence(got, g), np.zeros(g.shape), 'divergence', 1e-9, size / h)
  f = npv(force(g)(v))
  for a, b, q in zip(got, arrs, f):
    if momentum:
      ctx.le(abs(a.sum() - b.sum() - dt / c['rho'] * q.sum()), 1e-9 * size * a.size,
             'momentum')
  if c['kind'] == 'acceleration':
    n = len(kw['acceleration_modules'])
    acc = pure(lambda v: evm(g, dt, ps)(v), v)
    conv = lambda v: tuple(advection.advect_general(
        u, v, interpolation.linear, interpolation.upwind, dt) for u in v)
    total = lambda v: tuple(x + n * c['rho'] * a for x, a in zip(force(g)(v), acc))
    want = base_equations.semi_implicit_navier_stokes(
        c['rho'], nu, dt, g, convect=conv, forcing=total)(v)
    for a, b in zip(out, want):
      ctx.close(a, b, 'step with accelerations', 1e-10, size)
  return any(gen.nonconstant(a) for a in arrs)


@st.composite
def corrector_case(draw):
  return dict(flow=draw(c17.flow()), seed=draw(gen.seeds()), which=draw(gen.ints(1, 3)),
              kind=draw(gen.pick('velocity', 'flux', 'neighbors')), dt=draw(gen.pick(0.1, 0.5)),
              conv=draw(st.booleans()), n=draw(gen.ints(1, 2)))


@P.facet(corrector_case(), quick=60,
         rule='corrected solvers and correction networks; non-trivial = correction '
         'not zero')
def correctors(c, ctx):
  g, arrs, v = c17.build(c['flow'])
  d, dt = g.ndim, c['dt']
  conv = c['conv'] and d == 2 and min(g.shape) > 3
  factory = (functools.partial(towers.forward_tower_factory, num_hidden_channels=3,
                               num_hidden_layers=1) if conv else closed_tower(c['seed']))
  ps = specs.NavierStokesPhysicsSpecs(forcings.no_forcing, 1.0, 0.1)
  pre = networks.stack_aligned_field
  if c['kind'] == 'neighbors':
    pre = functools.partial(networks.stack_aligned_field_with_neighbors, n_neighbors=c['n'])
  if c['kind'] == 'velocity':
    net = functools.partial(networks.velocity_corrector_network, tower_factory=factory)
  else:
    net = functools.partial(networks.flux_corrector_network, tower_factory=factory,
                            pre_process_module=pre)
  base = lambda grid, dt, ps: (lambda s: jax.tree.map(lambda x: 0.5 * x + 1.0, s))
  cls = {1: equations.learned_corrector, 2: equations.learned_corrector_v2,
         3: equations.learned_corrector_v3}[c['which']]
  fn = lambda s: cls(g, dt, ps, base, net)(s)
  apply, params = run(fn, v, c['seed'], 0.3)
  out = apply(params, v)
  for a, u in zip(out, v):
    ctx.eq((a.offset, a.grid, a.bc, a.shape), (u.offset, u.grid, u.bc, u.shape), 'metadata')
  nxt = [0.5 * a + 1.0 for a in arrs]
  got = npv(out)
  factor = 1.0 if c['which'] == 1 else dt
  corr = [(a - b) / factor for a, b in zip(got, nxt)]
  scale = max(np.abs(a).max() for a in got) / factor + 1
  seen = {1: nxt, 2: arrs, 3: arrs + nxt}[c['which']]
  x = np.stack(seen, -1)
  if c['kind'] == 'neighbors':
    # rolled copies, then the field itself
    shifts = [k for k in range(-c['n'], c['n'] + 1) if k]
    x = np.concatenate([np.roll(x, k, ax) for k in shifts for ax in range(d)] + [x], -1)
  if not conv:
    if c['kind'] == 'velocity':
      y = closed_net(c['seed'], x, d)
      want = [y[..., i] for i in range(d)]
    else:
      y = closed_net(c['seed'], x, d * d)
      want = [-sum(c17.bwd(y[..., i * d + j], j, g.step[j]) for j in range(d))
              for i in range(d)]
    for a, b in zip(corr, want):
      ctx.close(a, b, 'correction', 1e-9, scale + 1 / min(g.step))
  if c['kind'] != 'velocity':
    for a, b in zip(corr, nxt):
      ctx.le(abs(a.sum()), 1e-10 * a.size * (scale + np.abs(a).max()), 'conserved total')
  ctx.label(f"{c['kind']} v{c['which']}")
  return max(np.abs(a).max() for a in corr) > 0


@st.composite
def layout_case(draw):
  g = draw(gen.grid((2, 3), c17.POOL))
  d = len(g['shape'])
  return dict(g=g, f=draw(gen.field(['noise', 'ints'])), n=draw(gen.ints(1, 3)),
              net=[[draw(gen.pick(0.5, 1.0, 0.0, 1.5)) for _ in range(d)] for _ in range(d)],
              data=[[draw(gen.pick(0.5, 1.0, 0.0)) for _ in range(d)] for _ in range(d)],
              own=draw(st.booleans()), bc=draw(gen.bc(d, ('periodic', 'dirichlet', 'neumann'))))


class Combined(specs.BasePhysicsSpecs):
  """Physics with its own alignments and boundary conditions."""

  def __init__(self, offsets, bcs):
    super().__init__(None)
    self._offsets, self._bcs = offsets, bcs

  def combo_offsets(self):
    return self._offsets

  def combo_boundaries(self):
    return self._bcs


@P.facet(layout_case(), quick=80,
         rule='splitting, stacking and moving aligned fields; non-trivial = network '
         'and data alignments differ')
def fields(c, ctx):
  g = gen.mk_grid(c['g'])
  d = g.ndim
  x = gen.arr(c['f'], tuple(g.shape) + (d,))
  net = [tuple(o) for o in c['net']]
  data = [tuple(o) for o in c['data']]
  if c['own']:
    ps = Combined(tuple(data), (gen.periodic_bc(d),) * d)
  else:
    ps, data = specs.BasePhysicsSpecs(None), list(g.cell_faces)
  scale = np.abs(x).max()
  out = pure(lambda a: networks.split_to_aligned_field(g, 0.1, ps)(a), x)
  for i, u in enumerate(out):
    ctx.eq((u.offset, u.grid, u.bc), (tuple(data[i]), g, gen.periodic_bc(d)), 'metadata')
    ctx.close(u, x[..., i], 'split component', 0.0)
  back = pure(lambda v: networks.stack_aligned_field(g, 0.1, ps)(v), out)
  ctx.close(back, x, 'stacked again', 0.0)
  near = pure(lambda v: networks.stack_aligned_field_with_neighbors(
      g, 0.1, ps, n_neighbors=c['n'])(v), out)
  want = [np.roll(x, k, ax) for k in range(-c['n'], c['n'] + 1) if k for ax in range(d)]
  ctx.close(near, np.concatenate(want + [x], -1), 'neighbours', 0.0)
  moved = pure(lambda a: networks.split_to_aligned_field(
      g, 0.1, ps, network_offsets=tuple(net))(a), x)
  there = pure(lambda v: networks.interpolate_gridvar(
      g, 0.1, ps, final_offsets=tuple(net))(v), out)
  home = pure(lambda v: networks.interpolate_gridvar(
      g, 0.1, ps, process_fn=lambda v: tuple(v[::-1]))(v), out)
  for i in range(d):
    ctx.eq((moved[i].offset, there[i].offset, home[i].offset),
           (tuple(data[i]), net[i], tuple(data[i])), 'final offsets')
    ctx.close(moved[i], any_move(x[..., i], net[i], data[i]), 'from network offsets',
              1e-13, scale)
    ctx.close(there[i], any_move(x[..., i], data[i], net[i]), 'to network offsets',
              1e-13, scale)
    ctx.close(home[i], any_move(x[..., d - 1 - i], data[d - 1 - i], data[i]), 'processed',
              1e-13, scale)
  y = gen.arr(c['f'], tuple(g.shape) + (d * d,))
  flux = pure(lambda a: networks.aligned_field_from_split_divergence(g, 0.1, ps)(a), y)
  for i, u in enumerate(flux):
    want = -sum(c17.bwd(y[..., i * d + j], j, g.step[j]) for j in range(d))
    ctx.eq((u.offset, u.grid, u.bc), (g.cell_faces[i], g, gen.periodic_bc(d)),
           'divergence metadata')
    ctx.close(u, want, 'divergence of fluxes', 1e-12, np.abs(y).max() / min(g.step))
  return c['net'] != c['data']


def any_move(a, src, dst):
  """Periodic linear interpolation between any alignments."""
  for ax, (p, q) in enumerate(zip(src, dst)):
    lo = int(np.floor(q - p))
    w = q - p - lo
    a = (1 - w) * np.roll(a, -lo, axis=ax) + w * np.roll(a, -lo - 1, axis=ax)
  return a


@P.facet(gen.dct(f=gen.field(['noise', 'ints']), seed=gen.seeds(),
                 bc=gen.bc(2, ('dirichlet', 'neumann', 'periodic')),
                 g=gen.grid((2,), {2: [(5, 6), (6, 5)]}), mirror=st.booleans(),
                 center=st.booleans()), quick=40,
         rule='velocity corrections between walls; non-trivial = some wall')
def walls(c, ctx):
  g = gen.mk_grid(c['g'])
  bcs = gen.mk_bc(c['bc'])
  data = []
  variables = []
  offsets = []
  for i, f in enumerate(g.cell_faces):
    off = tuple(0.5 if 'neumann' in t else o for t, o in zip(c['bc']['types'], f))
    a = gen.var_data(dict(f=dict(c['f'], seed=c['f']['seed'] + i), g=c['g'], bc=c['bc'],
                          off=off))
    offsets.append(off)
    data.append(a)
    variables.append(gen.gvar(a, off, g, bcs))
  ps = Combined(tuple(offsets), (bcs, bcs))
  at = ((0.5, 0.5), (0.5, 0.5)) if c['center'] else tuple(offsets)
  if c['mirror']:
    factory = functools.partial(towers.forward_flex_tower_factory, channels=(2,),
                                kernel_shapes=((3, 3),), rates=(1,), strides=(1,),
                                conv_module=towers.mirror_convolution,
                                nonlinearity=lambda v: v)
  else:
    factory = lambda n, ndim: (lambda v: tuple(
        grids.GridVariable(2.0 * u.array, u.bc) for u in v))
  fn = lambda v: networks.velocity_corrector_network_w_boundaries(
      g, 0.1, ps, factory, at, 2)(v)
  apply, params = run(fn, tuple(variables), c['seed'], 0.3)
  out = apply(params, tuple(variables))
  for u, v in zip(out, variables):
    ctx.eq((u.offset, u.grid, u.bc, u.shape), (v.offset, v.grid, v.bc, v.shape), 'metadata')
    ctx.finite(u, 'values')
  if not c['mirror']:
    for v, u, o in zip(variables, out, at):
      mid = interpolation.linear(v, o)
      want = interpolation.linear(grids.GridVariable(2.0 * mid.array, v.bc), v.offset)
      ctx.close(u, want, 'interpolated, processed, interpolated back', 1e-13)
  return any(t[0] != 'periodic' for t in c['bc']['types'])


@P.facet(gen.dct(flow=c17.flow(), seed=gen.seeds(), force=gen.pick(*FORCES),
                 amp=gen.pick(0.5, -1.0), k=gen.ints(1, 3), lin=gen.pick(0.0, -0.3),
                 n=gen.ints(0, 2), dt=gen.pick(0.1, 0.5), steps=gen.ints(1, 4)), quick=50,
         rule='time-derivative networks, forcing modules and Euler integration; '
         'non-trivial = non-zero result')
def derivative_model(c, ctx):
  g, arrs, v = c17.build(c['flow'])
  d, dt = g.ndim, c['dt']
  module, force = forcing_pair(c['force'], c['amp'], c['k'], c['lin'])
  got = module(g)(v)
  want = force(g)(v)
  for a, b in zip(got, want):
    ctx.eq((a.offset, a.grid), (b.offset, b.grid), 'forcing metadata')
    ctx.close(a, b, f"forcing {c['force']}", 1e-12, max(1.0, np.abs(core.to_np(b)).max()))
  ps = specs.NavierStokesPhysicsSpecs(module, 1.0, 0.1)
  summed = forcings.sum_forcings(force(g), force(g), base_forcings.linear_forcing(g, 2.0))(v)
  for a, b, u in zip(summed, want, arrs):
    ctx.close(a, 2 * core.to_np(b) + 2 * u, 'sum of forcings', 1e-12)
  x = np.stack(arrs, -1)
  width = [d] + [3] * c['n']
  mods = []
  for i in range(c['n'] + 1):
    out = d if i == c['n'] else 3
    mods.append(functools.partial(networks.tower_module,
                                  tower_factory=closed_tower(c['seed'] + i),
                                  num_output_channels=None if out == width[i] else out,
                                  pre_process_module=lambda g, dt, ps: (lambda z: z * 0.5),
                                  post_process_module=lambda g, dt, ps: (lambda z: z + 1)))
  step = pure(lambda s: equations.time_derivative_network_model(g, dt, ps, tuple(mods))(s), x)
  y = x
  for i in range(c['n'] + 1):
    out = d if i == c['n'] else 3
    y = closed_net(c['seed'] + i, y * 0.5, out) + 1
  f = np.stack([core.to_np(b) for b in want], -1)
  ctx.close(step, x + dt * (y + f), 'Euler step of the network', 1e-11,
            np.abs(x).max() + np.abs(f).max() + 1)
  # integration of a nested state
  state = dict(a=jnp.asarray(x), b=jnp.asarray(arrs[0]))
  rhs = lambda s: dict(a=-s['a'] * 0.5, b=jnp.tanh(s['b']))
  final, path = pure(lambda s: time_integrators.euler_integrator(rhs, s, dt, c['steps']), state)
  a, b = x, arrs[0]
  for i in range(c['steps']):
    a, b = a - 0.5 * dt * a, b + dt * np.tanh(b)
    ctx.close(path['a'][i], a, 'Euler path', 1e-12, np.abs(x).max())
    ctx.close(path['b'][i], b, 'Euler path', 1e-12, np.abs(b).max())
  ctx.close(final['a'], a, 'Euler end', 1e-12, np.abs(x).max())
  same = equations.identity_model(g, dt, ps)(state)
  ctx.true(same is state, 'identity model')
  return np.abs(y + f).max() > 0


@P.facet(gen.dct(n=gen.pick(8, 6), seed=gen.seeds(), nu=gen.pick(1e-3, 0.1),
                 drag=gen.pick(0.0, 0.1), smooth=st.booleans(), filt=st.booleans(),
                 force=gen.pick('none', 'kolmogorov'), dt=gen.pick(0.01, 0.1),
                 length=gen.pick(2 * np.pi, 1.0), amp=gen.pick(0.5, 2.0), k=gen.ints(1, 2),
                 lin=gen.pick(0.0, -0.2)), quick=24,
         rule='spectral model and vorticity-space forcing; non-trivial = non-zero '
         'vorticity')
def spectral_model(c, ctx):
  n = c['n']
  g = grids.Grid((n, n), domain=((0, c['length']),) * 2)
  rng = np.random.default_rng(c['seed'])
  w = rng.standard_normal((n, n))
  w -= w.mean()
  what = jnp.fft.rfft2(jnp.asarray(w))
  module = None if c['force'] == 'none' else forcings.spectral_kolmogorov_forcing
  ps = specs.SpectralNavierStokesPhysicsSpecs(module, c['nu'], c['drag'], c['smooth'])
  steppers = [spectral.time_stepping.crank_nicolson_rk4, spectral.time_stepping.crank_nicolson_rk2]
  i = c['seed'] % 2
  kw = {} if i == 0 else dict(time_stepper=steppers[1])
  got = pure(lambda x: equations.modular_spectral_step_fn(
      g, c['dt'], ps, do_filter_step=c['filt'], **kw)(x), what)
  force = None if module is None else (lambda g: base_forcings.kolmogorov_forcing(
      g, 1.0, 4, False, ((0.0, 0.0), (0.0, 0.0))))
  eq = spectral.equations.NavierStokes2D(c['nu'], g, drag=c['drag'], smooth=c['smooth'],
                                         forcing_fn=force)
  want = steppers[i](eq, c['dt'])(what)
  if c['filt']:
    want = jnp.fft.rfft2(spectral_utils.exponential_filter(jnp.fft.irfft2(want)))
  ctx.close(got, want, 'spectral step', 1e-10, np.abs(what).max() + 1)
  # forcing of the vorticity is the curl of the force
  make = functools.partial(forcings.kolmogorov_forcing, scale=c['amp'], wavenumber=c['k'],
                           linear_coefficient=c['lin'])
  f = core.to_np(forcings.vorticity_space_forcing(g, make)(jnp.asarray(w[..., None])))
  kx = 2 * np.pi / c['length'] * np.fft.fftfreq(n, 1 / n)[:, None]
  ky = 2 * np.pi / c['length'] * np.fft.rfftfreq(n, 1 / n)[None, :]
  wn = 2 * np.pi / c['length']
  y = (np.arange(n) * c['length'] / n)[None, :] * np.ones((n, 1))
  fx = c['amp'] * np.sin(c['k'] * y)
  lap = kx ** 2 + ky ** 2
  lap[0, 0] = 1.0
  psi = np.fft.rfft2(w) / lap
  # the linear part acts on the velocity carried by the vorticity
  u, v = np.fft.irfft2(1j * ky * psi, (n, n)), np.fft.irfft2(-1j * kx * psi, (n, n))
  fx, fy = fx + c['lin'] * u, c['lin'] * v
  curl = np.fft.irfft2(1j * kx * np.fft.rfft2(fy) - 1j * ky * np.fft.rfft2(fx), (n, n))
  ctx.close(f, curl, 'vorticity forcing', 1e-10,
            wn * n * (c['amp'] + abs(c['lin']) * np.abs(w).max() * c['length']))
  return True
