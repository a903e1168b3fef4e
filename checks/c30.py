"""C30: results do not depend on the units of measurement, nor on the origin."""
import functools

import haiku as hk
import hypothesis.strategies as st
import jax
import jax.numpy as jnp
import numpy as np

from checks.c24 import run as with_params
from harness import core, gen
from jax_cfd.base import advection
from jax_cfd.base import array_utils
from jax_cfd.base import diffusion
from jax_cfd.base import equations
from jax_cfd.base import filter_utils
from jax_cfd.base import finite_differences as fd
from jax_cfd.base import forcings
from jax_cfd.base import grids
from jax_cfd.base import initial_conditions
from jax_cfd.base import interpolation
from jax_cfd.base import pressure
from jax_cfd.base import resize
from jax_cfd.base import subgrid_models
from jax_cfd.base import time_stepping
from jax_cfd.collocated import advection as cadvection
from jax_cfd.collocated import diffusion as cdiffusion
from jax_cfd.collocated import equations as cequations
from jax_cfd.collocated import initial_conditions as cinitial
from jax_cfd.collocated import pressure as cpressure
from jax_cfd.data import xarray_utils
from jax_cfd.ml import interpolations
from jax_cfd.ml import layers
from jax_cfd.ml import layers_util
from jax_cfd.ml import towers
from jax_cfd.spectral import equations as sequations
from jax_cfd.spectral import time_stepping as stime
from jax_cfd.spectral import utils as sutils

P = core.Property('C30')


class Units:
  """How many of the new units make one of the old."""

  def __init__(self, exps=(0, 0, 0, 0), shift=(0, 0, 0)):
    self.exps, self.shift = exps, shift

  def __call__(self, length=0, time=0, mass=0, scalar=0):
    return float(10.0 ** sum(e * p for e, p in zip(
        self.exps, (length, time, mass, scalar))))

  def grid(self, g):
    """The grid, moved by whole cells and measured in the new units."""
    dom = []
    for (l, u), n, s in zip(g['domain'], g['shape'], self.shift):
      h = (u - l) / n
      dom.append(((l + s * h) * self(1), (u + s * h) * self(1)))
    return grids.Grid(tuple(g['shape']), domain=tuple(dom))

  def bc(self, b, dims):
    """Boundary values carry the dimensions of the variable (slopes: per length)."""
    if all(t[0] == 'periodic' for t in b['types']):
      return gen.periodic_bc(len(b['types']))
    if not any(x for v in b['values'] for x in v):
      return gen.homogeneous(b['types'])
    values = []
    for t, v in zip(b['types'], b['values']):
      values.append([None if x is None else x * self(*dims) *
                     (self(-1) if s == 'neumann' else 1.0) for s, x in zip(t, v)])
    return gen.mk_bc(dict(types=b['types'], values=values))


VEL = (1, -1, 0, 0)
SCALAR = (0, 0, 0, 1)


def times(dims, **kw):
  names = ('length', 'time', 'mass', 'scalar')
  return tuple(d + kw.get(n, 0) for d, n in zip(dims, names))


def compare(ctx, fn, units, tol):
  """fn(units) -> [(name, array, dimensions, natural magnitude or None)]."""
  base, other = fn(Units()), fn(units)
  ctx.eq(len(base), len(other), 'number of results')
  seen = False
  for (name, a, dims, nat), (_, b, _, _) in zip(base, other):
    a, b = core.to_np(a), core.to_np(b)
    ctx.finite(a, f'{name} in the original units')
    scale = max(float(np.abs(a).max()) if a.size else 0.0, nat or 0.0)
    ctx.close(b / units(*dims), a, f'{name} after changing units by 10^{units.exps} '
              f'(length, time, mass, scalar) and origin by {units.shift} cells',
              tol, scale)
    seen = seen or (a.size and float(np.abs(a).max()) > 1e-6 * scale)
  return bool(seen)


@st.composite
def units(draw, lo=-6, hi=6, time=True, shift=True, far=40):
  e = [draw(gen.ints(lo, hi)), draw(gen.ints(lo, hi)) if time else 0,
       draw(gen.ints(-4, 4)), draw(gen.ints(-12, 12))]
  s = [draw(gen.pick(0, 0, 1, -7, far)) if shift else 0 for _ in range(3)]
  return dict(e=e, s=s)


def mk_units(u):
  return Units(tuple(u['e']), tuple(u['s']))


def moved(u):
  return any(u['e']) or any(u['s'])


# ---- scalars between any boundaries -----------------------------------------

POOL = {1: [(5,), (8,)], 2: [(4, 3), (3, 5), (4, 4)], 3: [(3, 4, 2)]}


@st.composite
def scalar_case(draw):
  v = draw(gen.variable(pool=POOL))
  d = len(v['off'])
  t = [draw(gen.pick(0.0, 0.5, 1.0)) if t[0] == 'periodic' else o
       for t, o in zip(v['bc']['types'], v['off'])]
  return dict(v=v, to=t, u=draw(units(-10, 10, far=200000)), nu=draw(gen.pick(0.01, 1.0)),
              ax=draw(gen.ints(0, d - 1)), w=draw(gen.pick(-1, 1, 2)),
              pt=[draw(gen.floats(0.0, 1.0)) for _ in range(d)])


@P.facet(scalar_case(), quick=60, shards=4,
         rule='shifts, padding, differences, laplacian, diffusion, interpolation and sampling of a '
         'scalar between walls and periodic sides, in other units of length, '
         'time and scalar and from another origin; non-trivial = the result is '
         'not zero')
def scalars(c, ctx):
  data = gen.var_data(c['v'])
  per = all(t[0] == 'periodic' for t in c['v']['bc']['types'])
  def run(u):
    g = u.grid(c['v']['g'])
    q = gen.gvar(data * u(*SCALAR), c['v']['off'], g, u.bc(c['v']['bc'], SCALAR))
    big = np.abs(data).max() + max(
        [abs(x) for v in c['v']['bc']['values'] for x in v if x is not None] + [0])
    h = min(gen.steps_of(c['v']['g']))
    out = []
    for ax in range(g.ndim):
      for f in (fd.forward_difference, fd.backward_difference, fd.central_difference):
        out.append((f.__name__, f(q, ax), times(SCALAR, length=-1), big / h))
    out.append(('shift', q.shift(c['w'] if abs(c['w']) < 2 or per else 1, c['ax']),
                SCALAR, big))
    if all(o == 0.5 for o in c['v']['off']) or per:
      out.append(('laplacian', fd.laplacian(q), times(SCALAR, length=-2), big / h ** 2))
      nu = c['nu'] * u(*times(VEL, length=1))
      out.append(('diffuse', diffusion.diffuse(q, nu), times(SCALAR, time=-1),
                  c['nu'] * big / h ** 2))
    if all(t == 'dirichlet' or t == 'periodic' for x in c['v']['bc']['types'] for t in x) or (
        tuple(c['to']) == tuple(c['v']['off'])):
      out.append(('linear', interpolation.linear(q, tuple(c['to'])), SCALAR, big))
    pt = [l + p * (b - l) for (l, b), p in zip(g.domain, c['pt'])]
    out.append(('point', interpolation.point_interpolation(
        jnp.asarray(pt), q.array), SCALAR, big))
    out += [(f'interior mask of faces along {i}', m, (0, 0, 0, 0), 1.0)
            for i, m in enumerate(grids.domain_interior_masks(g))]
    out.append(('mean', [g.step[c['ax']] * float(q.data.sum())], times(SCALAR, length=1),
                big * h))
    out.append(('spacing of the mesh', [np.diff(np.asarray(x)) for x in g.axes()][c['ax']],
                (1, 0, 0, 0), max(gen.steps_of(c['v']['g']))))
    return out
  ctx.label(f'{len(c["to"])}d')
  return compare(ctx, run, mk_units(c['u']), 1e-8) and moved(c['u'])


# ---- advection --------------------------------------------------------------

SCHEMES = {
    'linear': advection.advect_linear,
    'upwind': advection.advect_upwind,
    'van_leer': advection.advect_van_leer,
    'limiters': advection.advect_van_leer_using_limiters,
}


@st.composite
def advection_case(draw):
  scheme = draw(st.sampled_from(list(SCHEMES) + ['semilagrangian', 'collocated']))
  origin = scheme == 'semilagrangian'
  g = draw(gen.grid((1, 2, 3), POOL, lowers=[0.0] if origin else None))
  d = len(g['shape'])
  return dict(scheme=scheme, g=g, f=draw(gen.field()),
              fs=[draw(gen.field(amps=(1.0, 0.1))) for _ in range(d)],
              cfl=draw(gen.pick(0.1, 0.45, 0.9)), u=draw(units(shift=not origin)))


@P.facet(advection_case(), quick=60, shards=4,
         rule='every advection scheme, in other units and from another origin; '
         'non-trivial = the result is not zero')
def transport(c, ctx):
  d = len(c['g']['shape'])
  h = min(gen.steps_of(c['g']))
  q = gen.arr(c['f'], c['g']['shape'])
  w = [gen.arr(f, c['g']['shape']) for f in c['fs']]
  big = max(np.abs(x).max() for x in w) + 1e-3
  dt = c['cfl'] * h / big / d
  def run(u):
    g = u.grid(c['g'])
    bc = gen.periodic_bc(d)
    step = dt * u(0, 1)
    center = c['scheme'] == 'collocated'
    v = tuple(gen.gvar(x * u(*VEL), (0.5,) * d if center else gen.face_offset(d, i), g, bc)
              for i, x in enumerate(w))
    s = gen.gvar(q * u(*SCALAR), (0.5,) * d, g, bc)
    nat = np.abs(q).max() * big / h
    rate = times(SCALAR, time=-1)
    if center:
      return [('collocated advection', cadvection.advect_linear(s, v), rate, nat)] + [
          ('collocated convection', a, times(VEL, time=-1), big ** 2 / h)
          for a in cadvection.convect_linear(v)]
    if c['scheme'] == 'semilagrangian':
      return [('semi-Lagrangian', advection.advect_step_semilagrangian(s, v, step),
               SCALAR, np.abs(q).max())]
    fn = SCHEMES[c['scheme']]
    out = [(c['scheme'], fn(s, v, step), rate, nat)]
    for i in range(d):
      out.append((f'self-{c["scheme"]}', fn(v[i], v, step), times(VEL, time=-1),
                  big ** 2 / h))
    if c['scheme'] == 'linear':
      out += [('convect', a, times(VEL, time=-1), big ** 2 / h)
              for a in advection.convect_linear(v)]
    out.append(('time step', [advection.stable_time_step(big * u(*VEL), 0.5, g)],
                (0, 1, 0, 0), None))
    return out
  ctx.label(c['scheme'])
  return compare(ctx, run, mk_units(c['u']), 1e-8) and moved(c['u'])


# ---- pressure and implicit diffusion ----------------------------------------


def tight_pressure(v, q0, pressure_bc=None):
  g = v[0].grid
  size = max(float(jnp.abs(u.data).max()) for u in v)
  atol = 1e-12 * size * sum(1 / h for h in g.step) + 1e-300
  return pressure.solve_cg(v, q0, pressure_bc, rtol=1e-12, atol=atol)


def fast(impl):
  return lambda v, q0, pressure_bc=None: pressure.solve_fast_diag(
      v, q0, pressure_bc, implementation=impl)


SOLVERS = {'cg': tight_pressure, 'default': pressure.solve_fast_diag, 'matmul': fast('matmul'),
           'fft': fast('fft'), 'channel': pressure.solve_fast_diag_channel_flow}


@st.composite
def wall_velocity(draw, ndims=(1, 2, 3), pool=None, walls=True, steps=None):
  g = draw(gen.grid(ndims, pool or POOL, steps))
  d = len(g['shape'])
  wall = [walls and draw(st.booleans()) for _ in range(d)]
  bcs = []
  for i in range(d):
    types, values = [], []
    for ax in range(d):
      t = 'dirichlet' if wall[ax] else 'periodic'
      types.append([t, t])
      values.append([draw(gen.pick(0.0, 1.0)) if wall[ax] and ax != i else 0.0
                     for _ in range(2)])
    bcs.append(dict(types=types, values=values))
  return dict(g=g, wall=wall, bcs=bcs, fs=[draw(gen.field(amps=(1.0, 0.3)))
                                           for _ in range(d)])


def mk_velocity(c, u, dtype=np.float64):
  g = u.grid(c['g'])
  d = g.ndim
  out = []
  for i in range(d):
    off = gen.face_offset(d, i)
    a = gen.imposed(gen.arr(c['fs'][i], g.shape), dict(bc=c['bcs'][i], off=off))
    out.append(gen.gvar((a * u(*VEL)).astype(dtype), off, g, u.bc(c['bcs'][i], VEL)))
  return g, tuple(out)


def magnitudes(c):
  big = max([np.abs(gen.arr(f, c['g']['shape'])).max() for f in c['fs']] +
            [abs(x) for b in c['bcs'] for v in b['values'] for x in v] + [1e-3])
  hs = gen.steps_of(c['g'])
  return big, min(hs), max(hs)


@st.composite
def pressure_case(draw):
  c = draw(wall_velocity())
  solvers = [s for s in SOLVERS if s != 'fft' or not any(c['wall'])]
  return dict(c, solver=draw(st.sampled_from(solvers)), u=draw(units()))


@P.facet(pressure_case(), quick=50, shards=4,
         rule='divergence and pressure projection with every solver between walls '
         'and periodic sides, in other units; non-trivial = something to project')
def projections(c, ctx):
  big, h, _ = magnitudes(c)
  def run(u):
    g, v = mk_velocity(c, u)
    w = pressure.projection(v, SOLVERS[c['solver']])
    out = [('divergence', fd.divergence(v), times(VEL, length=-1), big / h)]
    out += [('projected velocity', a, VEL, big) for a in w]
    out.append(('remaining divergence', fd.divergence(w), times(VEL, length=-1), big / h))
    if g.ndim == 2:
      out.append(('curl', fd.curl_2d(v), times(VEL, length=-1), big / h))
    if g.ndim == 3:
      out += [('curl', a, times(VEL, length=-1), big / h) for a in fd.curl_3d(v)]
    return out
  ctx.label(c['solver'])
  return compare(ctx, run, mk_units(c['u']), 1e-7) and moved(c['u'])


@st.composite
def diffusion_case(draw):
  c = draw(wall_velocity())
  solvers = ['default', 'matmul'] + ([] if any(c['wall']) else ['cg', 'fft'])
  return dict(c, solver=draw(st.sampled_from(solvers)), u=draw(units()),
              k=draw(gen.pick(0.01, 1.0, 50.0)))


@P.facet(diffusion_case(), quick=50, shards=3,
         rule='implicit diffusion with every solver and the explicit limit of the '
         'time step, in other units; non-trivial = velocity not zero')
def implicit_diffusion(c, ctx):
  big, h, _ = magnitudes(c)
  def run(u):
    g, v = mk_velocity(c, u)
    nu, dt = 0.1 * h * h * u(2, -1), c['k'] * u(0, 1)
    if c['solver'] == 'cg':
      w = diffusion.solve_cg(v, nu, dt, rtol=1e-12, atol=0.0)
    elif c['solver'] == 'default':
      w = diffusion.solve_fast_diag(v, nu, dt)
    else:
      w = diffusion.solve_fast_diag(v, nu, dt, implementation=c['solver'])
    return [('diffused velocity', a, VEL, big) for a in w] + [
        ('time step', [diffusion.stable_time_step(nu, g)], (0, 1, 0, 0), None)]
  ctx.label(c['solver'])
  return compare(ctx, run, mk_units(c['u']), 1e-8) and moved(c['u'])


# ---- Navier-Stokes steps ----------------------------------------------------

STEPPERS = {'euler': time_stepping.forward_euler, 'rk2': time_stepping.midpoint_rk2,
            'heun': time_stepping.heun_rk2, 'rk4': time_stepping.classic_rk4}
SQUARE = {2: [(4, 4), (6, 6)], 3: [(4, 4, 4)]}


@st.composite
def step_case(draw):
  kind = draw(gen.pick('explicit', 'explicit', 'implicit', 'cavity', 'smagorinsky',
                       'implicit_smagorinsky', 'collocated', 'linear'))
  c = draw(wall_velocity((2, 3), SQUARE, walls=kind == 'cavity', steps=[1.0, 0.37, 2.0]))
  if kind == 'cavity':  # resting walls: the scheme supports no others
    for b in c['bcs']:
      b['values'] = [[0.0, 0.0] for _ in b['values']]
  force = draw(gen.pick('none', 'linear', 'kolmogorov', 'taylor_green', 'filtered'))
  if kind == 'cavity':
    force = draw(gen.pick('none', 'linear'))
  return dict(c, kind=kind, stepper=draw(st.sampled_from(list(STEPPERS))),
              force=force, u=draw(units(-5, 5, shift=force in ('none', 'linear', 'filtered'))),
              density=draw(gen.pick(1.0, 0.7, 3.0)), n=draw(gen.ints(1, 2)))


def forcing_of(c, u, g, big, h):
  size = big * big / h * c['density'] * u(-2, -2, 1)  # a force per volume
  rate = big / h * c['density'] * u(-3, -1, 1)  # force per velocity
  if c['force'] == 'none':
    return None
  if c['force'] == 'linear':
    return forcings.linear_forcing(g, -0.2 * rate)
  if c['force'] == 'filtered':
    k = 1 / (g.shape[0] * g.step[0])
    return forcings.filtered_linear_forcing(0.3 * k, 1.3 * k, 0.3 * rate, g)
  return {'kolmogorov': lambda: unit_wave(g, size, c['swap']),
          'taylor_green': lambda: forcings.taylor_green_forcing(g, size, 1)}[c['force']]()


def unit_wave(g, size, swap):
  k = 2 * np.pi / (g.shape[0] * g.step[0])
  return forcings.kolmogorov_forcing(g, size, k, swap_xy=swap)


@P.facet(step_case(), quick=24, shards=6,
         rule='Navier-Stokes steps of every kind and stepper (explicit, implicit, '
         'walls, Smagorinsky, collocated) with forcing, in other units of length, '
         'time and mass; non-trivial = velocity not zero')
def flow_steps(c, ctx):
  big, h, _ = magnitudes(c)
  d = len(c['g']['shape'])
  c['swap'] = bool(c['n'] % 2)
  dt0 = 0.2 * h / big / d
  nu0 = 0.05 * h * big
  def run(u):
    g, v = mk_velocity(c, u)
    if c['kind'] == 'collocated':
      v = tuple(grids.GridVariable(grids.GridArray(a.data, g.cell_center, g), a.bc)
                for a in v)
    rho = c['density'] * u(-3, 0, 1)
    dt, mu = dt0 * u(0, 1), nu0 * c['density'] * u(-1, -1, 1)
    force = forcing_of(c, u, g, big, h)
    kw = dict(density=rho, viscosity=mu, dt=dt, grid=g, forcing=force)
    k = c['kind']
    if k == 'explicit':
      step = equations.semi_implicit_navier_stokes(**kw, time_stepper=STEPPERS[c['stepper']])
    elif k == 'linear':
      step = equations.semi_implicit_navier_stokes(
          **kw, convect=advection.convect_linear, pressure_solve=tight_pressure)
    elif k == 'cavity':
      convect = lambda v: tuple(advection.advect_van_leer(a, v, dt) for a in v)
      step = equations.semi_implicit_navier_stokes(**kw, convect=convect)
    elif k == 'implicit':
      step = equations.implicit_diffusion_navier_stokes(**kw)
    elif k == 'smagorinsky':
      step = subgrid_models.explicit_smagorinsky_navier_stokes(cs=0.2, **kw)
    elif k == 'implicit_smagorinsky':
      step = implicit_smagorinsky(u, big, **kw)
    else:
      def solve(v, q0):
        return cpressure.solve_cg(v, q0, rtol=1e-12, atol=1e-12 * big / h * u(0, -1))
      if c['force'] == 'taylor_green':
        kw['forcing'] = None
      elif c['force'] == 'kolmogorov':
        f = kw['forcing']
        kw['forcing'] = lambda v: tuple(grids.GridArray(a.data, g.cell_center, g)
                                        for a in f(v))
      step = cequations.semi_implicit_navier_stokes(**kw, pressure_solve=solve)
    for _ in range(c['n']):
      v = step(v)
    out = [('velocity', a, VEL, big) for a in v]
    out.append(('dynamic time step', [equations.dynamic_time_step(
        v, 0.5, 1e-3 * nu0 * u(2, -1), g, True)], (0, 1, 0, 0), None))
    if force is not None and not (c['kind'] == 'collocated' and c['force'] == 'taylor_green'):
      out += [('force', f, (-2, -2, 1, 0), big * big / h * c['density'])
              for f in kw['forcing'](v)]
    return out
  ctx.label(c['kind'])
  return compare(ctx, run, mk_units(c['u']), 1e-6) and moved(c['u'])


def implicit_smagorinsky(u, big, density, viscosity, dt, grid, forcing):
  def evm(v):
    return subgrid_models.evm_model(
        v, lambda s, w: subgrid_models.smagorinsky_viscosity(s, w, dt=dt, cs=0.2))
  def solve(v, nu, dt):
    return subgrid_models.implicit_evm_solve_with_diffusion(
        v, nu, dt, evm, cg_kwargs=dict(tol=1e-5, atol=0.0, maxiter=6))
  return equations.implicit_diffusion_navier_stokes(
      density, viscosity, dt, grid, diffusion_solve=solve, forcing=forcing)


# ---- single precision -------------------------------------------------------


@st.composite
def single_case(draw):
  c = draw(wall_velocity())
  kinds = ['projection', 'diffusion', 'differences']
  if not any(c['wall']):
    kinds += ['explicit', 'limiters', 'filter']
  if not any(c['wall']) and len(c['g']['shape']) > 1:
    kinds += ['smagorinsky']
  return dict(c, kind=draw(st.sampled_from(kinds)),
              solver=draw(gen.pick('default', 'matmul')), u=draw(units(-4, 4, shift=False)))


@P.facet(single_case(), quick=40, shards=3,
         rule='projection, diffusion, steps and schemes in single precision, in other '
         'units; non-trivial = result not zero')
def single(c, ctx):
  big, h, _ = magnitudes(c)
  d = len(c['g']['shape'])
  dt0 = 0.2 * h / big / d
  def run(u):
    g, v = mk_velocity(c, u, np.float32)
    k = c['kind']
    if k == 'projection':
      w = pressure.projection(v, SOLVERS[c['solver']])
      return [('projected velocity', a, VEL, big) for a in w] + [
          ('divergence', fd.divergence(w), times(VEL, length=-1), big / h)]
    if k == 'diffusion':
      w = diffusion.solve_fast_diag(v, 0.1 * h * h * u(2, -1), u(0, 1))
      return [('diffused velocity', a, VEL, big) for a in w]
    if k == 'differences':
      return [('divergence', fd.divergence(v), times(VEL, length=-1), big / h)] + [
          ('laplacian', fd.laplacian(a), times(VEL, length=-2), big / h ** 2) for a in v] + [
              ('speed', [equations.dynamic_time_step(v, 0.5, 0.0, g)], (0, 1, 0, 0), None)]
    if k == 'limiters':
      return [(k, advection.advect_van_leer_using_limiters(a, v, dt0 * u(0, 1)),
               times(VEL, time=-1), big ** 2 / h) for a in v]
    if k == 'filter':
      cut = 2.5 / (g.shape[0] * g.step[0])
      f = forcings.filtered_linear_forcing(0.0, cut, u(0, -1), g)
      return [(k, a, times(VEL, time=-1), big) for a in f(v)]
    kw = dict(density=u(-3, 0, 1), viscosity=0.05 * h * big * u(-1, -1, 1),
              dt=dt0 * u(0, 1), grid=g)
    if k == 'explicit':
      step = equations.semi_implicit_navier_stokes(**kw)
    else:
      step = subgrid_models.explicit_smagorinsky_navier_stokes(cs=0.2, forcing=None, **kw)
    return [(k, a, VEL, big) for a in step(v)]
  ctx.label(c['kind'])
  return compare(ctx, run, mk_units(c['u']), 2e-4) and moved(c['u'])


# ---- filters, initial conditions, coarsening --------------------------------


@st.composite
def field_case(draw):
  kind = draw(gen.pick('filter', 'random', 'collocated_random', 'initial', 'downsample',
                       'laplacian_matrix', 'spectral_resize'))
  pool = {2: [(4, 6), (8, 8)], 3: [(4, 4, 6)]}
  if kind == 'spectral_resize':
    pool = {2: [(8, 8), (6, 6)]}
  g = draw(gen.grid(tuple(pool), pool))
  d = len(g['shape'])
  return dict(kind=kind, g=g, fs=[draw(gen.field()) for _ in range(d)], seed=draw(gen.seeds()),
              peak=draw(gen.pick(1.0, 2.0)),
              u=draw(units(-4, 4, shift=kind not in ('initial',))))


@P.facet(field_case(), quick=40, shards=3,
         rule='spectral filters, random and prescribed initial velocities, coarsening and '
         'operator matrices, in other units; non-trivial = result not zero')
def fields(c, ctx):
  k = c['kind']
  big = max(np.abs(gen.arr(f, c['g']['shape'])).max() for f in c['fs']) + 1e-6
  d = len(c['g']['shape'])
  h = min(gen.steps_of(c['g']))
  width = max(n * s for n, s in zip(c['g']['shape'], gen.steps_of(c['g'])))
  data = [gen.arr(f, c['g']['shape']) for f in c['fs']]
  def run(u):
    g = u.grid(c['g'])
    wave = 2 * np.pi / width * u(-1)
    if k == 'filter':
      f = filter_utils.filter(lambda q: jnp.exp(-q / wave), jnp.asarray(data[0]) * u(*SCALAR), g)
      return [(k, f, SCALAR, big)]
    if k == 'random':
      v = initial_conditions.filtered_velocity_field(
          jax.random.PRNGKey(c['seed']), g, 2.0 * u(*VEL), c['peak'] * wave)
      return [(k, a, VEL, 2.0) for a in v]
    if k == 'collocated_random':
      f = filter_utils.filter(
          lambda q: jnp.exp(-(jnp.log(c['peak'] * wave / q)) ** 2) / q ** (d - 1),
          jax.random.normal(jax.random.PRNGKey(c['seed']), g.shape), g)
      return [(k, f, (d - 1, 0, 0, 0), None)]
    if k == 'initial':
      waves = [2 * np.pi / (b - a) for a, b in g.domain]
      fns = [lambda *x, i=i: u(*VEL) * jnp.sin(sum(
          w * (y - a[0]) for w, y, a in zip(waves, x, g.domain)) + i) for i in range(d)]
      v = initial_conditions.initial_velocity_field(fns, g, iterations=2)
      return [(k, a, VEL, 1.0) for a in v]
    if k == 'laplacian_matrix':
      return [(k, array_utils.laplacian_matrix(g.shape[0], g.step[0]), (-2, 0, 0, 0), None),
              ('periodic', array_utils.laplacian_matrix_w_boundaries(
                  g, g.cell_center, gen.periodic_bc(d))[0], (-2, 0, 0, 0), None)]
    if k == 'spectral_resize':
      to = grids.Grid(tuple(n // 2 for n in g.shape), domain=g.domain)
      hat = jnp.fft.rfft2(jnp.asarray(data[0]) * u(*SCALAR))
      return [(k, jnp.fft.irfft2(resize.downsample_spectral(g, to, hat)), SCALAR, big)]
    to = grids.Grid(tuple(n // 2 for n in g.shape), domain=g.domain)
    v = tuple(gen.gvar(a * u(*VEL), gen.face_offset(d, i), g, gen.periodic_bc(d))
              for i, a in enumerate(data))
    return [(k, a, VEL, big) for a in resize.downsample_staggered_velocity(g, to, v)]
  ctx.label(k)
  return compare(ctx, run, mk_units(c['u']), 1e-7) and moved(c['u'])


# ---- spectral solvers -------------------------------------------------------

SPECTRAL = {'bfe': stime.backward_forward_euler, 'cn2': stime.crank_nicolson_rk2,
            'cn3': stime.crank_nicolson_rk3, 'cn4': stime.crank_nicolson_rk4,
            'sil3': stime.imex_rk_sil3}


@st.composite
def spectral_case(draw):
  kind = draw(gen.pick('navier_stokes', 'navier_stokes', 'burgers', 'schroedinger', 'codec',
                       'masks'))
  return dict(kind=kind, n=draw(gen.pick(8, 12)), m=draw(gen.pick(8, 10)),
              L=draw(gen.pick(1.0, 2 * np.pi, 5.0)), ratio=draw(gen.pick(1.0, 1.0, 0.5)),
              f=draw(gen.field(['noise', 'modes', 'ints'], (1.0, 0.2))),
              stepper=draw(st.sampled_from(list(SPECTRAL))), smooth=draw(st.booleans()),
              nu=draw(gen.pick(0.001, 0.05)), drag=draw(gen.pick(0.0, 0.1)),
              forced=draw(st.booleans()), u=draw(units(-4, 4, shift=False)))


@P.facet(spectral_case(), quick=50, shards=2,
         rule='spectral solvers, vorticity inversion and masks in other units (Schroedinger: '
         'time in units of squared length); non-trivial = state not constant')
def spectral(c, ctx):
  k, L = c['kind'], c['L']
  line = k in ('burgers', 'schroedinger')
  n = c['n']
  shape = (n,) if line else (n, c['m'])
  a = gen.arr(c['f'], shape)
  big = np.abs(a).max()
  unit = mk_units(c['u'])
  if k == 'schroedinger':  # psi^2 is a rate and time is length squared
    e = c['u']['e']
    unit = Units((e[0], 2 * e[0], 0, 0))
  def run(u):
    dom = [(0.0, L * u(1))] + ([] if line else [(0.0, L * c['ratio'] * u(1))])
    g = grids.Grid(shape, domain=tuple(dom))
    if k == 'burgers':
      eq = sequations.BurgersEquation(c['nu'] * L * big * u(2, -1), g)
      dt = 0.01 * L / n / big
      step = SPECTRAL[c['stepper']](eq, dt * u(0, 1))
      x, t = step((jnp.fft.rfft(jnp.asarray(a) * u(*VEL)), 0.0))
      return [(k, jnp.fft.irfft(x, n), VEL, big), ('time', [t], (0, 1, 0, 0), dt)]
    if k == 'schroedinger':
      eq = sequations.NonlinearSchrodinger(g, smooth=c['smooth'])
      psi = jnp.asarray(a / big / L * (1 + 0.3j))
      step = SPECTRAL[c['stepper']](eq, 0.01 * (L / n) ** 2 * u(2))
      return [(k, jnp.fft.ifft(step(jnp.fft.fft(psi * u(-1)))), (-1, 0, 0, 0), 2 / L)]
    w = jnp.asarray(a) * u(0, -1)
    if k == 'codec':
      v = sutils.vorticity_to_velocity(g)(jnp.fft.rfft2(w))
      back = sutils.spectral_curl_2d(g.rfft_mesh(), v)
      return [('velocity', jnp.fft.irfft2(x, shape), VEL, big * L) for x in v] + [
          ('vorticity', jnp.fft.irfft2(back, shape), (0, -1, 0, 0), big)]
    if k == 'masks':
      return [('brick wall', sutils.brick_wall_filter_2d(g), (0,) * 4, 1.0),
              ('circular', sutils.circular_filter_2d(g), (0,) * 4, 1.0)]
    force = None
    if c['forced']:
      force = lambda g: forcings.kolmogorov_forcing(
          g, big * big * L * u(1, -2), 2 * np.pi / (L * u(1)), swap_xy=True,
          offsets=((0, 0), (0, 0)))
    eq = sequations.NavierStokes2D(c['nu'] * L * L * big * u(2, -1), g,
                                   drag=c['drag'] * big * u(0, -1), smooth=c['smooth'],
                                   forcing_fn=force)
    step = SPECTRAL[c['stepper']](eq, 0.1 / big * u(0, 1))
    out = jnp.fft.rfft2(w)
    for _ in range(2):
      out = step(out)
    return [(k, jnp.fft.irfft2(out, shape), (0, -1, 0, 0), big)]
  ctx.label(k)
  return compare(ctx, run, unit, 1e-7) and any(unit.exps)


# ---- datasets and stencils --------------------------------------------------


@st.composite
def dataset_case(draw):
  d = draw(gen.pick(1, 2, 2, 3))
  g = draw(gen.grid((d,), {1: [(6,)], 2: [(6, 6), (8, 6)], 3: [(4, 4, 6)]}))
  return dict(g=g, fs=[draw(gen.field(['noise', 'modes', 'ints'])) for _ in range(d)],
              axis=draw(gen.ints(0, d - 1)), u=draw(units(-5, 5)))


@P.facet(dataset_case(), quick=50, shards=2,
         rule='vorticity, enstrophy, energy, spectra and correlations of datasets, in other '
         'units; non-trivial = velocity not zero')
def datasets(c, ctx):
  d = len(c['g']['shape'])
  data = [gen.arr(f, (2,) + tuple(c['g']['shape'])) for f in c['fs']]
  big = max(np.abs(a).max() for a in data)
  steps = gen.steps_of(c['g'])
  size = core.prod(c['g']['shape'])
  energy = (big * size) ** 2
  def run(u):
    g = u.grid(c['g'])
    ds = xarray_utils.velocity_trajectory_to_xarray(
        tuple(a * u(*VEL) for a in data), g, np.arange(2.0) * u(0, 1))
    out = [('kinetic energy', xarray_utils.kinetic_energy(ds).values, (2, -2, 0, 0), big ** 2),
           ('speed', xarray_utils.speed(ds).values, VEL, big)]
    if d == 2:
      out += [('vorticity', xarray_utils.vorticity_2d(ds).values, (0, -1, 0, 0),
               big / min(steps)),
              ('enstrophy', xarray_utils.enstrophy_2d(ds).values, (0, -2, 0, 0),
               (big / min(steps)) ** 2)]
    spectrum = xarray_utils.energy_spectrum(ds)
    out.append(('spectrum', spectrum.transpose('time', ...).values, (2, -2, 0, 0), energy))
    for x in 'xyz'[:d]:
      out.append((f'wavenumber k{x}', spectrum['k' + x].values, (-1, 0, 0, 0), None))
    if d > 1 and len(set(c['g']['shape'])) == 1 and len(set(np.round(steps, 9))) == 1:
      iso = xarray_utils.isotropize(spectrum, 'binsum')
      out += [('isotropic spectrum', iso.transpose('time', 'k').values, (2, -2, 0, 0), energy),
              ('isotropic wavenumber', iso['k'].values, (-1, 0, 0, 0), None)]
    corr = xarray_utils.velocity_spatial_correlation(ds, 'xyz'[c['axis']])
    name = 'd' + 'xyz'[c['axis']]
    out.append(('distances', corr[name].values, (1, 0, 0, 0), None))
    for key in corr.data_vars:
      out.append((key, corr[key].transpose('time', ...).values, (2, -2, 0, 0), big ** 2))
    return out
  return compare(ctx, run, mk_units(c['u']), 1e-6) and moved(c['u']) and big > 0


@P.facet(gen.dct(h=gen.pick(0.1, 1.0, 0.37), e=gen.ints(-3, 3),
                 sizes=gen.pick([3], [4], [6], [3, 4], [4, 4], [6, 6]),
                 half=st.booleans(), order=gen.pick(0, 1, 1, 2), acc=gen.ints(1, 3),
                 fv=st.booleans(), ax=gen.ints(0, 1)), quick=120,
         rule='stencil coefficients of given accuracy measured in other units of length; '
         'non-trivial = a derivative and another unit')
def stencils(c, ctx):
  d = len(c['sizes'])
  orders = tuple(c['order'] if i == c['ax'] % d else 0 for i in range(d))
  method = layers_util.Method.FINITE_VOLUME if c['fv'] else layers_util.Method.FINITE_DIFFERENCE
  if any(o + c['acc'] > s for o, s in zip(orders, c['sizes'])):
    raise core.Discard('stencil too small')
  def run(u):
    step = c['h'] * u(1)
    s = layers_util.get_stencils(tuple(c['sizes']), (0.5 if c['half'] else 0.0,) * d,
                                 (step,) * d)
    co = layers_util.polynomial_accuracy_coefficients(s, method, orders, c['acc'], step)
    return [('coefficients', co, (-c['order'], 0, 0, 0), None)]
  return compare(ctx, run, Units((c['e'], 0, 0, 0)), 1e-6) and c['order'] > 0 and c['e'] != 0


# ---- learned stencils and interpolation -------------------------------------


@st.composite
def learned_case(draw):
  kind = draw(gen.pick('layer', 'layer', 'layer', 'derivative', 'derivative', 'interpolation'))
  d = 2 if kind == 'interpolation' else draw(gen.pick(1, 2))
  return dict(kind=kind, d=d, sizes=[draw(gen.ints(3, 6)) for _ in range(d)],
              order=draw(gen.ints(0, 2)), ax=draw(gen.ints(0, d - 1)),
              acc=draw(gen.ints(1, 3)), bias=draw(gen.ints(1, 3)), fv=draw(st.booleans()),
              off=[draw(gen.pick(0.0, 0.5)) for _ in range(d)],
              h=draw(gen.pick(1.0, 0.1, 0.37)), seed=draw(gen.seeds()),
              module=draw(gen.pick('fused', 'individual', 'anisotropic')),
              given=draw(st.booleans()), u=draw(units(-5, 5)))


def small_tower(n, ndim, name=None):
  kw = {} if name is None else dict(name=name)
  return towers.forward_tower_factory(n, ndim, num_hidden_channels=4, num_hidden_layers=1,
                                      kernel_size=2, output_kernel_size=3, **kw)


@P.facet(learned_case(), quick=70, shards=3,
         rule='constraint layers, learned derivatives and interpolations with the same '
         'parameters on grids of another spacing and origin; which accuracies are '
         'accepted; non-trivial = accepted, other units')
def learned(c, ctx):
  d = c['d']
  orders = tuple(c['order'] if i == c['ax'] else 0 for i in range(d))
  method = layers_util.Method.FINITE_VOLUME if c['fv'] else layers_util.Method.FINITE_DIFFERENCE
  e = c['u']['e']
  rng = np.random.default_rng(c['seed'])
  if c['kind'] == 'layer':
    logits = rng.standard_normal((3, 200))
    def make(u, bias=None):
      h = c['h'] * u(1)
      s = layers_util.get_stencils(tuple(c['sizes']), tuple(c['off']), (h,) * d)
      try:
        con = layers.PolynomialConstraint(s, orders, method, (h,) * d, c['acc'],
                                          c['bias'], bias=bias)
      except ValueError as err:
        return str(err)
      return con(jnp.asarray(logits[:, :con.subspace_size]))
    first, unit = make(Units()), Units((e[0], 0, 0, 0))
    second = make(unit)
    ctx.eq(isinstance(first, str), isinstance(second, str),
           f'accepted with one spacing of {c["h"]} and {c["h"] * unit(1)} but not the other')
    if isinstance(first, str):
      ctx.eq(first, second, 'reason to reject')
      ctx.label('rejected')
      return False
    ctx.label('accepted')
    compare(ctx, lambda u: [('coefficients', make(u), (-c['order'], 0, 0, 0), None)],
            unit, 1e-9)
    if c['given']:
      base = np.asarray(make(Units()))[0]
      wrong = base + 1e-3 * np.abs(base).max() * (np.arange(base.size) == 0)
      for good, b in ((True, base), (False, wrong)):
        got = [not isinstance(make(u, b / u(c['order'])), str) for u in (Units(), unit)]
        ctx.eq(got, [good] * 2, 'bias given in two units accepted')
    return e[0] != 0
  unit = Units((e[0], e[0], 0, 0), tuple(c['u']['s']))  # networks see velocities
  shape = (6, 8)[:d]
  lengths = [[1.3, 1.3 + n * c['h']] for n in shape]
  if c['kind'] == 'derivative':
    a = rng.standard_normal(shape + (1,))
    target = tuple(o + 0.5 for o in c['off'])
    def module(u):
      g = u.grid(dict(shape=shape, domain=lengths))
      return lambda x: layers.SpatialDerivative(
          tuple(c['sizes']), tuple(c['off']), target, orders,
          functools.partial(small_tower, ndim=d), g.step)(x)
    if c['order'] + 2 > c['sizes'][c['ax']]:
      raise core.Discard('no free coefficients')
    _, params = with_params(module(Units()), a, c['seed'], 0.3)
    def run(u):
      apply = hk.without_apply_rng(hk.transform(module(u))).apply
      return [('learned derivative', apply(params, a), (-c['order'], 0, 0, 0), None)]
    ctx.label('derivative')
    return compare(ctx, run, unit, 1e-7) and moved(c['u'])
  data = [rng.standard_normal(shape) for _ in range(2)]
  cls = {'fused': interpolations.FusedLearnedInterpolation,
         'individual': interpolations.IndividualLearnedInterpolation,
         'anisotropic': interpolations.anisotropic_learned_interpolation}[c['module']]
  def forward(u):
    g = u.grid(dict(shape=shape, domain=lengths))
    def fwd(arrays):
      v = tuple(gen.gvar(a, gen.face_offset(2, i), g, gen.periodic_bc(2))
                for i, a in enumerate(arrays))
      fn = cls(g, 0.1 * u(0, 1), None, v, stencil_size=4, tower_factory=small_tower)
      return [fn(v[0], (1.5, 0.5), v, 0.1 * u(0, 1)).data,
              fn(v[1], (1.0, 1.0), v, 0.1 * u(0, 1)).data]
    return fwd
  _, params = with_params(forward(Units()), data, c['seed'], 0.3)
  def run(u):
    apply = hk.without_apply_rng(hk.transform(forward(u))).apply
    return [('learned interpolation', x, (0, 0, 0, 0), None) for x in apply(params, data)]
  ctx.label(c['module'])
  return compare(ctx, run, unit, 1e-7) and moved(c['u'])
