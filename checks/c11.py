"""C11: incompressible Navier-Stokes stepping."""
import functools

import hypothesis.strategies as st
import jax.numpy as jnp
import numpy as np

from checks import c06
from checks import c08
from checks import c10
from checks.c05 import ref_linear
from harness import core, gen
from jax_cfd.base import advection as adv
from jax_cfd.base import diffusion
from jax_cfd.base import equations
from jax_cfd.base import grids
from jax_cfd.base import pressure
from jax_cfd.base import time_stepping as ts

P = core.Property('C11')
POOL = {2: [(4, 3), (3, 6), (4, 4)], 3: [(3, 4, 2)]}
SCHEMES = ('default', 'linear', 'upwind', 'van_leer')
TABLEAUS = {  # independent statement of the integrators
    'forward_euler': ([], [1.0]),
    'midpoint_rk2': ([[0.5]], [0.0, 1.0]),
    'heun_rk2': ([[1.0]], [0.5, 0.5]),
    'classic_rk4': ([[0.5], [0.0, 0.5], [0.0, 0.0, 1.0]],
                    [1 / 6, 1 / 3, 1 / 3, 1 / 6]),
}


def convect_fn(name, dt):
  if name == 'default':
    return None
  if name == 'linear':
    return adv.convect_linear
  fn = {'upwind': adv.advect_upwind, 'van_leer': adv.advect_van_leer}[name]
  return lambda v: tuple(fn(u, v, dt) for u in v)


@st.composite
def case(draw, schemes=SCHEMES):
  g = draw(gen.grid((2, 3), POOL))
  d = len(g['shape'])
  return dict(g=g, psi=[draw(gen.field()) for _ in range(3)],
              mean=[draw(gen.pick(0.0, 1.0, -0.7)) for _ in range(d)],
              scheme=draw(st.sampled_from(list(schemes))),
              stepper=draw(st.sampled_from(sorted(TABLEAUS))),
              nu=draw(gen.pick(None, 0.0, 0.05, 0.3)),
              rho=draw(gen.pick(1.0, 1.0, 2.0, 0.4)),
              force=draw(gen.pick(None, None, 'field', 'drag')),
              ff=[draw(gen.field()) for _ in range(d)],
              steps=draw(gen.pick(1, 1, 2)), cfl=draw(gen.pick(0.1, 0.5)))


def start(c):
  g = gen.mk_grid(c['g'])
  d = g.ndim
  vs = c06.solenoidal(c, g)
  voffs = [gen.face_offset(d, i) for i in range(d)]
  bc = gen.periodic_bc(d)
  v = tuple(gen.gvar(x, o, g, bc) for x, o in zip(vs, voffs))
  top = max(np.abs(x).max() for x in vs) or 1.0
  dt = c['cfl'] * min(g.step) / top
  return g, vs, voffs, v, top, dt


def project(vs, c, g):
  cc = dict(wall=[False] * g.ndim, normal=[0.0] * g.ndim)
  return c10.reference(cc, g, vs)[0]


def viscosity(c, g, dt):
  """nu is given relative to the explicit limit, so that steps stay stable."""
  if c['nu'] is None:
    return None
  return c['nu'] * min(g.step) ** 2 / dt * c['rho'] / g.ndim


def rhs(vs, c, g, voffs, dt, mu, forces):
  out = []
  scheme = {'default': 'limited'}.get(c['scheme'], c['scheme'])
  for i, a in enumerate(vs):
    k = dict(g=c['g'], off=list(voffs[i]), bc=dict(
        types=[['periodic'] * 2] * g.ndim, values=[[0.0, 0.0]] * g.ndim))
    r = c06.model_periodic(dict(g=c['g'], off=list(voffs[i])), a, vs, dt, scheme,
                           voffs)
    if mu is not None:
      r = r + mu / c['rho'] * c08.ref_laplacian(a, k)
    if forces is not None:
      r = r + forces(vs)[i] / c['rho']
    out.append(r)
  return out


def forcing(c, g, voffs, v, dt):
  """(library forcing, reference forcing)."""
  if c['force'] is None:
    return None, None
  if c['force'] == 'drag':
    k = -0.2 / dt
    return (lambda v: tuple(k * u.array for u in v)), lambda vs: [k * x for x in vs]
  amp = max(np.abs(np.asarray(u.data)).max() for u in v)
  arrs = []
  for f in c['ff']:
    a = gen.arr(f, g.shape)
    arrs.append(a / (np.abs(a).max() + 1e-300) * 0.3 * amp / dt)
  fs = tuple(gen.garray(a, o, g) for a, o in zip(arrs, voffs))
  return (lambda v: fs), lambda vs: arrs


def compare(ctx, c, g, v, got, want, scale, voffs, forced, tol=1e-8):
  d = g.ndim
  ctx.eq(len(got), d, 'components')
  for i in range(d):
    u = got[i]
    ctx.true(tuple(u.offset) == tuple(voffs[i]) and u.grid == g, 'offset, grid')
    ctx.true(u.bc == v[i].bc, 'boundary conditions')
    ctx.close(u, want[i], f'component {i}', tol, scale)
  div = c10.np_divergence([np.asarray(u.data) for u in got],
                          dict(wall=[False] * d), g)
  ctx.close(div, np.zeros(g.shape), 'divergence', 1e-9,
            scale * sum(1 / h for h in g.step))
  if not forced:
    for i in range(d):
      ctx.close(np.asarray(got[i].data).sum(), np.asarray(v[i].data).sum(),
                'momentum', 1e-9, scale * core.prod(g.shape))


@P.facet(case(), quick=50, shards=6,
         rule='explicit steps: every advection scheme, integrator, force, density '
         'and viscosity on periodic grids vs a numpy solver with a dense '
         'projector; non-trivial = flow not uniform')
def explicit(c, ctx):
  g, vs, voffs, v, top, dt = start(c)
  mu = viscosity(c, g, dt)
  lib, ref = forcing(c, g, voffs, v, dt)
  step = equations.semi_implicit_navier_stokes(
      density=c['rho'], viscosity=mu, dt=dt, grid=g,
      convect=convect_fn(c['scheme'], dt), forcing=lib,
      time_stepper=getattr(ts, c['stepper']))
  ctx.label(f'{c["scheme"]}/{c["stepper"]}')
  a, b = TABLEAUS[c['stepper']]
  x, y = v, vs
  for _ in range(c['steps']):
    x = step(x)
    ks = [rhs(y, c, g, voffs, dt, mu, ref)]
    for row in a:
      s = [y[i] + dt * sum(w * k[i] for w, k in zip(row, ks))
           for i in range(g.ndim)]
      ks.append(rhs(project(s, c, g), c, g, voffs, dt, mu, ref))
    y = project([y[i] + dt * sum(w * k[i] for w, k in zip(b, ks))
                 for i in range(g.ndim)], c, g)
  scale = top + max(np.abs(u).max() for u in y)
  compare(ctx, c, g, v, x, y, scale, voffs, c['force'] is not None)
  if c['force'] == 'field':
    gain = [c['steps'] * dt * f.sum() / c['rho'] for f in ref(vs)]
    for i in range(g.ndim):
      ctx.close(np.asarray(x[i].data).sum(), vs[i].sum() + gain[i],
                'momentum gained from the force', 1e-9, scale * vs[i].size)
  return any(gen.nonconstant(u) for u in vs)


@P.facet(case(), quick=50, shards=4,
         rule='implicit-diffusion steps vs a numpy solver (dense projector and '
         'dense Helmholtz solve); non-trivial = flow not uniform')
def implicit(c, ctx):
  g, vs, voffs, v, top, dt = start(c)
  d = g.ndim
  mu = (c['nu'] or 0.0) * 20 * min(g.step) ** 2 / dt * c['rho']
  lib, ref = forcing(c, g, voffs, v, dt)
  step = equations.implicit_diffusion_navier_stokes(
      density=c['rho'], viscosity=mu, dt=dt, grid=g,
      convect=convect_fn(c['scheme'], dt), forcing=lib)
  from checks.c09 import kron_sum, operator
  lap = kron_sum([operator(n, 'laplacian', 0) / h ** 2
                  for n, h in zip(g.shape, g.step)])
  helm = np.eye(len(lap)) - dt * mu / c['rho'] * lap
  x, y = v, vs
  for _ in range(c['steps']):
    x = step(x)
    r = rhs(y, c, g, voffs, dt, None, ref)
    y = project([y[i] + dt * r[i] for i in range(d)], c, g)
    y = [np.linalg.solve(helm, u.ravel()).reshape(u.shape) for u in y]
  scale = top + max(np.abs(u).max() for u in y)
  compare(ctx, c, g, v, x, y, scale, voffs, c['force'] is not None)
  return any(gen.nonconstant(u) for u in vs)


@P.facet(case(schemes=('upwind',)), quick=30, shards=2,
         rule='kinetic energy of unforced upwind steps, explicit or implicit, '
         'within the combined stability limit; non-trivial = flow not uniform')
def energy(c, ctx):
  g, vs, voffs, v, top, _ = start(c)
  d = g.ndim
  out = sum(2 * max(np.abs(u).max() for u in vs) / h for h in g.step)
  nu = (c['nu'] or 0.0) * top * min(g.step) * 10
  if not out:
    return False  # at rest: no limit on the time step
  dt = 0.9 / (out + 2 * nu * sum(1 / h ** 2 for h in g.step))
  kw = dict(density=1.0, viscosity=nu, dt=dt, grid=g,
            convect=convect_fn('upwind', dt))
  for make in (equations.semi_implicit_navier_stokes,
               equations.implicit_diffusion_navier_stokes):
    x, step = v, make(**kw)
    before = sum((a ** 2).sum() for a in vs)
    for _ in range(2):
      x = step(x)
      after = sum((np.asarray(u.data) ** 2).sum() for u in x)
      ctx.le(after, before, 'kinetic energy', 1e-10 * top ** 2 * vs[0].size * d)
      before = after
  return any(gen.nonconstant(u) for u in vs)


@st.composite
def wall_case(draw):
  c = draw(case(schemes=('van_leer',)))
  d = len(c['g']['shape'])
  wall = [draw(st.booleans()) for _ in range(d)]
  if not any(wall):
    wall[draw(gen.ints(0, d - 1))] = True
  c.update(wall=wall, implicit=draw(st.booleans()),
           perm=draw(st.permutations(list(range(d)))))
  return c


@P.facet(wall_case(), quick=18, shards=4,
         rule='van Leer steps between resting walls: divergence, wall values, '
         'momentum along periodic axes without viscosity, energy given to '
         'viscosity, permuted axes give the permuted result; non-trivial = flow '
         'not uniform')
def walls(c, ctx):
  g = gen.mk_grid(c['g'])
  d = g.ndim
  types = [['dirichlet'] * 2 if w else ['periodic'] * 2 for w in c['wall']]
  cc = dict(wall=c['wall'], normal=[0.0] * d)
  raw = [gen.arr(c['psi'][i], g.shape) for i in range(d)]
  k = lambda i: dict(g=c['g'], off=gen.face_offset(d, i),
                     bc=dict(types=types, values=[[0.0, 0.0]] * d))
  vs = c10.reference(cc, g, [gen.imposed(a, k(i)) for i, a in enumerate(raw)])[0]
  top = max(np.abs(x).max() for x in vs)
  if top < 1e-12:
    raise core.Discard()
  dt = c['cfl'] * min(g.step) / top
  mu = (c['nu'] or 0.0) * min(g.step) ** 2 / dt * c['rho'] / d

  def run(g, types, vs):
    bc = gen.homogeneous(types)
    v = tuple(gen.gvar(x, gen.face_offset(d, i), g, bc) for i, x in enumerate(vs))
    make = (equations.implicit_diffusion_navier_stokes if c['implicit']
            else equations.semi_implicit_navier_stokes)
    step = make(density=c['rho'], viscosity=mu, dt=dt, grid=g,
                convect=convect_fn('van_leer', dt))
    x = v
    for _ in range(c['steps']):
      x = step(x)
    return v, x

  v, x = run(g, types, vs)
  ys = [np.asarray(u.data) for u in x]
  scale = top + max(np.abs(y).max() for y in ys)
  for i in range(d):
    ctx.true(tuple(x[i].offset) == tuple(v[i].offset) and x[i].bc == v[i].bc,
             'offset and boundary conditions')
    ctx.close(ys[i], gen.imposed(ys[i], k(i)), 'no flow through walls', 1e-12, scale)
    if mu == 0 and not c['wall'][i]:
      ctx.close(ys[i].sum(), vs[i].sum(), 'momentum along periodic axes', 1e-9,
                scale * ys[i].size)
  # the implicit solver diffuses after projecting, which between walls is only
  # guaranteed to keep the flow solenoidal without viscosity
  if not c['implicit'] or mu == 0:
    ctx.close(c10.np_divergence(ys, cc, g), np.zeros(g.shape), 'divergence', 1e-9,
              scale * sum(1 / h for h in g.step))
  perm = c['perm']
  gp = grids.Grid(tuple(g.shape[p] for p in perm),
                  domain=tuple(g.domain[p] for p in perm))
  _, xp = run(gp, [types[p] for p in perm],
              [np.transpose(vs[p], perm) for p in perm])
  for i, p in enumerate(perm):
    ctx.close(xp[i], np.transpose(ys[p], perm), 'permuted axes', 1e-9, scale)
  return True


@P.facet(gen.dct(g=gen.grid((1, 2, 3), {1: [(5,)], 2: [(4, 3)], 3: [(3, 4, 2)]}),
                 f=gen.field(), cfl=gen.floats(0.05, 1), nu=gen.floats(0.0, 5)),
         quick=80, rule='suggested time steps; non-trivial = moving flow')
def time_step(c, ctx):
  g = gen.mk_grid(c['g'])
  d = g.ndim
  bc = gen.periodic_bc(d)
  a = gen.arr(c['f'], g.shape)
  vs = [(-1) ** i * np.roll(a, i) for i in range(d)]
  v = tuple(gen.gvar(x, gen.face_offset(d, i), g, bc) for i, x in enumerate(vs))
  speed = np.sqrt(sum(x ** 2 for x in vs)).max()
  if speed == 0:
    raise core.Discard()
  want = c['cfl'] * min(g.step) / speed
  limit = min(g.step) ** 2 / (c['nu'] * 2 ** d) if c['nu'] else np.inf
  for implicit in (True, False):
    fixed = lambda: equations.stable_time_step(float(speed), c['cfl'], c['nu'], g,
                                               implicit)
    dyn = lambda: equations.dynamic_time_step(v, c['cfl'], c['nu'], g, implicit)
    if not implicit and limit < want * (1 - 1e-9):
      ctx.raises(ValueError, fixed, 'diffusive limit')
      ctx.raises(ValueError, dyn, 'diffusive limit')
    elif implicit or limit > want * (1 + 1e-9):
      ctx.close(np.array(float(fixed())), np.array(want), 'advective limit', 1e-12)
      ctx.close(np.array(float(dyn())), np.array(want), 'dynamic limit', 1e-12)
  return True
