"""C06: flux-form advection."""
import hypothesis.strategies as st
import jax.numpy as jnp
import numpy as np

from harness import core, gen
from jax_cfd.base import advection as adv
from jax_cfd.base import boundaries
from jax_cfd.base import finite_differences as fd
from jax_cfd.base import grids
from checks.c05 import ref_linear

P = core.Property('C06')
POOL = {1: [(5,), (2,), (8,)], 2: [(4, 3), (3, 5), (1, 4), (4, 4)], 3: [(3, 4, 2)]}

SCHEMES = {
    'linear': lambda c, v, dt: adv.advect_linear(c, v, dt),
    'upwind': lambda c, v, dt: adv.advect_upwind(c, v, dt),
    'van_leer': lambda c, v, dt: adv.advect_van_leer(c, v, dt),
    'limited': lambda c, v, dt: adv.advect_van_leer_using_limiters(c, v, dt),
}


@st.composite
def periodic_case(draw):
  g = draw(gen.grid((1, 2, 3), POOL))
  d = len(g['shape'])
  place = draw(gen.pick('center', 'center', 'face', 'edge0', 'node'))
  off = [0.5] * d
  if place == 'face':
    off[draw(gen.ints(0, d - 1))] = 1.0
  elif place == 'edge0':
    off[draw(gen.ints(0, d - 1))] = 0.0
  elif place == 'node':
    off = [1.0] * d
  return dict(g=g, off=off, place=place, f=draw(gen.field()),
              scheme=draw(st.sampled_from(sorted(SCHEMES))),
              vs=[draw(gen.field(amps=(1.0, -1.0, 0.1))) for _ in range(d)],
              collocated=draw(gen.pick(False, False, False, True)),
              cfl=draw(gen.pick(0.0, 0.3, 1.0, 2.0)))


def per(c, off):
  d = len(c['g']['shape'])
  return dict(g=c['g'], off=list(off), bc=dict(
      types=[['periodic'] * 2] * d, values=[[0.0, 0.0]] * d))


def phi_delta(n, dlt):
  """van Leer limiter times the slope."""
  den = np.abs(n) + np.abs(dlt)
  same = (n * dlt) > 0
  return np.where(same, 2 * np.abs(n) * np.abs(dlt) / np.where(den > 0, den, 1)
                  * np.sign(dlt), 0.0)


def face_flux(u, cl, cr, cll, crr, scheme, dt, h):
  """Flux through a face from the four cells around it."""
  if scheme == 'linear':
    return u * 0.5 * (cl + cr)
  up = np.where(u > 0, u * cl, u * cr)
  if scheme == 'upwind':
    return up
  n = np.where(u > 0, cl - cll, crr - cr)
  return up + 0.5 * np.abs(u) * (1 - dt * np.abs(u) / h) * phi_delta(n, cr - cl)


def model_periodic(c, a, vs, dt, scheme, voffs):
  hs = gen.steps_of(c['g'])
  out = np.zeros_like(a)
  for ax in range(a.ndim):
    target = list(c['off'])
    target[ax] += 0.5
    u = ref_linear(vs[ax], per(c, voffs[ax]), target)
    r = lambda k: np.roll(a, -k, axis=ax)
    f = face_flux(u, a, r(1), r(-1), r(2), scheme, dt, hs[ax])
    out -= (f - np.roll(f, 1, axis=ax)) / hs[ax]
  return out


def velocities(c, g):
  d = g.ndim
  vs = [gen.arr(f, g.shape) for f in c['vs']]
  voffs = [(0.5,) * d if c.get('collocated') else gen.face_offset(d, i)
           for i in range(d)]
  return vs, voffs


@P.facet(periodic_case(), quick=130, shards=5,
         rule='every scheme on periodic domains, scalars at centres, faces, '
         'edges or nodes, arbitrary velocities; finite-volume reference and '
         'conservation; non-trivial = scalar and velocity non-constant')
def periodic(c, ctx):
  g = gen.mk_grid(c['g'])
  a = gen.arr(c['f'], g.shape)
  vs, voffs = velocities(c, g)
  bc = gen.periodic_bc(g.ndim)
  vmax = max(np.abs(u).max() for u in vs) or 1.0
  dt = c['cfl'] * min(g.step) / vmax
  u = gen.gvar(a, c['off'], g, bc)
  v = tuple(gen.gvar(x, o, g, bc) for x, o in zip(vs, voffs))
  got = SCHEMES[c['scheme']](u, v, dt)
  scale = np.abs(a).max() * vmax / min(g.step) * g.ndim * (1 + c['cfl'])
  ctx.label(f'{c["scheme"]}@{c["place"]}')
  ctx.eq(tuple(got.offset), tuple(c['off']), 'offset')
  ctx.true(got.grid == g, 'grid')
  want = model_periodic(c, a, vs, dt, c['scheme'], voffs)
  ctx.close(got, want, f'{c["scheme"]} finite-volume form', 1e-10, scale)
  ctx.close(np.sum(np.asarray(got.data)), 0.0, f'{c["scheme"]} conserves the '
            'total', 1e-11, scale * a.size)
  if c['scheme'] == 'van_leer':
    other = adv.advect_van_leer_using_limiters(u, v, dt)
    ctx.close(got, other, 'the two van Leer forms', 1e-9, scale)
  return gen.nonconstant(a) and any(gen.nonconstant(x) for x in vs)


@st.composite
def closed_case(draw):
  g = draw(gen.grid((1, 2, 3), {1: [(4,), (5,)], 2: [(4, 3), (3, 5)],
                                3: [(3, 4, 2)]}))
  d = len(g['shape'])
  walls = [draw(st.booleans()) for _ in range(d)]
  if not any(walls):
    walls[draw(gen.ints(0, d - 1))] = True
  off = [0.5 if w else draw(gen.pick(0.5, 1.0, 0.0)) for w in walls]
  return dict(g=g, walls=walls, f=draw(gen.field()), off=off,
              ct=[draw(gen.pick('neumann', 'dirichlet')) for _ in range(d)],
              cv=[draw(gen.pick(0.0, 0.0, 1.5)) for _ in range(d)],
              vs=[draw(gen.field(amps=(1.0, -1.0))) for _ in range(d)],
              cfl=draw(gen.pick(0.0, 0.5, 1.0)))


@P.facet(closed_case(), quick=80, shards=3,
         rule='van Leer advection behind closed walls, scalar with fixed value '
         'or slope at the wall, centred or staggered along periodic axes; non-trivial = scalar non-constant')
def closed(c, ctx):
  g = gen.mk_grid(c['g'])
  d = g.ndim
  a = gen.arr(c['f'], g.shape)
  types = [['dirichlet'] * 2 if w else ['periodic'] * 2 for w in c['walls']]
  vbc = gen.homogeneous(types)
  v, vs = [], []
  for i in range(d):
    x = gen.arr(c['vs'][i], g.shape)
    k = dict(g=c['g'], off=gen.face_offset(d, i), bc=dict(types=types,
                                                values=[[0.0, 0.0]] * d))
    x = gen.imposed(x, k)
    target = list(c['off'])
    target[i] += 0.5
    vs.append(ref_linear(x, k, target))
    v.append(gen.gvar(x, gen.face_offset(d, i), g, vbc))
  off = tuple(c['off'])
  cbc = dict(types=[[t] * 2 if w else ['periodic'] * 2
                    for t, w in zip(c['ct'], c['walls'])],
             values=[[x, x] if w else [0.0, 0.0]
                     for x, w in zip(c['cv'], c['walls'])])
  cc = dict(g=c['g'], off=c['off'], bc=cbc)
  u = gen.gvar(a, off, g, gen.mk_bc(cbc))
  vmax = max(np.abs(x).max() for x in vs) or 1.0
  dt = c['cfl'] * min(g.step) / vmax
  got = adv.advect_van_leer(u, tuple(v), dt)
  scale = (np.abs(a).max() + 2 + max(g.step)) * vmax / min(g.step) * d
  hs = gen.steps_of(c['g'])
  want = np.zeros_like(a)
  for ax in range(d):
    n = a.shape[ax]
    e = lambda k: gen.ext_shift(a, cc, ax, k, 'mirror')
    f = face_flux(vs[ax], a, e(1), e(-1), e(2), 'van_leer', dt, hs[ax])
    if c['walls'][ax]:
      f = np.moveaxis(f, ax, 0)
      f[n - 1] = 0.0
      prev = np.concatenate([np.zeros_like(f[:1]), f[:-1]])
      want -= np.moveaxis((f - prev) / hs[ax], 0, ax)
    else:
      want -= (f - np.roll(f, 1, axis=ax)) / hs[ax]
  ctx.close(np.sum(np.asarray(got.data)), 0.0, 'closed domain conserves the total',
            1e-11, scale * a.size)
  ctx.close(got, want, 'finite-volume form at walls', 1e-10, scale)
  ctx.eq(tuple(got.offset), off, 'offset')
  return gen.nonconstant(a)


@st.composite
def solenoidal_case(draw, ndims=(1, 2, 3), pool=POOL):
  g = draw(gen.grid(ndims, pool))
  d = len(g['shape'])
  return dict(g=g, psi=[draw(gen.field()) for _ in range(3)],
              mean=[draw(gen.pick(0.0, 1.0, -0.7, 2.0)) for _ in range(d)],
              walls=draw(st.booleans()))


def solenoidal(c, g):
  """Discretely divergence-free periodic staggered velocity."""
  d = g.ndim
  hs = g.step
  vs = [np.full(g.shape, m) for m in c['mean']]
  pairs = {1: [], 2: [(0, 1)], 3: [(0, 1), (1, 2), (2, 0)]}[d]
  for k, (i, j) in enumerate(pairs):
    psi = gen.arr(c['psi'][k], g.shape)
    vs[i] = vs[i] + (psi - np.roll(psi, 1, axis=j)) / hs[j]
    vs[j] = vs[j] - (psi - np.roll(psi, 1, axis=i)) / hs[i]
  return vs


@P.facet(solenoidal_case(), quick=60, shards=2,
         rule='uniform scalar in divergence-free flow; non-trivial = flow is '
         'non-uniform or multi-dimensional')
def uniform(c, ctx):
  g = gen.mk_grid(c['g'])
  d = g.ndim
  bc = gen.periodic_bc(d)
  vs = solenoidal(c, g)
  v = tuple(gen.gvar(x, gen.face_offset(d, i), g, bc) for i, x in enumerate(vs))
  vmax = max(np.abs(x).max() for x in vs) or 1.0
  one = gen.gvar(np.full(g.shape, 1.75), (0.5,) * d, g, bc)
  for name, fn in SCHEMES.items():
    got = fn(one, v, 0.3 * min(g.step) / vmax)
    ctx.close(got, np.zeros(g.shape), f'{name} of a uniform scalar', 1e-11,
              1.75 * vmax / min(g.step) * d)
  return d > 1


@P.facet(periodic_case(), quick=80, shards=3,
         rule='self-advection of periodic staggered velocities against the '
         'scalar scheme applied per component; non-trivial = non-constant')
def convection(c, ctx):
  c = dict(c, collocated=False)
  g = gen.mk_grid(c['g'])
  d = g.ndim
  bc = gen.periodic_bc(d)
  vs, voffs = velocities(c, g)
  v = tuple(gen.gvar(x, o, g, bc) for x, o in zip(vs, voffs))
  vmax = max(np.abs(u).max() for u in vs)
  scale = vmax ** 2 / min(g.step) * d
  got = adv.convect_linear(v)
  ctx.eq(len(got), d, 'components')
  for i in range(d):
    ctx.eq(tuple(got[i].offset), tuple(voffs[i]), 'offset')
    want = model_periodic(dict(c, off=list(voffs[i])), vs[i], vs, 0.0, 'linear',
                          voffs)
    ctx.close(got[i], want, 'convection finite-volume form', 1e-10, scale)
    ctx.close(np.sum(np.asarray(got[i].data)), 0.0, 'momentum', 1e-11,
              scale * vs[i].size)
  # the discrete convective term of divergence-free flow does no work
  sol = solenoidal(dict(g=c['g'], psi=c['vs'] * 3,
                        mean=[0.5, -1.0, 0.25][:d]), g)
  w = tuple(gen.gvar(x, o, g, bc) for x, o in zip(sol, voffs))
  work = sum(float(np.sum(x * np.asarray(r.data)))
             for x, r in zip(sol, adv.convect_linear(w)))
  s = max(np.abs(x).max() for x in sol)
  ctx.close(np.array(work), np.array(0.0), 'centred convection conserves energy',
            1e-11, s ** 3 / min(g.step) * d * d * vs[0].size)
  return any(gen.nonconstant(x) for x in vs)


@P.facet(gen.dct(g=gen.grid((1, 2, 3), POOL), v=gen.floats(0.01, 50),
                 cfl=gen.floats(0.01, 2), f=gen.field()),
         quick=80, rule='advective limit; non-trivial = anisotropic grid')
def limits(c, ctx):
  g = gen.mk_grid(c['g'])
  dt = float(adv.stable_time_step(c['v'], c['cfl'], g))
  ctx.close(np.array(dt * c['v'] / min(g.step)), np.array(c['cfl']),
            'largest Courant number', 1e-12)
  wall = gen.homogeneous([['neumann'] * 2] * g.ndim)
  u = gen.gvar(gen.arr(c['f'], g.shape), (0.5,) * g.ndim, g, wall)
  v = tuple(gen.gvar(np.ones(g.shape), gen.face_offset(g.ndim, i), g,
                     gen.periodic_bc(g.ndim)) for i in range(g.ndim))
  for fn in ('linear', 'upwind', 'limited'):
    ctx.raises(NotImplementedError, lambda: SCHEMES[fn](u, v, dt),
               'scheme without support for walls')
  return len(set(g.step)) > 1
