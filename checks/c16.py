"""C16: initial conditions and the reference vortex problem."""
import hypothesis.strategies as st
import jax
import jax.numpy as jnp
import numpy as np

from checks import c10
from harness import core, gen
from jax_cfd.base import advection
from jax_cfd.base import boundaries
from jax_cfd.base import equations
from jax_cfd.base import grids
from jax_cfd.base import initial_conditions as ic
from jax_cfd.base import pressure
from jax_cfd.base import time_stepping
from jax_cfd.base import validation_problems

P = core.Property('C16')
POOL = {2: [(8, 6), (5, 7), (8, 8)], 3: [(4, 5, 6)]}


def divergence(arrs, g):
  return c10.np_divergence(arrs, dict(wall=[False] * g.ndim), g)


@st.composite
def random_case(draw):
  return dict(g=draw(gen.grid((2, 3), POOL)), key=draw(gen.seeds()),
              vmax=draw(gen.pick(1.0, 0.01, 7.0, 300.0)),
              peak=draw(gen.pick(1.0, 2.0, 3.0, 6.0)),
              ratio=draw(gen.pick(1.3, 2.0)), iters=draw(gen.pick(2, 3, 4)),
              eager=draw(gen.pick(False, False, False, True)))


@P.facet(random_case(), quick=24, thorough=150, shards=2,
         rule='random velocities: solenoidal, of the requested speed, without mean '
         'flow, reproducible, and shaped by the peak wavenumber; all non-trivial')
def random_velocity(c, ctx):
  g = gen.mk_grid(c['g'])
  d = g.ndim
  fn = jax.jit(lambda key, vmax, peak: ic.filtered_velocity_field(
      key, g, vmax, peak, c['iters']))
  make = lambda key=c['key'], vmax=c['vmax'], peak=c['peak']: fn(
      jax.random.PRNGKey(key), vmax, peak)
  if c['eager']:
    fn = lambda key, vmax, peak: ic.filtered_velocity_field(
        key, g, vmax, peak, c['iters'])
  v = make()
  ctx.eq(len(v), d, 'components')
  for i, u in enumerate(v):
    ctx.eq(tuple(u.offset), gen.face_offset(d, i), 'offset')
    ctx.true(u.grid == g and u.bc == gen.periodic_bc(d), 'grid and boundary conditions')
  arrs = [core.to_np(u.data) for u in v]
  for a in arrs:
    ctx.finite(a, 'values')
  speed = np.sqrt(sum(a ** 2 for a in arrs)).max()
  ctx.close(speed, c['vmax'], 'maximum speed', 1e-9)
  ctx.close(divergence(arrs, g), np.zeros(g.shape), 'divergence', 1e-9,
            c['vmax'] * sum(1 / h for h in g.step))
  for a in arrs:
    ctx.close(a.mean(), 0.0, 'no mean flow', 1e-9, c['vmax'])
  for a, b in zip(arrs, make()):
    ctx.close(b.data, a, 'same key, same field', 0.0, 1.0)
  other = make(key=c['key'] + 1)
  ctx.true(max(np.abs(core.to_np(b.data) - a).max() for a, b in zip(arrs, other))
           > 1e-3 * c['vmax'], 'another key gives another field')
  for a, b in zip(arrs, make(vmax=2 * c['vmax'])):
    ctx.close(b.data, 2 * a, 'proportional to the requested speed', 1e-9, 2 * c['vmax'])
  # raising the peak wavenumber multiplies each mode by a factor that depends on
  # |k| only, and increases with it
  k2 = sum(np.meshgrid(*[(2 * np.pi * np.fft.fftfreq(n, h)) ** 2 for n, h in
                         zip(g.shape, g.step)], indexing='ij'))
  k = np.sqrt(k2).ravel()
  hi = make(peak=c['peak'] * c['ratio'])
  order = np.argsort(k)
  for a, b in zip(arrs, hi):
    fa = np.abs(np.fft.fftn(a)).ravel()[order]
    fb = np.abs(np.fft.fftn(core.to_np(b.data))).ravel()[order]
    ok = (fa > 1e-7 * fa.max()) & (fb > 1e-7 * fb.max())
    r = np.log(fb[ok]) - np.log(fa[ok])
    ks = k[order][ok]
    ctx.le(np.maximum.accumulate(r) - r, 0.0, 'higher peak, higher wavenumbers', 1e-4)
    same = np.diff(ks) < 1e-9 * ks[-1]
    ctx.close(np.where(same, np.diff(r), 0), np.zeros(len(r) - 1),
              'isotropic shape of the spectrum', 1e-4, 1.0)
    apart = np.diff(ks) > 1e-3 * ks[-1]
    ctx.true((np.diff(r)[apart] > 0).all(), 'strictly increasing factor')
  return True


@P.facet(gen.dct(key=gen.seeds(), peak=gen.floats(2, 7), d=gen.pick(2, 2, 2, 3),
                 L=gen.pick(1.0, 2.0, 0.5)), quick=10,
         rule='spectrum of a random field, fitted over all modes, peaks at the '
         'requested wavenumber; all non-trivial')
def spectrum_peak(c, ctx):
  d = c['d']
  n = 48 if d == 2 else 16
  L = 2 * np.pi * c['L']
  g = grids.Grid((n,) * d, domain=[(0, L)] * d)
  peak = c['peak'] / c['L']
  v = ic.filtered_velocity_field(jax.random.PRNGKey(c['key']), g, 1.0, peak)
  amp = sum(np.abs(np.fft.fftn(core.to_np(u.data))) ** 2 for u in v) ** 0.5
  f = [2 * np.pi * np.fft.fftfreq(n, L / n)] * d
  k = np.sqrt(sum(m ** 2 for m in np.meshgrid(*f, indexing='ij')))
  ok = (k > 0) & (k < np.pi * n / L) & (amp > 1e-9 * amp.max())
  x = np.log(k[ok])
  y = np.log(amp[ok]) + (d - 1) * x
  a, b, _ = np.polyfit(x, y, 2)
  ctx.true(a < 0, 'spectrum decays on both sides of its peak')
  got = np.exp(-b / (2 * a))
  ctx.le(abs(np.log(got / peak)), 0.0, f'peak at {got} instead of {peak}', 0.17)
  return True


@st.composite
def function_case(draw):
  g = draw(gen.grid((2, 3), {2: [(4, 3), (3, 6)], 3: [(3, 4, 2)]}))
  d = len(g['shape'])
  wall = [draw(gen.pick(False, True)) for _ in range(d)]
  return dict(g=g, wall=wall, default_bc=draw(st.booleans()),
              iters=draw(gen.pick(None, 0, 1, 2)), coefs=draw(gen.seeds()),
              fast=draw(st.booleans()))


@P.facet(function_case(), quick=60, shards=2,
         rule='velocities from functions are the samples at the faces, projected the '
         'requested number of times; all non-trivial')
def from_functions(c, ctx):
  g = gen.mk_grid(c['g'])
  d = g.ndim
  wall = [False] * d if c['default_bc'] else c['wall']
  rng = np.random.default_rng(c['coefs'])
  co = rng.standard_normal((d, d + 1))
  mk = lambda w, xp: lambda *xs: xp.sin(sum(a * x for a, x in zip(w, xs)) + w[-1])
  bcs = [dict(types=[['dirichlet'] * 2 if w else ['periodic'] * 2 for w in wall],
              values=[[0.0, 0.0]] * d) for _ in range(d)]
  kw = {}
  if not c['default_bc']:
    kw['velocity_bc'] = tuple(gen.mk_bc(b) for b in bcs)
  if c['fast']:
    kw['pressure_solve'] = pressure.solve_fast_diag
  v = ic.initial_velocity_field(tuple(mk(w, jnp) for w in co), g,
                                iterations=c['iters'], **kw)
  arrs = []
  for i in range(d):
    off = gen.face_offset(d, i)
    axes = [lo + h * (np.arange(n) + o) for (lo, _), h, n, o in
            zip(g.domain, g.step, g.shape, off)]
    arrs.append(mk(co[i], np)(*np.meshgrid(*axes, indexing='ij')))
  if c['iters']:
    arrs = [gen.imposed(a, dict(g=c['g'], off=list(gen.face_offset(d, i)), bc=bcs[i]))
            for i, a in enumerate(arrs)]
    case = dict(g=c['g'], wall=wall, bcs=bcs, normal=[0.0] * d)
    arrs = c10.reference(case, g, arrs)[0]
  for i, u in enumerate(v):
    got = core.to_np(u.data)
    want = arrs[i]
    if wall[i]:  # the value stored on the wall may be imposed or not
      sl = [slice(None)] * d
      sl[i] = slice(0, -1)
      got, want = got[tuple(sl)], want[tuple(sl)]
    ctx.close(got, want, f'component {i}', 1e-9, 1.0 + 20 * float(np.abs(co).max()))
    ctx.eq(tuple(u.offset), gen.face_offset(d, i), 'offset')
    ctx.true(u.bc == (gen.periodic_bc(d) if c['default_bc'] else gen.mk_bc(bcs[i])),
             'boundary conditions')
  return True


@st.composite
def wrap_case(draw):
  g = draw(gen.grid((1, 2, 3)))
  d = len(g['shape'])
  bcs = [draw(gen.bc(d, ('periodic', 'dirichlet'))) for _ in range(d)]
  offs = [[draw(gen.pick(0.0, 0.5, 1.0)) for _ in range(d)] for _ in range(d)]
  return dict(g=g, bcs=bcs, offs=draw(st.sampled_from([None, offs])),
              batch=draw(gen.pick(0, 0, 1, 3)), fs=[draw(gen.field()) for _ in range(d)])


@P.facet(wrap_case(), quick=80,
         rule='wrapping arrays attaches offsets, grid and boundary values, also in '
         'batches; non-trivial = non-constant data')
def wrapping(c, ctx):
  g = gen.mk_grid(c['g'])
  d = g.ndim
  offs = ([tuple(o) for o in c['offs']] if c['offs'] else
          [gen.face_offset(d, i) for i in range(d)])
  lead = (c['batch'],) if c['batch'] else ()
  arrs = [gen.arr(f, lead + g.shape) for f in c['fs']]
  kw = dict(offsets=offs) if c['offs'] else {}
  if c['batch']:
    kw['batch_dim'] = True
  out = ic.wrap_variables(tuple(jnp.asarray(a) for a in arrs), g,
                          [gen.mk_bc(b) for b in c['bcs']], **kw)
  ctx.eq(len(out), d, 'components')
  for a, o, b, u in zip(arrs, offs, c['bcs'], out):
    k = dict(g=c['g'], off=list(o), bc=b)
    want = (np.stack([gen.imposed(x, k) for x in a]) if c['batch']
            else gen.imposed(a, k))
    ctx.close(u.data, want, 'values', 0.0, 1.0)
    ctx.eq(tuple(u.offset), o, 'offset')
    ctx.true(u.grid == g and u.bc == gen.mk_bc(b), 'grid and boundary conditions')
  return any(gen.nonconstant(a) for a in arrs)


@st.composite
def tg_case(draw):
  kx = draw(gen.pick(1, 2, 3, -1))
  return dict(shape=draw(gen.pick([8, 8], [9, 12], [16, 8])), kx=kx,
              ky=draw(gen.pick(kx, 1, 2, 3)), nu=draw(gen.pick(0.0, 0.1, 1.5)),
              t=draw(gen.floats(0, 2)), t2=draw(gen.floats(0, 1)),
              offs=draw(gen.pick('faces', 'center', 'node')),
              rho=draw(gen.pick(1.0, 2.5)))


@P.facet(tg_case(), quick=120,
         rule='the vortex problem is a solenoidal flow of the stated form that '
         'decays at its viscous rate; all non-trivial')
def taylor_green(c, ctx):
  prob = validation_problems.TaylorGreen(tuple(c['shape']), c['rho'], c['nu'],
                                         c['kx'], c['ky'])
  g = prob.grid
  ctx.eq(tuple(g.shape), tuple(c['shape']), 'grid shape')
  ctx.close(np.array(g.domain), np.array([[0, 2 * np.pi]] * 2), 'domain', 1e-15)
  ctx.eq((prob.density, prob.viscosity), (c['rho'], c['nu']), 'parameters')
  ctx.true(prob.force() is None, 'no force')
  offs = {'faces': None, 'center': ((0.5, 0.5),) * 2,
          'node': ((1.0, 1.0), (0.0, 1.0))}[c['offs']]
  v = prob.velocity(c['t'], offs) if offs else prob.velocity(c['t'])
  offs = offs or ((1.0, 0.5), (0.5, 1.0))
  scale = np.exp(-(c['kx'] ** 2 + c['ky'] ** 2) * c['nu'] * c['t'])
  mesh = lambda o: np.meshgrid(*[2 * np.pi * (np.arange(n) + f) / n for n, f in
                                 zip(g.shape, o)], indexing='ij')
  x, y = mesh(offs[0])
  u_shape = c['ky'] * np.cos(c['kx'] * x) * np.sin(c['ky'] * y)
  x, y = mesh(offs[1])
  v_shape = -c['kx'] * np.sin(c['kx'] * x) * np.cos(c['ky'] * y)
  got = [core.to_np(a.data) for a in v]
  # one amplitude for both components: stream function cos(kx x) cos(ky y)
  both = np.concatenate([u_shape.ravel(), v_shape.ravel()])
  data = np.concatenate([a.ravel() for a in got])
  amp = float(data @ both / (both @ both))
  ctx.close(data, amp * both, 'form of the flow', 1e-11, abs(amp) * 3 + scale)
  if c['kx'] == c['ky']:
    ctx.close(amp * c['kx'], scale, 'unit initial amplitude', 1e-11)
  later = prob.velocity(c['t'] + c['t2'], offs)
  rate = np.exp(-(c['kx'] ** 2 + c['ky'] ** 2) * c['nu'] * c['t2'])
  for a, b, o in zip(got, later, offs):
    ctx.close(b.data, a * rate, 'viscous decay', 1e-11, scale * 3)
    ctx.eq(tuple(b.offset), o, 'offset')
    ctx.true(b.bc == gen.periodic_bc(2), 'periodic')
  return True


@P.facet(gen.dct(n=gen.pick(8, 12), k=gen.pick(1, 2), nu=gen.floats(0.01, 0.3),
                 rho=gen.pick(1.0, 2.0), steps=gen.ints(1, 4),
                 implicit=st.booleans()), quick=24,
         rule='the solver decays the vortices at the rate of the discrete Laplacian, '
         'which approaches the analytic one; all non-trivial')
def solver_decay(c, ctx):
  prob = validation_problems.TaylorGreen((c['n'],) * 2, c['rho'], c['nu'] * c['rho'],
                                         c['k'], c['k'])
  g = prob.grid
  h = g.step[0]
  dt = 0.1 * h
  lam = 2 * 4 / h ** 2 * np.sin(c['k'] * h / 2) ** 2  # discrete Laplacian
  make = (equations.implicit_diffusion_navier_stokes if c['implicit']
          else equations.semi_implicit_navier_stokes)
  kw = {} if c['implicit'] else dict(time_stepper=time_stepping.forward_euler)
  step = jax.jit(make(density=prob.density, viscosity=prob.viscosity, dt=dt, grid=g,
                      convect=advection.convect_linear, **kw))
  v0 = v = prob.velocity()
  for _ in range(c['steps']):
    v = step(v)
  x = dt * c['nu'] * lam
  factor = (1 / (1 + x) if c['implicit'] else 1 - x) ** c['steps']
  for a, b in zip(v0, v):
    ctx.close(b.data, factor * core.to_np(a.data), 'decay', 1e-8, 1.0)
  exact = 2 * c['k'] ** 2
  ctx.le(abs(lam / exact - 1), (c['k'] * h) ** 2 / 10, 'discrete rate')
  return True
