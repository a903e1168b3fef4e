"""C20: tendencies of the spectral equations."""
import hypothesis.strategies as st
import jax.numpy as jnp
import numpy as np

from checks.c19 import angular, evaluate, rand_hat
from harness import core, gen
from jax_cfd.base import boundaries
from jax_cfd.base import forcings
from jax_cfd.base import grids
from jax_cfd.spectral import equations
from jax_cfd.spectral import time_stepping
from jax_cfd.spectral import utils

P = core.Property('C20')
LENGTHS = (1.0, 2 * np.pi, 32.0, 0.5, 7.3)
SIZES = (4, 6, 8, 10, 12, 14, 16, 20, 32)


@st.composite
def line_case(draw):
  return dict(n=draw(gen.pick(*SIZES)), L=draw(gen.pick(*LENGTHS)),
              lo=draw(gen.pick(0.0, -1.0, 3.0)), seed=draw(gen.seeds()),
              frac=draw(gen.pick(1.0, 1.0, 0.7, 0.4, 0.0)), smooth=draw(st.booleans()),
              amp=draw(gen.pick(1.0, 0.01, 20.0)), nu=draw(gen.pick(0.0, 0.01, 1.0, 3.7)),
              dt=draw(gen.pick(0.0, 1e-3, 0.1, 2.0)), shift=draw(gen.floats(-1, 1)),
              force=draw(gen.pick('none', 'wave', 'random')), t=draw(gen.pick(0.0, 1.5)))


def line(c):
  return grids.Grid((c['n'],), domain=[(c['lo'], c['lo'] + c['L'])])


def fine_modes(values, count):
  """Amplitudes of modes 0..count-1 of samples on a fine enough grid."""
  return (np.fft.rfft(values) / len(values))[:count]


def linear_laws(eq, hat, symbol, dt, ctx, unwrap=lambda x: x, wrap=lambda x: x):
  """Implicit terms are a symbol times the state; the solve inverts them."""
  x = core.to_np(hat)
  size = np.abs(x).max() + 1e-300
  top = np.abs(symbol).max() + 1e-300
  got = unwrap(eq.implicit_terms(wrap(hat)))
  ctx.close(got, symbol * x, 'linear terms', 1e-11, size * top)
  y = unwrap(eq.implicit_solve(wrap(hat), dt))
  lin = core.to_np(unwrap(eq.implicit_terms(wrap(y))))
  y = core.to_np(y)
  ctx.close(y - dt * lin, x, 'inverse of 1 - dt * linear terms', 1e-10,
            size + dt * top * np.abs(y).max())
  # mode by mode, so that weak modes count too
  denom = 1 - dt * symbol
  ok = np.abs(denom) > 1e-6
  ctx.close(np.where(ok, y * denom, 0), np.where(ok, x, 0), 'implicit solve', 1e-9,
            size * max(1.0, np.abs(denom[ok]).max() * 1e-3 if ok.any() else 1.0))


def real_line(c, ctx, make, rhs, symbol, smooth_limit):
  """Common laws of a real equation on a line; returns whether non-trivial."""
  n = c['n']
  smooth = c.get('smooth', True)
  top = n // 2 - 1
  kmax = int(round(c['frac'] * (top if smooth else max(top // 2, 0))))
  h = rand_hat(np.random.default_rng(c['seed']), n, kmax) * c['amp']
  hat = jnp.asarray(h * n)
  kx = 2 * np.pi * np.arange(n // 2 + 1) / c['L']
  eq = make()
  m = 8 * n
  d = lambda p: evaluate((1j * kx) ** p * h, m)
  want = fine_modes(rhs(d, m), len(h))
  got = core.to_np(make().explicit_terms(hat) if smooth_limit is None
                   else smooth_limit(eq, hat)) / n
  scale = (np.abs(h).sum() * 2 + 1e-300) ** 2 * (kx[kmax] + kx[1])
  ctx.eq(got.shape, h.shape, 'modes of the tendency')
  good = np.arange(len(h)) < (len(h) - 1 if smooth else min(len(h) - 1, n - 2 * kmax))
  return eq, h, hat, kx, got, want, scale, good, kmax


@P.facet(line_case(), quick=100,
         rule='Kuramoto-Sivashinsky: explicit and implicit terms are the terms of '
         'the equation on resolved fields, solve, mean and translation; '
         'non-trivial = some mode above the mean')
def kuramoto_sivashinsky(c, ctx):
  g = line(c)
  eq, h, hat, kx, got, want, scale, good, kmax = real_line(
      c, ctx, lambda: equations.KuramotoSivashinsky(g, smooth=c['smooth']),
      lambda d, m: -d(0) * d(1), None, None)
  ctx.close(got[good], want[good], '-(u^2/2)_x', 1e-11, scale)
  ctx.close(got[0], 0.0, 'mean of u', 1e-13, scale)
  linear_laws(eq, hat, kx ** 2 - kx ** 4, c['dt'], ctx)
  ph = np.exp(1j * kx * c['shift'] * c['L'])
  moved = core.to_np(eq.explicit_terms(jnp.asarray(ph) * hat)) / c['n']
  ctx.close(moved[good], (ph * got)[good], 'translated state', 1e-10, scale)
  # reflection: u(x) -> -u(-x)
  mirror = core.to_np(eq.explicit_terms(-hat.conj())) / c['n']
  ctx.close(mirror[good], -got[good].conj(), 'reflected state', 1e-10, scale)
  ctx.label('smooth' if c['smooth'] else 'plain')
  return kmax > 0


@P.facet(line_case(), quick=100,
         rule='Burgers: advection, viscosity, forcing at the time of the state, '
         'energy and mean; non-trivial = some mode above the mean')
def burgers(c, ctx):
  c['smooth'] = True
  g = line(c)
  n, t = c['n'], c['t']
  x = core.to_np(g.axes(offset=(0.0,))[0])
  seen = []
  def module(grid, seed):
    seen.append((grid == g, seed))
    return lambda t: jnp.asarray(np.cos(2 * np.pi * x / c['L'] + seed) + 0.5) * (1 + t)
  def make():
    if c['force'] == 'none':
      return equations.BurgersEquation(c['nu'], g, seed=5)
    if c['force'] == 'random':
      return equations.ForcedBurgersEquation(c['nu'], g, seed=5)
    return equations.ForcedBurgersEquation(c['nu'], g, seed=5, forcing_module=module)
  eq, h, hat, kx, got, want, scale, good, kmax = real_line(
      c, ctx, make, lambda d, m: -d(0) * d(1), None,
      lambda eq, hat: eq.explicit_terms((hat, t))[0])
  rate = eq.explicit_terms((hat, t))[1]
  slow = eq.implicit_terms((hat, t))[1]
  ctx.close(rate + slow, 1.0, 'rate of change of time', 1e-15)
  ctx.close(eq.implicit_solve((hat, t), c['dt'])[1], t - 0.0 * c['dt'], 'time is not implicit',
            1e-15, 1.0)
  if c['force'] == 'wave':
    ctx.eq(seen[-1], (True, 5), 'arguments of the forcing module')
    f = np.fft.rfft((np.cos(2 * np.pi * x / c['L'] + 5) + 0.5) * (1 + t)) / n
  elif c['force'] == 'random':
    from jax_cfd.spectral import forcings as sf
    f = np.fft.rfft(core.to_np(sf.random_forcing_module(g, 5)(t))) / n
  else:
    f = np.zeros(h.shape, complex)
  scale = scale + np.abs(f).max()
  adv = got - f
  ctx.close(adv[good], want[good], 'advection', 1e-11, scale)
  ctx.close(adv[0], 0.0, 'mean of u', 1e-13, scale)
  ctx.close((np.where(np.arange(len(h)) == 0, 1, 2) * h.conj() * adv).real.sum(), 0.0,
            'energy of inviscid flow', 1e-11, scale * np.abs(h).sum() + 1e-300)
  linear_laws(eq, hat, -c['nu'] * kx ** 2, c['dt'], ctx, lambda s: s[0],
              lambda x: (x, t))
  ctx.label(c['force'])
  return kmax > 0


@P.facet(line_case(), quick=100,
         rule='nonlinear Schroedinger: cubic and dispersive terms, mass, phase '
         'rotation and translation; non-trivial = some mode above the mean')
def schroedinger(c, ctx):
  n = c['n']
  g = line(c)
  smooth = c['smooth']
  top = n // 2 - 1
  kmax = int(round(c['frac'] * (top if smooth else top // 2)))
  h = rand_hat(np.random.default_rng(c['seed']), n, kmax, False) * min(c['amp'], 2.0)
  hat = jnp.asarray(h * n)
  eq = equations.NonlinearSchrodinger(g, smooth=smooth)
  k = np.fft.fftfreq(n, 1 / n)
  kx = 2 * np.pi * k / c['L']
  psi = evaluate(h, 8 * n, False)
  full = np.fft.fft(-0.5j * np.abs(psi) ** 2 * psi) / len(psi)
  want = full[k.astype(int) % len(psi)]
  got = core.to_np(eq.explicit_terms(hat)) / n
  scale = np.abs(h).sum() ** 3 + 1e-300
  good = np.abs(k) < (n // 2 if smooth else min(n // 2, n - 3 * kmax))
  ctx.eq(got.shape, h.shape, 'modes of the tendency')
  ctx.close(got[good], want[good], '-i |psi|^2 psi / 2', 1e-11, scale)
  symbol = 1j * kx ** 2 / 8
  linear_laws(eq, hat, symbol, c['dt'], ctx)
  lin = core.to_np(eq.implicit_terms(hat)) / n
  ctx.close((h.conj() * lin).real.sum(), 0.0, 'mass (linear)', 1e-12,
            np.abs(h).sum() ** 2 * (np.abs(symbol).max()) + 1e-300)
  if smooth:
    ctx.close((h.conj() * got).real.sum(), 0.0, 'mass (nonlinear)', 1e-11,
              scale * np.abs(h).sum())
  rot = np.exp(2j * np.pi * c['shift'])
  ctx.close(core.to_np(eq.explicit_terms(rot * hat)) / n, rot * got, 'rotated phase',
            1e-11, scale)
  ph = np.exp(1j * kx * c['shift'] * c['L'])
  moved = core.to_np(eq.explicit_terms(jnp.asarray(ph) * hat)) / n
  ctx.close(moved[good], (ph * got)[good], 'translated state', 1e-10, scale)
  ctx.label('smooth' if smooth else 'plain')
  return kmax > 0


@P.facet(gen.dct(n=gen.pick(3, 5, 7, 9)), quick=4, rule='odd sizes; all non-trivial')
def odd_sizes(c, ctx):
  ctx.raises(AssertionError,
             lambda: equations.NonlinearSchrodinger(grids.Grid((c['n'],))),
             'odd sizes are not supported')
  return True


@st.composite
def flow_case(draw):
  return dict(n=[draw(gen.pick(4, 6, 8, 12, 16)) for _ in range(2)],
              L=[draw(gen.pick(1.0, 2 * np.pi, 0.3, 5.0, 40.0)) for _ in range(2)],
              lo=draw(gen.pick(0.0, -1.0)), seed=draw(gen.seeds()),
              frac=[draw(gen.pick(1.0, 1.0, 0.5)) for _ in range(2)],
              amp=draw(gen.pick(1.0, 10.0, 0.01)), nu=draw(gen.pick(0.0, 1e-3, 1.0)),
              drag=draw(gen.pick(0.0, 0.1, 2.0)), dt=draw(gen.pick(0.0, 1e-3, 0.1, 2.0)),
              smooth=draw(st.booleans()),
              force=draw(gen.pick('none', 'none', 'noise', 'velocity', 'kolmogorov')),
              shift=[draw(gen.ints(-5, 5)) for _ in range(2)])


def wave_numbers(n):
  return (np.fft.fftfreq(n[0], 1 / n[0])[:, None] + 0 * np.arange(n[1] // 2 + 1),
          np.arange(n[1] // 2 + 1)[None] + 0 * np.arange(n[0])[:, None])


def band(c, g):
  """Random vorticity below a third of the resolution; returns samples, limits."""
  n = c['n']
  top = [(m - 1) // 3 for m in n]
  K = [int(round(f * t)) for f, t in zip(c['frac'], top)]
  px, py = wave_numbers(n)
  keep = (np.abs(px) <= K[0]) & (py <= K[1])
  keep[0, 0] = False
  w = np.fft.irfft2(keep * np.fft.rfft2(np.random.default_rng(c['seed'])
                                        .standard_normal(n)), n) * c['amp']
  return w, K


def refine(hat, n, r):
  """Samples on an r times finer grid of a band-limited field."""
  N = [r * m for m in n]
  out = np.zeros((N[0], N[1] // 2 + 1), complex)
  px = np.rint(np.fft.fftfreq(n[0], 1 / n[0])).astype(int)
  for i, p in enumerate(px):
    if 2 * abs(p) < n[0]:
      out[p % N[0], :n[1] // 2] = hat[i, :n[1] // 2]
  return np.fft.irfft2(out * r * r, N)


def coarsen(f, n):
  """Amplitudes, as of a transform of size n, of the fine samples f."""
  hat = np.fft.rfft2(f) * (n[0] * n[1] / f.size)
  px = np.rint(np.fft.fftfreq(n[0], 1 / n[0])).astype(int)
  return hat[px % f.shape[0], :][:, :n[1] // 2 + 1]


@P.facet(flow_case(), quick=120,
         rule='vorticity equation: advection, filter, viscosity, drag, curl of the '
         'forcing, energy and enstrophy, translation; non-trivial = moving flow')
def vorticity(c, ctx):
  n, L = c['n'], c['L']
  if c['force'] == 'kolmogorov':
    L = c['L'] = [L[0], 2 * np.pi]
  g = grids.Grid(tuple(n), domain=[(c['lo'], c['lo'] + x) for x in L])
  w, K = band(c, g)
  hat = np.fft.rfft2(w)
  kx, ky = angular(c)
  k2 = kx ** 2 + ky ** 2
  k2i = k2.copy()
  k2i[0, 0] = 1
  uhat, vhat = 1j * ky * hat / k2i, -1j * kx * hat / k2i
  fine = lambda h: refine(h, n, 4)
  adv = coarsen(-(fine(uhat) * fine(1j * kx * hat) + fine(vhat) * fine(1j * ky * hat)), n)
  noise = [gen.arr(dict(kind='noise', seed=c['seed'] + i, amp=1.0), n) for i in range(2)]
  def forcing(grid):
    ctx.true(grid == g, 'grid of the forcing')
    def fn(v):
      out = []
      for a, u, b in zip(noise, v, (0.5, -2.0)):
        d = jnp.asarray(a) if c['force'] == 'noise' else b * u.data
        out.append(grids.GridArray(d, (0.0, 0.0), grid))
      return tuple(out)
    return fn
  force = np.zeros(hat.shape, complex)
  if c['force'] == 'noise':
    f = [np.fft.rfft2(a) for a in noise]
    force = 1j * (kx * f[1] - ky * f[0])
  elif c['force'] == 'velocity':
    force = 1j * (kx * -2.0 * vhat - ky * 0.5 * uhat)
  elif c['force'] == 'kolmogorov':
    y = core.to_np(g.mesh((0, 0))[1])
    force = -1j * ky * np.fft.rfft2(np.sin(4 * y))
  visc, drag = c['nu'], c['drag']
  if c['force'] == 'kolmogorov':
    eq = equations.ForcedNavierStokes2D(visc, g, c['smooth'])
    drag = 0.1
  else:
    eq = equations.NavierStokes2D(visc, g, drag=drag, smooth=c['smooth'],
                                  forcing_fn=None if c['force'] == 'none' else forcing)
  x = jnp.asarray(hat)
  got = core.to_np(eq.explicit_terms(x)) - force
  mask = core.to_np(utils.brick_wall_filter_2d(g)) if c['smooth'] else np.ones(hat.shape)
  px, py = wave_numbers(n)
  good = ((np.abs(px) < min(n[0] / 2, n[0] - 2 * K[0]))
          & (py < min(n[1] / 2, n[1] - 2 * K[1])))
  kmax = np.sqrt(k2.max())
  size = (np.abs(uhat).sum() + np.abs(vhat).sum()) * np.abs(hat).sum() * kmax / w.size
  size = size * 4 + np.abs(force).max() + 1e-300
  ctx.eq(got.shape, hat.shape, 'modes of the tendency')
  ctx.close(got[good], (mask * adv)[good], 'advection and forcing', 1e-11, size)
  if c['smooth']:
    ctx.close(got[mask == 0], np.zeros((mask == 0).sum()), 'removed modes', 1e-11, size)
  linear_laws(eq, x, -visc * k2 - drag, c['dt'], ctx)
  # exact invariants of the inviscid, unforced flow
  back = np.fft.irfft2(got, n)
  psi = np.fft.irfft2(hat / k2i, n)
  ctx.close(got[0, 0], 0.0, 'mean vorticity', 1e-12, size)
  ctx.close((w * back).mean(), 0.0, 'enstrophy', 1e-11,
            (np.abs(w).max() + 1e-300) * size)
  ctx.close((psi * back).mean(), 0.0, 'energy', 1e-11,
            (np.abs(psi).max() + 1e-300) * size)
  if c['force'] == 'none':
    moved = core.to_np(eq.explicit_terms(jnp.asarray(
        np.fft.rfft2(np.roll(w, c['shift'], (0, 1))))))
    ctx.close(np.fft.irfft2(moved, n), np.roll(back, c['shift'], (0, 1)),
              'translated flow', 1e-11, size)
  ctx.label(c['force'])
  ctx.label('smooth' if c['smooth'] else 'plain')
  return bool(np.abs(adv[good]).max() > 1e-9 * size)


@st.composite
def run_case(draw):
  return dict(which=draw(gen.pick('ks', 'burgers', 'vorticity', 'nls')),
              scheme=draw(gen.pick('euler', 'rk2', 'rk3', 'rk4', 'sil3')),
              n=draw(gen.pick(8, 12, 16)), m=draw(gen.pick(8, 12)),
              L=draw(gen.pick(1.0, 2 * np.pi, 20.0)), seed=draw(gen.seeds()),
              smooth=draw(st.booleans()), nu=draw(gen.pick(0.0, 0.1)),
              dt=draw(gen.pick(1e-3, 1e-2)), steps=draw(gen.ints(1, 6)),
              shift=draw(gen.ints(-5, 5)))


SCHEMES = {'euler': time_stepping.backward_forward_euler,
           'rk2': time_stepping.crank_nicolson_rk2,
           'rk3': time_stepping.crank_nicolson_rk3,
           'rk4': time_stepping.crank_nicolson_rk4,
           'sil3': time_stepping.imex_rk_sil3}


@P.facet(run_case(), quick=50,
         rule='trajectories: the mean never changes, the clock advances by the '
         'step, translated starts stay translated; non-trivial = state changed')
def trajectories(c, ctx):
  n, m, steps = c['n'], c['m'], c['steps']
  rng = np.random.default_rng(c['seed'])
  if c['which'] == 'vorticity':
    g = grids.Grid((n, m), domain=[(0, c['L']), (0, 2 * np.pi)])
    eq = equations.NavierStokes2D(c['nu'], g, smooth=c['smooth'])
    w = rng.standard_normal((n, m))
    fwd, inv = np.fft.rfft2, lambda h: np.fft.irfft2(h, (n, m))
    wrap = unwrap = lambda x: x
  else:
    g = grids.Grid((n,), domain=[(0, c['L'])])
    # the mode at the edge of the spectrum is ambiguous: leave it out
    w = evaluate(rand_hat(rng, n, n // 2 - 1), n)
    fwd, inv = np.fft.rfft, lambda h: np.fft.irfft(h, n)
    wrap = unwrap = lambda x: x
    if c['which'] == 'ks':
      eq = equations.KuramotoSivashinsky(g, smooth=c['smooth'])
    elif c['which'] == 'burgers':
      eq = equations.BurgersEquation(c['nu'], g)
      wrap, unwrap = lambda x: (x, 0.0), lambda s: s[0]
    else:
      eq = equations.NonlinearSchrodinger(g, smooth=c['smooth'])
      w = evaluate(rand_hat(rng, n, n // 2 - 1, False), n, False)
      fwd, inv = np.fft.fft, np.fft.ifft
  # small steps of weak fields stay within the stability limit
  dt = c['dt'] * 0.1
  step = SCHEMES[c['scheme']](eq, dt)
  w = w * 0.1
  moved = np.roll(w, c['shift'], 0)
  a, b = wrap(jnp.asarray(fwd(w))), wrap(jnp.asarray(fwd(moved)))
  edge = 0.0
  for _ in range(steps):
    a, b = step(a), step(b)
    if c['which'] != 'vorticity':
      edge = max(edge, np.abs(core.to_np(unwrap(a))[n // 2]) / n)
  if c['which'] == 'burgers':
    ctx.close(a[1], steps * dt, 'clock', 1e-8)
  x, y = inv(core.to_np(unwrap(a))), inv(core.to_np(unwrap(b)))
  scale = np.abs(x).max() + np.abs(w).max()
  if not np.isfinite(scale) or scale > 100:
    raise core.Discard
  if 10 * edge > 0.1 * scale:
    raise core.Discard
  if c['which'] != 'nls':
    ctx.close(x.mean(), w.mean(), 'mean', 1e-10, scale)
  # products of the mode at the edge of the spectrum with itself alias
  slack = steps * dt * np.pi * n / c['L'] * (10 * edge) ** 2
  ctx.close(y, np.roll(x, c['shift'], 0), 'translated trajectory', 1e-8,
            scale + slack * 1e8)
  ctx.label(c['which'])
  ctx.label(c['scheme'])
  return bool(np.abs(x - w).max() > 1e-12)
