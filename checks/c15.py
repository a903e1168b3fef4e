"""C15: forcing and filtering."""
import functools

import hypothesis.strategies as st
import jax.numpy as jnp
import numpy as np

from harness import core, gen
from jax_cfd.base import filter_utils
from jax_cfd.base import forcings
from jax_cfd.base import grids
from jax_cfd.ml import forcings as ml_forcings
from jax_cfd.spectral import forcings as spectral_forcings

P = core.Property('C15')
POOL = {2: [(4, 4), (3, 5), (6, 4)], 3: [(3, 4, 2), (4, 3, 5)]}
PI2 = 2 * np.pi


def velocity(c, g, offs=None):
  d = g.ndim
  offs = offs or [gen.face_offset(d, i) for i in range(d)]
  arrs = [gen.arr(f, g.shape) for f in c['vs'][:d]]
  return arrs, tuple(gen.gvar(a, o, g, gen.periodic_bc(d))
                     for a, o in zip(arrs, offs))


def points(c, off):
  """Coordinates of the values of an array with the given offset."""
  axes = [lo + (hi - lo) * (np.arange(n) + o) / n for (lo, hi), n, o in
          zip(c['g']['domain'], c['g']['shape'], off)]
  return np.meshgrid(*axes, indexing='ij')


@st.composite
def closed_case(draw):
  g = draw(gen.grid((2, 3), POOL))
  d = len(g['shape'])
  offs = [[draw(gen.pick(0.0, 0.5, 1.0)) for _ in range(d)] for _ in range(d)]
  return dict(g=g, offs=draw(st.sampled_from([None, offs])),
              vs=[draw(gen.field()) for _ in range(d)],
              which=draw(gen.pick('kolmogorov', 'kolmogorov', 'swapped',
                                  'taylor_green', 'linear', 'none', 'sum', 'simple')),
              api=draw(gen.pick('base', 'base', 'ml')),
              scale=draw(gen.floats(-3, 3)), k=draw(gen.ints(0, 6)),
              coef=draw(gen.pick(0.0, -0.1, 2.0)),
              coef2=draw(gen.floats(-2, 2)),
              type=draw(gen.pick('kolmogorov', 'taylor_green')))


def wave(c, swap, offs):
  """sin(k y) along x (or sin(k x) along y), at the points of the component."""
  d = len(c['g']['shape'])
  comp = 1 if swap else 0
  out = [np.zeros(c['g']['shape']) for _ in range(d)]
  out[comp] = c['scale'] * np.sin(c['k'] * points(c, offs[comp])[1 - comp])
  return out


def vortices(c, offs):
  """Taylor-Green cells: k periods along x and y."""
  g = c['g']
  d = len(g['shape'])
  idx = lambda off: [PI2 * (m.astype(float) + o) / n for m, o, n in zip(
      np.meshgrid(*[np.arange(n) for n in g['shape']], indexing='ij'), off, g['shape'])]
  k = c['k']
  x, y = idx(offs[0])[:2]
  u = c['scale'] * np.cos(k * x) * np.sin(k * y)
  x, y = idx(offs[1])[:2]
  v = -c['scale'] * np.sin(k * x) * np.cos(k * y)
  return [u, v] + [np.zeros(g['shape'])] * (d - 2)


@P.facet(closed_case(), quick=200, shards=2,
         rule='each force against its formula at the points of its component, for '
         'every grid, offset and parameter, through both interfaces; non-trivial = '
         'force not identically zero')
def closed_forms(c, ctx):
  g = gen.mk_grid(c['g'])
  d = g.ndim
  which, s, k = c['which'], c['scale'], c['k']
  faces = [gen.face_offset(d, i) for i in range(d)]
  offs = faces
  if c['offs'] is not None and which in ('kolmogorov', 'swapped'):
    offs = [tuple(o) for o in c['offs']]
  arrs, v = velocity(c, g, offs)
  kw = {}
  if c['offs'] is not None and which in ('kolmogorov', 'swapped'):
    kw = dict(offsets=tuple(offs))
  lin = [c['coef'] * a for a in arrs]
  add = lambda *xs: [sum(t) for t in zip(*xs)]
  if c['api'] == 'ml' and which in ('kolmogorov', 'swapped', 'taylor_green'):
    if which == 'taylor_green':
      fn = ml_forcings.taylor_green_forcing(g, s, k, c['coef'])
      want = add(vortices(c, offs), lin)
    else:
      swap = which == 'swapped'
      fn = ml_forcings.kolmogorov_forcing(g, s, k, c['coef'], swap, **kw)
      want = add(wave(c, swap, offs), lin)
  elif which in ('kolmogorov', 'swapped'):
    swap = which == 'swapped'
    fn = forcings.kolmogorov_forcing(g, s, k, swap, **kw)
    want = wave(c, swap, offs)
  elif which == 'taylor_green':
    fn = forcings.taylor_green_forcing(g, s, k)
    want = vortices(c, offs)
  elif which == 'linear':
    fn = (ml_forcings.linear_forcing(g, s) if c['api'] == 'ml'
          else forcings.linear_forcing(g, s))
    want = [s * a for a in arrs]
  elif which == 'none':
    fn = (ml_forcings if c['api'] == 'ml' else forcings).no_forcing(g)
    want = [0 * a for a in arrs]
  elif which == 'sum':
    mod = ml_forcings if c['api'] == 'ml' else forcings
    fn = mod.sum_forcings(forcings.linear_forcing(g, c['coef']),
                          forcings.taylor_green_forcing(g, s, k),
                          forcings.linear_forcing(g, c['coef2']))
    want = add(lin, vortices(c, offs), [c['coef2'] * a for a in arrs])
  else:
    fn = forcings.simple_turbulence_forcing(g, s, k, c['coef'], c['type'])
    want = add(lin, wave(c, False, offs) if c['type'] == 'kolmogorov'
               else vortices(c, offs))
    ctx.raises(ValueError, lambda: forcings.simple_turbulence_forcing(
        g, s, k, c['coef'], 'no such force'), 'unknown force type')
  got = fn(v)
  ctx.eq(len(got), d, 'components')
  amp = max(1.0, *[np.abs(w).max() for w in want])
  for i, f in enumerate(got):
    ctx.eq(tuple(f.offset), tuple(offs[i]), f'offset of component {i}')
    ctx.true(f.grid == g, 'grid')
    # rounding of the coordinates is amplified by the wavenumber
    ctx.close(f.data, want[i], f'component {i}', 1e-12, amp * (1 + k * 20))
  ctx.label(which)
  return any(np.abs(w).max() > 1e-9 for w in want)


# ---- filters ----------------------------------------------------------------


def dft_apply(a, density, lengths):
  """Multiplies each mode of `a` by density(|k|); explicit DFT matrices."""
  hat = a.astype(complex)
  for ax, n in enumerate(a.shape):
    m = np.exp(-2j * np.pi * np.outer(np.arange(n), np.arange(n)) / n)
    hat = np.moveaxis(np.tensordot(m, hat, axes=(1, ax)), 0, ax)
  k2 = np.zeros(a.shape)
  for ax, n in enumerate(a.shape):
    f = np.arange(n)
    f = np.where(f > n // 2, f - n, f)
    sl = [1] * a.ndim
    sl[ax] = n
    k2 = k2 + (2 * np.pi * f.reshape(sl) / lengths[ax]) ** 2
  k = np.sqrt(k2)
  w = np.zeros(a.shape)
  nz = k > 0
  w[nz] = density(k[nz])
  hat = hat * w
  for ax, n in enumerate(a.shape):
    m = np.exp(2j * np.pi * np.outer(np.arange(n), np.arange(n)) / n) / n
    hat = np.moveaxis(np.tensordot(m, hat, axes=(1, ax)), 0, ax)
  return hat.real, k, w


DENSITIES = {
    'gauss': lambda p: lambda k, xp=np: xp.exp(-(k * p) ** 2),
    'power': lambda p: lambda k, xp=np: (p + k) ** -2.0,
    'singular': lambda p: lambda k, xp=np: 1 / k,
    'wave': lambda p: lambda k, xp=np: xp.sin(p * k),
}


@st.composite
def filter_case(draw):
  g = draw(gen.grid((1, 2, 3), {1: [(5,), (8,), (1,)], 2: [(4, 4), (3, 5), (6, 4)],
                                3: [(3, 4, 2)]}))
  d = len(g['shape'])
  return dict(g=g, fs=[draw(gen.field()), draw(gen.field())],
              density=draw(st.sampled_from(sorted(DENSITIES))),
              p=draw(gen.pick(0.1, 0.5, 1.0)),
              roll=[draw(gen.ints(-3, 3)) for _ in range(d)],
              a=draw(gen.floats(-2, 2)))


@P.facet(filter_case(), quick=150, shards=2,
         rule='wavenumber filters against explicit DFT sums, linear and translation '
         'invariant, mean removed; non-trivial = non-constant field')
def filters(c, ctx):
  g = gen.mk_grid(c['g'])
  lengths = [hi - lo for lo, hi in c['g']['domain']]
  a, b = [gen.arr(f, g.shape) for f in c['fs']]
  dens = DENSITIES[c['density']](c['p'])
  jd = lambda k: dens(k, jnp)
  run = lambda x: core.to_np(filter_utils.filter(jd, jnp.asarray(x), g))
  got = run(a)
  want, k, w = dft_apply(a, dens, lengths)
  scale = np.abs(a).max() * max(1e-300, np.abs(w).max()) * np.sqrt(a.size)
  ctx.true(not np.iscomplexobj(got), 'real output')
  ctx.close(got, want, 'filtered field', 1e-11, scale)
  ctx.close(got.mean(), 0.0, 'mean removed', 1e-11, scale)
  ax = tuple(range(g.ndim))
  ctx.close(run(np.roll(a, c['roll'], ax)), np.roll(got, c['roll'], ax),
            'translated field', 1e-11, scale)
  sb = np.abs(b).max() * np.abs(w).max() * np.sqrt(a.size)
  ctx.close(run(a + c['a'] * b), got + c['a'] * run(b), 'linear', 1e-11,
            scale + abs(c['a']) * sb)
  # the same filter as a force on velocity components
  if g.ndim > 1:
    v = tuple(gen.gvar(x, gen.face_offset(g.ndim, i), g, gen.periodic_bc(g.ndim))
              for i, x in enumerate([a, b, a][:g.ndim]))
    force = forcings.filtered_forcing(jd, g)(v)
    for i, (f, x) in enumerate(zip(force, [a, b, a])):
      ctx.close(f.data, run(x), 'filtered forcing', 1e-12, scale + sb)
      ctx.eq(tuple(f.offset), gen.face_offset(g.ndim, i), 'offset of the force')
      ctx.true(f.grid == g, 'grid of the force')
  return gen.nonconstant(a)


@st.composite
def band_case(draw):
  g = draw(gen.grid((2, 3), POOL))
  return dict(g=g, vs=[draw(gen.field(['noise', 'spike', 'ints'])) for _ in range(3)],
              lo=draw(gen.floats(0, 2)), width=draw(gen.floats(0, 3)),
              coef=draw(gen.floats(-3, 3)), api=draw(gen.pick('base', 'ml')))


@P.facet(band_case(), quick=120,
         rule='band-limited linear forcing acts exactly on the modes between the two '
         'wavenumbers; non-trivial = some modes inside and some outside the band')
def band(c, ctx):
  g = gen.mk_grid(c['g'])
  d = g.ndim
  lengths = [hi - lo for lo, hi in c['g']['domain']]
  arrs, v = velocity(c, g)
  lo, hi = c['lo'], c['lo'] + c['width']
  _, k, _ = dft_apply(arrs[0], lambda k: k, lengths)
  for edge in (lo, hi):
    if edge > 0 and np.min(np.abs(k / (2 * np.pi) - edge)) < 1e-6:
      raise core.Discard('mode on the edge of the band')
  if c['api'] == 'ml':
    fn = ml_forcings.filtered_linear_forcing(g, c['coef'], lo, hi)
  else:
    fn = forcings.filtered_linear_forcing(lo, hi, c['coef'], g)
  got = fn(v)
  ind = lambda k: c['coef'] * ((k >= 2 * np.pi * lo) & (k <= 2 * np.pi * hi))
  power = 0.0
  for i, f in enumerate(got):
    want, _, w = dft_apply(arrs[i], ind, lengths)
    ctx.close(f.data, want, f'component {i}', 1e-11,
              max(1.0, abs(c['coef'])) * np.abs(arrs[i]).max() * np.sqrt(want.size))
    power += float((core.to_np(f.data) * arrs[i]).sum()) * np.sign(c['coef'])
    ctx.eq(tuple(f.offset), gen.face_offset(d, i), 'offset')
  ctx.le(-power, 0.0, 'injects energy with the sign of the coefficient', 1e-9 * 1e4)
  inside = w != 0
  return bool(inside.any() and not inside.all())


@P.facet(gen.dct(n=gen.pick(16, 24, 32), seed=gen.ints(0, 10000), waves=gen.ints(1, 20),
                 off=gen.pick(0.0, 0.5), t=gen.floats(-20, 20), p=gen.ints(0, 15)),
         quick=60, rule='the random travelling waves are deterministic in the seed, '
         'made of wavenumbers 3 to 6, bounded and travel at bounded speed; '
         'non-trivial = all')
def random_waves(c, ctx):
  g = grids.Grid((c['n'],), domain=[(0, 2 * np.pi)])
  make = lambda n: spectral_forcings.random_forcing_module(
      g, seed=c['seed'], n=n, offset=(c['off'],))
  fn, again = make(c['waves']), make(c['waves'])
  f = core.to_np(fn(c['t']))
  ctx.eq(f.shape, (c['n'],), 'shape')
  ctx.close(again(c['t']), f, 'same seed, same force', 0.0)
  # float32 random parameters enter; the sum of waves is evaluated in float64
  hat = np.fft.rfft(f) / c['n']
  keep = np.zeros(hat.shape, bool)
  keep[3:7] = True
  ctx.close(np.where(keep, 0, np.abs(hat)), np.zeros(hat.shape),
            'only wavenumbers 3 to 6', 1e-6, c['waves'])
  ctx.le(np.abs(f).max(), 0.5 * c['waves'], 'amplitude', 1e-6 * c['waves'])
  # each mode is a sum of waves whose frequencies do not exceed 0.4
  dt = 1e-2
  fp = core.to_np(fn(c['t'] + dt))
  ctx.le(np.abs(fp - f).max(), 0.5 * c['waves'] * 0.4 * dt, 'rate of change',
         1e-5 * c['waves'])
  # offset moves the sampling points only
  other = spectral_forcings.random_forcing_module(
      g, seed=c['seed'], n=c['waves'], offset=(0.5 - c['off'],))
  k = np.fft.rfftfreq(c['n'], 1 / c['n'])
  shift = (0.5 - 2 * c['off']) * 2 * np.pi / c['n']
  moved = np.fft.irfft(np.fft.rfft(f) * np.exp(1j * k * shift), c['n'])
  ctx.close(other(c['t']), moved, 'shifted sampling points', 1e-5, c['waves'])
  return True


@st.composite
def vort_case(draw):
  n = draw(gen.pick(8, 12))
  return dict(n=n, L=[draw(gen.pick(1.0, 2 * np.pi, 3.0)) for _ in range(2)],
              lo=draw(gen.pick(0.0, 1.5)),
              seed=draw(gen.seeds()), scale=draw(gen.floats(-2, 2)),
              k=draw(gen.ints(0, 3)), coef=draw(gen.pick(0.0, -0.3, 1.5)),
              swap=draw(st.booleans()))


@P.facet(vort_case(), quick=60,
         rule='forcing in vorticity space is the curl of the force; '
         'non-trivial = force not identically zero')
def vorticity_space(c, ctx):
  n = c['n']
  g = grids.Grid((n, n), domain=[(c['lo'], c['lo'] + L) for L in c['L']])
  rng = np.random.default_rng(c['seed'])
  x, y = [np.asarray(m) for m in np.meshgrid(
      *[c['lo'] + L * np.arange(n) / n for L in c['L']], indexing='ij')]
  w = np.zeros((n, n))
  for _ in range(3):
    p, q = rng.integers(-2, 3), rng.integers(-2, 3)
    if p == q == 0:
      continue
    w += rng.standard_normal() * np.cos(2 * np.pi * (
        p * (x - c['lo']) / c['L'][0] + q * (y - c['lo']) / c['L'][1])
        + rng.uniform(0, 6))
  module = functools.partial(ml_forcings.kolmogorov_forcing, scale=c['scale'],
                             wavenumber=c['k'], linear_coefficient=c['coef'],
                             swap_xy=c['swap'])
  got = core.to_np(ml_forcings.vorticity_space_forcing(g, module)(
      jnp.asarray(w)[..., None])).reshape(n, n)
  # curl of the wave, through its spectral derivative; curl of drag = coef * w
  s = c['scale'] * np.sin(c['k'] * (x if c['swap'] else y))
  ax = 0 if c['swap'] else 1
  freq = np.fft.fftfreq(n, 1 / n) * 2 * np.pi / c['L'][ax]
  freq[n // 2] = 0  # the derivative of the highest mode is not resolved
  sl = [1, 1]
  sl[ax] = n
  ds = np.fft.ifft(np.fft.fft(s, axis=ax) * (1j * freq).reshape(sl), axis=ax).real
  want = c['coef'] * w + (ds if c['swap'] else -ds)
  ctx.close(got, want, 'curl of the force', 1e-9,
            np.abs(want).max() + abs(c['scale']) * n + 1e-6)
  return np.abs(want).max() > 1e-9
