"""C19: spectral transforms, filters and vorticity inversion."""
import hypothesis.strategies as st
import jax.numpy as jnp
import numpy as np

from harness import core, gen
from jax_cfd.base import grids
from jax_cfd.spectral import utils

P = core.Property('C19')


def rand_hat(rng, n, kmax, real=True):
  """Amplitudes of a trigonometric polynomial of degree kmax."""
  if real:
    h = np.zeros(n // 2 + 1, complex)
    h[0] = rng.standard_normal()
    h[1:kmax + 1] = rng.standard_normal(kmax) + 1j * rng.standard_normal(kmax)
    return h
  h = np.zeros(n, complex)
  for k in range(-kmax, kmax + 1):
    h[k % n] = rng.standard_normal() + 1j * rng.standard_normal()
  return h


def evaluate(h, m, real=True):
  """Values at m equally spaced points of the polynomial with amplitudes h."""
  x = np.arange(m) / m
  if real:
    k = np.arange(len(h))
    w = np.where(k == 0, 1.0, 2.0)
    return ((w * h)[None] * np.exp(2j * np.pi * np.outer(x, k))).sum(1).real
  n = len(h)
  k = np.fft.fftfreq(n, 1 / n)
  return (h[None] * np.exp(2j * np.pi * np.outer(x, k))).sum(1)


@P.facet(gen.dct(n=gen.pick(4, 6, 8, 10, 12, 14, 16, 18, 20, 32, 34), seed=gen.seeds(),
                 seed2=gen.seeds(), frac=gen.floats(0, 1)), quick=150,
         rule='padded and truncated real transforms: sampling on the finer grid, '
         'inverses on resolved modes, products free of aliasing; non-trivial = '
         'some mode above the mean')
def real_transforms(c, ctx):
  n = c['n']
  rng = np.random.default_rng(c['seed'])
  kmax = int(round(c['frac'] * (n // 2 - 1)))
  h = rand_hat(rng, n, kmax)
  g = rand_hat(np.random.default_rng(c['seed2']), n, kmax)
  pad = lambda h: core.to_np(utils.padded_irfft(jnp.asarray(h * n)))
  u = pad(h)
  m = u.size
  scale = np.abs(h).sum() * 2 + 1e-300
  ctx.true(m >= 1.5 * n, f'finer grid of {m} points for {n}')
  ctx.close(u, evaluate(h, m), 'interpolated values', 1e-12, scale)
  back = core.to_np(utils.truncated_rfft(jnp.asarray(u)))
  ctx.close(back / n, h, 'inverse on resolved modes', 1e-12, scale)
  # the highest mode of the coarse grid is the only ambiguous one
  prod = core.to_np(utils.truncated_rfft(jnp.asarray(u * pad(g)))) / n
  ctx.eq(prod.shape, h.shape, 'resolved modes of a product')
  full = np.convolve(np.concatenate([h[:0:-1].conj(), h]),
                     np.concatenate([g[:0:-1].conj(), g]))
  mid = len(full) // 2
  ctx.close(prod[:-1], full[mid:mid + len(h) - 1], 'product without aliasing', 1e-11,
            scale * (np.abs(g).sum() * 2 + 1e-300))
  return kmax > 0


@P.facet(gen.dct(n=gen.pick(2, 4, 6, 8, 10, 16), seed=gen.seeds(), frac=gen.floats(0, 1)),
         quick=120, rule='doubled complex transforms: sampling, inverses, cubic '
         'products free of aliasing; non-trivial = some mode above the mean')
def complex_transforms(c, ctx):
  n = c['n']
  rng = np.random.default_rng(c['seed'])
  kmax = int(round(c['frac'] * (n // 2 - 1)))
  h = rand_hat(rng, n, kmax, False)
  u = core.to_np(utils.padded_ifft_2x(jnp.asarray(h * n)))
  scale = np.abs(h).sum() + 1e-300
  ctx.eq(u.shape, (2 * n,), 'doubled size')
  ctx.close(u, evaluate(h, 2 * n, False), 'interpolated values', 1e-12, scale)
  back = core.to_np(utils.truncated_fft_2x(jnp.asarray(u))) / n
  ctx.close(back, h, 'inverse on resolved modes', 1e-12, scale)
  cubic = core.to_np(utils.truncated_fft_2x(jnp.asarray(u * np.abs(u) ** 2))) / n
  fine = evaluate(h, 8 * n, False)
  want = np.fft.fft(fine * np.abs(fine) ** 2) / (8 * n)
  for k in range(-(n // 2 - 1), n // 2):
    ctx.close(cubic[k % n], want[k % (8 * n)], f'mode {k} of a cubic product', 1e-11,
              scale ** 3)
  # arbitrary spectra, the ambiguous mode included
  full = rng.standard_normal(n) + 1j * rng.standard_normal(n)
  again = utils.truncated_fft_2x(utils.padded_ifft_2x(jnp.asarray(full)))
  ctx.close(again, full, 'round trip', 1e-12, np.abs(full).sum())
  # real signals: real and complex variants agree
  if n >= 4:
    r = rand_hat(rng, n, kmax)
    both = np.zeros(n, complex)
    both[:kmax + 1] = r[:kmax + 1]
    for k in range(1, kmax + 1):
      both[-k] = r[k].conj()
    fine = core.to_np(utils.padded_ifft_2x(jnp.asarray(both * n)))
    ctx.close(fine, evaluate(r, 2 * n) + 0j, 'real signal', 1e-12,
              np.abs(both).sum() + 1e-300)
  return kmax > 0


@st.composite
def vort_case(draw):
  n = [draw(gen.pick(2, 4, 6, 8)) for _ in range(2)]
  return dict(n=n, L=[draw(gen.pick(1.0, 2 * np.pi, 0.3, 5.0, 40.0)) for _ in range(2)],
              lo=draw(gen.pick(0.0, -1.0)), f=draw(gen.field()), f2=draw(gen.field()))


def setup(c):
  return grids.Grid(tuple(c['n']), domain=[(c['lo'], c['lo'] + L) for L in c['L']])


def angular(c):
  """Angular wavenumbers of the modes kept by a real transform."""
  n, L = c['n'], c['L']
  kx = 2 * np.pi * np.fft.fftfreq(n[0], L[0] / n[0])
  ky = 2 * np.pi * np.arange(n[1] // 2 + 1) / L[1]
  return np.meshgrid(kx, ky, indexing='ij')


@P.facet(vort_case(), quick=120,
         rule='velocity recovered from vorticity mode by mode on every domain: '
         'solenoidal, right curl, no mean; non-trivial = non-constant vorticity')
def inversion(c, ctx):
  g = setup(c)
  kx, ky = angular(c)
  w = gen.arr(c['f'], g.shape)
  what = np.fft.rfft2(w)
  u, v = [core.to_np(x) for x in utils.vorticity_to_velocity(g)(jnp.asarray(what))]
  scale = np.abs(what).max() + 1e-300
  k2 = kx ** 2 + ky ** 2
  k2[0, 0] = 1
  kmax = np.sqrt(k2.max())
  ctx.close(u, 1j * ky * what / k2, 'velocity along x', 1e-11, scale / min(
      2 * np.pi / max(c['L']), 1))
  ctx.close(v, -1j * kx * what / k2, 'velocity along y', 1e-11, scale / min(
      2 * np.pi / max(c['L']), 1))
  size = np.abs(u).max() + np.abs(v).max() + 1e-300
  ctx.close(kx * u + ky * v, np.zeros(u.shape), 'divergence', 1e-12, size * kmax)
  ctx.true(u[0, 0] == 0 and v[0, 0] == 0, 'no mean flow')
  curl = core.to_np(utils.spectral_curl_2d(g.rfft_mesh(), (jnp.asarray(u),
                                                           jnp.asarray(v))))
  want = what.copy()
  want[0, 0] = 0
  ctx.close(curl, want, 'curl of the velocity', 1e-11, scale)
  a = np.fft.rfft2(gen.arr(c['f2'], g.shape))
  got = utils.spectral_curl_2d(g.rfft_mesh(), (jnp.asarray(what), jnp.asarray(a)))
  ctx.close(got, 1j * (kx * a - ky * what), 'curl mode by mode', 1e-11,
            (np.abs(a).max() + scale) * kmax)
  # a curl has no mean; the curl of a gradient vanishes
  grad = (jnp.asarray(1j * kx * a), jnp.asarray(1j * ky * a))
  ctx.close(utils.spectral_curl_2d(g.rfft_mesh(), grad), np.zeros(a.shape),
            'curl of a gradient', 1e-11, np.abs(a).max() * kmax ** 2 + 1e-300)
  return gen.nonconstant(w)


@st.composite
def mask_case(draw):
  square = draw(st.booleans())
  n = [draw(gen.pick(4, 6, 8, 12, 16)) for _ in range(2)]
  if square:
    n[1] = n[0]
  return dict(n=n, L=[draw(gen.pick(1.0, 2 * np.pi, 3.0, 50.0)) for _ in range(2)], lo=0.0,
              f=draw(gen.field(['noise', 'spike', 'ints'])),
              which=draw(gen.pick('circular', 'brick', 'exponential')),
              alpha=draw(gen.pick(1e-6, 1e-3, 0.5)), order=draw(gen.ints(1, 4)),
              roll=[draw(gen.ints(-4, 4)) for _ in range(2)],
              k=[draw(gen.ints(-3, 3)), draw(gen.ints(0, 3))])


def apply_mask(m, w):
  return np.fft.irfft2(m * np.fft.rfft2(w), w.shape)


@P.facet(mask_case(), quick=150,
         rule='low-pass masks: between zero and one, even in both wavenumbers, one '
         'on slow modes, never increasing along a ray, real and translation '
         'equivariant; non-trivial = mask removes something')
def masks(c, ctx):
  if c['which'] == 'exponential':
    c['n'] = [c['n'][0]] * 2
  g = setup(c)
  n = c['n']
  kx, ky = angular(c)
  w = gen.arr(c['f'], g.shape)
  ix = np.rint(np.fft.fftfreq(n[0], 1 / n[0])).astype(int)
  if c['which'] == 'exponential':
    run = lambda x: core.to_np(utils.exponential_filter(
        jnp.asarray(x), c['alpha'], c['order']))
    fx, fy = np.fft.fftfreq(n[0]), np.arange(n[1] // 2 + 1) / n[1]
    eta2 = fx[:, None] ** 2 + fy[None] ** 2
    m = np.exp(np.log(c['alpha']) * eta2 ** c['order'])
  elif c['which'] == 'brick':
    m = core.to_np(utils.brick_wall_filter_2d(g)).astype(float)
    run = lambda x: apply_mask(m, x)
    ctx.true(((m == 0) | (m == 1)).all(), 'zero or one')
    for axis, (idx, size) in enumerate([(ix, n[0]), (np.arange(n[1] // 2 + 1), n[1])]):
      keep = m.max(axis=1 - axis) > 0
      # the two-thirds rule, give or take the mode on its edge
      ctx.true(not keep[np.abs(idx) > size / 3].any(), 'fast modes are removed')
      ctx.true(keep[np.abs(idx) < size / 3 - 1].all(), 'slow modes are kept')
    ctx.close(m, np.outer(m[:, 0], m[0]), 'product of cut-offs', 0.0, 1.0)
  else:
    m = core.to_np(utils.circular_filter_2d(g)).astype(float)
    run = lambda x: apply_mask(m, x)
    r = np.sqrt(kx ** 2 + ky ** 2) / (2 * np.pi)
    top = n[1] / 2 / c['L'][1]
    cut = 0.65 * top
    clear = np.abs(r - cut) > 1e-9 * top
    ctx.true((m[(r < cut) & clear] == 1).all(), 'slow modes are kept')
    want = np.where(r <= cut, 1.0, np.exp(-23.6 * (np.pi * (r - cut) / top) ** 4))
    ctx.close(np.where(clear, m, 0), np.where(clear, want, 0), 'filter formula', 1e-9,
              1.0)
  ctx.eq(m.shape, kx.shape, 'shape')
  ctx.true((m >= 0).all() and (m <= 1).all(), 'between zero and one')
  ctx.close(m[0, 0], 1.0, 'mean is kept', 1e-12)
  for i, k in enumerate(ix):
    if -k in ix:
      j = list(ix).index(-k)
      ctx.close(m[i], m[j], 'even in the wavenumber', 1e-12, 1.0)
  half = m[:n[0] // 2]
  ctx.true((np.diff(half, axis=0) <= 1e-12).all() and (np.diff(m, axis=1) <= 1e-12).all(),
           'never increasing')
  out = run(w)
  scale = np.abs(w).max() * np.sqrt(w.size) + 1e-300
  if c['which'] == 'exponential':
    ctx.close(out, apply_mask(m, w), 'filter formula', 1e-11, scale)
  ctx.close(run(np.roll(w, c['roll'], (0, 1))), np.roll(out, c['roll'], (0, 1)),
            'translated field', 1e-11, scale)
  flip = lambda x: np.roll(x[::-1], 1, axis=0)
  ctx.close(run(flip(w)), flip(out), 'reflected field', 1e-11, scale)
  ctx.close(out.mean(), w.mean(), 'mean', 1e-12, scale)
  ctx.le((out ** 2).sum(), (w ** 2).sum(), 'energy', 1e-10 * scale ** 2)
  # a single wave is scaled as a whole
  p, q = c['k']
  if 2 * abs(p) < n[0] and 2 * q < n[1] and (q > 0 or p >= 0):
    x, y = np.meshgrid(np.arange(n[0]) / n[0], np.arange(n[1]) / n[1], indexing='ij')
    wave = np.cos(2 * np.pi * (p * x + q * y) + 0.3)
    ctx.close(run(wave), m[p % n[0], q] * wave, 'single wave', 1e-10, 1.0)
  ctx.label(c['which'])
  return bool((m < 1 - 1e-6).any())


@P.facet(gen.dct(seed=gen.seeds(), n=gen.pick(4, 6), shape=gen.pick('1d', '2d')),
         quick=30, rule='filtered steps multiply the result of the step; all '
         'non-trivial')
def filtered_step(c, ctx):
  rng = np.random.default_rng(c['seed'])
  shape = (c['n'],) if c['shape'] == '1d' else (c['n'], c['n'] // 2 + 1)
  x = rng.standard_normal(shape) + 1j * rng.standard_normal(shape)
  m = rng.uniform(0, 1, shape)
  step = lambda s: s ** 2 + 1
  got = utils.filter_step(step, jnp.asarray(m))(jnp.asarray(x))
  ctx.close(got, m * (x ** 2 + 1), 'filtered step', 1e-13)
  return True
