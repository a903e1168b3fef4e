"""C29: images, facets and movies of simulation data."""
import io
import math

import hypothesis.strategies as st
import jax.numpy as jnp
import matplotlib
import matplotlib.colors
import numpy as np
import PIL.Image as Image
import PIL.ImageSequence

from harness import core, gen
from jax_cfd.data import visualization as vis

P = core.Property('C29')
MAPS = ('default', 'viridis', 'gray', 'twilight')


def cmap_of(name):
  if name == 'default':
    import seaborn as sns
    return sns.cm.icefire
  return matplotlib.colormaps[name]


def np_quantile(a, q):
  """Linear interpolation between order statistics."""
  s = np.sort(np.asarray(a, float).ravel())
  pos = q * (s.size - 1)
  lo = int(math.floor(pos))
  hi = min(lo + 1, s.size - 1)
  return s[lo] + (pos - lo) * (s[hi] - s[lo])


@st.composite
def data_case(draw):
  return dict(n=[draw(gen.ints(1, 9)), draw(gen.ints(1, 9))],
              f=draw(gen.field(['noise', 'ints', 'step', 'const', 'linear', 'spike', 'zero'])),
              q=draw(gen.pick(0.999, 1.0, 0.5, 0.9, 0.0, 0.25)), default=draw(st.booleans()),
              dtype=draw(gen.pick('float64', 'float64', 'float32')), shift=draw(gen.pick(0.0, 1.0, -3.0)))


@P.facet(data_case(), quick=250,
         rule='colour range of a quantile: end points, symmetry, monotonicity; '
         'non-trivial = varying data')
def quantiles(c, ctx):
  a = (gen.arr(c['f'], c['n']) + c['shift']).astype(c['dtype'])
  kw = {} if c['default'] else dict(quantile=c['q'])
  q = 0.999 if c['default'] else c['q']
  tol = 1e-6 if c['dtype'] == 'float32' else 1e-12
  for data in (a, jnp.asarray(a)):
    norm = vis.quantile_normalize_fn(data, 3, **kw)
    want = np_quantile(np.abs(a), q)
    ctx.close(float(norm.vmax), want, 'upper end', tol, np.abs(a).max() + 1e-300)
    ctx.close(float(norm.vmin), -want, 'lower end', tol, np.abs(a).max() + 1e-300)
    ctx.eq(norm.vmin, -norm.vmax, 'symmetric range')
    # enough of the data is inside
    inside = np.mean(np.abs(a) <= norm.vmax * (1 + 1e-6))
    ctx.le(q - 1.0 / a.size, inside, 'share of values inside the range', 1e-9)
  norm2 = vis.quantile_normalize_fn(-2.0 * a, 0, **kw)
  ctx.close(float(norm2.vmax), 2 * float(norm.vmax), 'scales with the data', tol,
            np.abs(a).max() * 2 + 1e-300)
  if norm.vmax > 0:
    x = np.linspace(-1.2, 1.2, 25) * norm.vmax
    y = np.asarray(norm(x))
    ctx.true(np.all(np.diff(y) >= 0), 'monotone')
    ctx.close(y + y[::-1], np.ones_like(y), 'symmetric', 1e-9)
    ctx.close(norm(np.array([0.0]))[0], 0.5, 'zero in the middle', 1e-12)
  ctx.label(f'q={q}')
  return gen.nonconstant(a)


def colours(a, norm_range, cmap, tol):
  """Colours a pixel may take, given rounding of its position in the range."""
  lo, hi = norm_range
  out = []
  for e in (-tol, 0.0, tol):
    if hi > lo:
      y = (np.asarray(a, float) - lo) / (hi - lo) + e
    else:
      y = np.zeros(a.shape)
    rgba = np.empty(a.shape + (4,), np.uint8)
    for idx in np.ndindex(*a.shape):
      rgba[idx] = cmap(float(y[idx]), bytes=True)
    out.append(rgba)
  return out


def nearest(a, size):
  """Possible sources of a nearest-neighbour resize to (height, width)."""
  picks = []
  for n, m in zip(a.shape[:2], size):
    exact = (np.arange(m) + 0.5) * n / m
    picks.append([np.clip(np.floor(exact + e).astype(int), 0, n - 1) for e in (-1e-9, 1e-9)])
  return [a[np.ix_(i, j)] for i in picks[0] for j in picks[1]]


def one_of(got, options):
  return np.all(np.any([np.all(got == o, -1) for o in options], 0))


@st.composite
def image_case(draw):
  return dict(T=draw(gen.ints(1, 3)), n=[draw(gen.ints(1, 8)), draw(gen.ints(1, 8))],
              f=draw(gen.field(['noise', 'ints', 'linear', 'spike', 'const', 'zero'])),
              cmap=draw(gen.pick(*MAPS)), dtype=draw(gen.pick('float64', 'float64', 'float32')),
              norm=draw(gen.pick('default', 'default', 'frames', 'fixed')),
              side=draw(gen.pick(None, None, 8, 16, 24, 5)), jax=draw(st.booleans()))


@P.facet(image_case(), quick=200,
         rule='images of a trajectory, pixel by pixel, in time order; non-trivial = '
         'varying data')
def images(c, ctx):
  a = gen.arr(c['f'], [c['T']] + c['n']).astype(c['dtype'])
  h, w = c['n']
  side = c['side']
  if side is not None and round(min(h, w) * side / max(h, w)) < 1:
    raise core.Discard()
  seen = []

  def frames_norm(data, i):
    seen.append((np.array(data), i))
    return matplotlib.colors.Normalize(-1.0 - i, 2.0 + i)
  kw = {}
  if c['cmap'] != 'default':
    kw['cmap'] = cmap_of(c['cmap'])
  if c['norm'] == 'frames':
    kw['compute_norm_fn'] = frames_norm
  elif c['norm'] == 'fixed':
    kw['compute_norm_fn'] = lambda data, i: matplotlib.colors.Normalize(-1.5, 1.5)
  if side is not None:
    kw['longest_side'] = side
  out = vis.trajectory_to_images(jnp.asarray(a) if c['jax'] else a, **kw)
  ctx.eq(len(out), c['T'], 'one image per frame')
  tol = 1e-5 if c['dtype'] == 'float32' else 1e-9
  for i, (img, frame) in enumerate(zip(out, a)):
    if c['norm'] == 'frames':
      ctx.eq(seen[i][1], i, 'number of the frame')
      ctx.close(seen[i][0], frame, 'data of the frame', 0.0)
      lim = (-1.0 - i, 2.0 + i)
    elif c['norm'] == 'fixed':
      lim = (-1.5, 1.5)
    else:
      m = np_quantile(np.abs(frame), 0.999)
      lim = (-m, m)
    options = colours(frame, lim, cmap_of(c['cmap']), tol)
    size = (w, h)
    if side is not None:
      size = (round(w * side / max(h, w)), round(h * side / max(h, w)))
      options = [r for o in options for r in nearest(o, size[::-1])]
    ctx.eq(img.size, size, 'size')
    ctx.eq(img.mode, 'RGBA', 'mode')
    ctx.true(one_of(np.asarray(img), options), 'pixels of the image')
  ctx.label(f"{c['cmap']} {c['norm']}")
  return gen.nonconstant(a)


@P.facet(gen.dct(n=st.tuples(gen.ints(1, 9), gen.ints(1, 9)).map(list), side=gen.ints(1, 30),
                 seed=gen.seeds(), const=st.booleans(), mode=gen.pick('RGB', 'RGBA', 'L'),
                 resample=gen.pick('default', 'nearest', 'bilinear')), quick=250,
         rule='resized images: requested longest side, aspect ratio, pixels; '
         'non-trivial = size changes')
def resizing(c, ctx):
  h, w = c['n']
  rng = np.random.default_rng(c['seed'])
  ch = dict(RGB=3, RGBA=4, L=1)[c['mode']]
  a = rng.integers(0, 256, (h, w, ch)).astype(np.uint8)
  if c['const']:
    a[:] = a[0, 0]
  if c['mode'] == 'RGBA':
    a[..., 3] = 255
  img = Image.fromarray(a[..., 0] if ch == 1 else a)
  factor = c['side'] / max(h, w)
  if min(h, w) * factor <= 0.5:
    raise core.Discard()
  kw = dict(default={}, nearest=dict(resample=Image.Resampling.NEAREST),
            bilinear=dict(resample=Image.Resampling.BILINEAR))[c['resample']]
  out = vis.resize_image(img, c['side'], **kw)
  ctx.eq(max(out.size), c['side'], 'longest side')
  ctx.le(abs(out.size[0] - w * factor), 0.5, 'width', 1e-9)
  ctx.le(abs(out.size[1] - h * factor), 0.5, 'height', 1e-9)
  ctx.eq(img.size, (w, h), 'original is kept')
  got = np.asarray(out).reshape(out.size[1], out.size[0], ch)
  if c['const']:
    ctx.true(np.all(got == a[0, 0]), 'constant image')
  if c['resample'] != 'bilinear':
    ctx.true(one_of(got, nearest(a, (out.size[1], out.size[0]))), 'nearest pixels')
  ctx.label(c['resample'])
  return out.size != img.size


@st.composite
def facet_case(draw):
  k = draw(gen.ints(1, 4))
  return dict(k=k, T=[draw(gen.ints(1, 3)) for _ in range(k)], n=[draw(gen.ints(1, 9)),
              draw(gen.ints(1, 12))], seed=draw(gen.seeds()), rel=draw(gen.pick(
                  0.0, 0.1, 0.25, 0.5, 1.0, 0.04)), rgb=draw(gen.pick(None, [0, 0, 0], [10, 200, 30])),
              mode=draw(gen.pick('RGB', 'RGBA')))


@P.facet(facet_case(), quick=200,
         rule='images side by side keep pixels and order, separated as asked; '
         'non-trivial = several columns')
def facets(c, ctx):
  h, w = c['n']
  rng = np.random.default_rng(c['seed'])
  cols = []
  for t in c['T']:
    a = rng.integers(0, 256, (t, h, w, 3)).astype(np.uint8)
    cols.append(a)
  to_img = lambda x: Image.fromarray(x).convert(c['mode'])
  kw = {} if c['rgb'] is None else dict(separation_rgb=tuple(c['rgb']))
  rgb = np.array([255, 255, 255] if c['rgb'] is None else c['rgb'], np.uint8)
  out = vis.horizontal_facet([[to_img(x) for x in a] for a in cols], c['rel'], **kw)
  ctx.eq(len(out), min(c['T']), 'number of frames')
  gap = round(w * c['rel'])
  sep = np.broadcast_to(rgb, (h, gap, 3))
  for t, img in enumerate(out):
    parts = []
    for i, a in enumerate(cols):
      if i:
        parts.append(sep)
      parts.append(a[t])
    want = np.concatenate(parts, 1)
    ctx.eq(img.mode, 'RGB', 'mode')
    ctx.eq(img.size, (want.shape[1], h), 'size')
    ctx.true(np.array_equal(np.asarray(img), want), 'pixels')
  ctx.label(f"{c['k']} columns, gap {gap}")
  return c['k'] > 1


@P.facet(gen.dct(T=gen.ints(1, 5), n=st.tuples(gen.ints(2, 8), gen.ints(2, 8)).map(list),
                 seed=gen.seeds(), duration=gen.pick(None, 100.0, 50.0, 500.0),
                 loop=gen.pick(None, 2, 5), colours=gen.ints(2, 6)), quick=120,
         rule='movies read back frame by frame; non-trivial = several frames')
def movies(c, ctx):
  h, w = c['n']
  rng = np.random.default_rng(c['seed'])
  palette = rng.integers(0, 256, (c['colours'], 3)).astype(np.uint8)
  frames = []
  for t in range(c['T']):
    idx = rng.integers(0, c['colours'], (h, w))
    a = palette[idx]
    a[0, 0] = [t * 40, 255 - t * 40, 7]  # consecutive frames differ
    frames.append(a)
  imgs = [Image.fromarray(a) for a in frames]
  kw = {}
  if c['duration'] is not None:
    kw['duration'] = c['duration']
  if c['loop'] is not None:
    kw['loop'] = c['loop']
  buf = io.BytesIO()
  vis.save_movie(imgs, buf, format='GIF', **kw)
  buf.seek(0)
  movie = Image.open(buf)
  ctx.eq(getattr(movie, 'n_frames', 1), c['T'], 'number of frames')
  if c['T'] > 1:
    ctx.eq(movie.info.get('loop'), c['loop'] or 0, 'repetitions')
  for t, frame in enumerate(PIL.ImageSequence.Iterator(movie)):
    if c['T'] > 1:
      ctx.close(frame.info['duration'], c['duration'] or 150.0, 'duration of a frame', 1e-9, 150.0)
    ctx.true(np.array_equal(np.asarray(frame.convert('RGB')), frames[t]), f'pixels of frame {t}')
  for img, a in zip(imgs, frames):
    ctx.true(np.array_equal(np.asarray(img), a), 'images are kept')
  return c['T'] > 1
