"""C24: periodic, mirrored and tiled convolutions."""
import functools
import itertools

import haiku as hk
import hypothesis.strategies as st
import jax
import jax.numpy as jnp
import numpy as np

from harness import core, gen
from jax_cfd.base import grids
from jax_cfd.ml import layers
from jax_cfd.ml import layers_util as lu
from jax_cfd.ml import tiling
from jax_cfd.ml import towers

P = core.Property('C24')

CONV = {1: layers.PeriodicConv1D, 2: layers.PeriodicConv2D, 3: layers.PeriodicConv3D}
TRANSPOSE = {1: layers.PeriodicConvTranspose1D, 2: layers.PeriodicConvTranspose2D,
             3: layers.PeriodicConvTranspose3D}


def run(make, x, seed, scale=1.0):
  """Output of a haiku function with random parameters, and the parameters."""
  f = hk.without_apply_rng(hk.transform(make))
  params = jax.eval_shape(f.init, jax.random.PRNGKey(0), x)
  rng = np.random.default_rng(seed)
  params = jax.tree.map(
      lambda s: jnp.asarray(scale * rng.standard_normal(s.shape)), params)
  return f.apply, params


def weights(params):
  """All (kernel, bias) pairs in order of creation."""
  return [(core.to_np(m['w']), core.to_np(m['b']) if 'b' in m else 0.0)
          for m in params.values()]


def periodic_conv(x, w, b, stride=1, rate=1, flipped=False):
  """out[i] = b + sum_k w[k] x[i*s + k*rate - left] with periodic indices."""
  d = x.ndim - 1
  pos = []
  for ax in range(d):
    k = w.shape[ax]
    eff = 1 + (k - 1) * rate
    left = (eff - 1) // 2 if flipped else eff // 2
    start = np.arange(0, x.shape[ax], stride)
    pos.append([(start + j * rate - left) % x.shape[ax] for j in range(k)])
  out = 0.0
  for ks in itertools.product(*[range(k) for k in w.shape[:d]]):
    sub = x[np.ix_(*[pos[ax][k] for ax, k in enumerate(ks)], range(x.shape[-1]))]
    out = out + sub @ w[ks]
  return out + b


def valid_conv(x, w, b, rate=1):
  d = x.ndim - 1
  size = [n - (k - 1) * rate for n, k in zip(x.shape, w.shape)]
  out = 0.0
  for ks in itertools.product(*[range(k) for k in w.shape[:d]]):
    sub = x[tuple(slice(k * rate, k * rate + n) for k, n in zip(ks, size))]
    out = out + sub @ w[ks]
  return out + b


def periodic_transpose(x, w, b, stride):
  """Each input spreads its kernel around position stride * i."""
  d = x.ndim - 1
  out = np.zeros([n * stride for n in x.shape[:-1]] + [w.shape[-2]])
  for i in np.ndindex(*x.shape[:-1]):
    for k in np.ndindex(*w.shape[:d]):
      o = tuple((s_i * stride + K - 1 - kk - (K - 1) // 2) % (n * stride)
                for s_i, kk, K, n in zip(i, k, w.shape, x.shape))
      out[o] += x[i] @ w[k].T
  return out + b


CONV_CASES = [  # shape, kernel, rate, stride, tile layout, in, out
    ((5,), (3,), 1, 1, None, 2, 3), ((6,), (4,), 1, 1, (2,), 1, 2),
    ((8,), (2,), 2, 1, (4,), 2, 1), ((7,), (3,), 3, 1, None, 1, 1),
    ((8,), (3,), 1, 2, (2,), 1, 2), ((7,), (2,), 1, 2, None, 2, 2),
    ((6,), (5,), 1, 1, (3,), 1, 1), ((3,), (1,), 1, 1, None, 1, 2),
    ((4, 6), (3, 2), 1, 1, None, 2, 2), ((6, 4), (2, 3), 1, 1, (3, 2), 1, 2),
    ((6, 8), (3, 4), 2, 1, (1, 2), 1, 1), ((4, 8), (3, 3), 1, 2, (2, 2), 2, 1),
    ((5, 3), (1, 3), 1, 1, None, 2, 2), ((4, 6), (4, 5), 1, 1, (2, 1), 1, 1),
    ((4, 4), (3, 3), 1, 1, (4, 4), 2, 3), ((5, 7), (2, 2), 3, 2, None, 1, 2),
    ((4, 3, 2), (3, 2, 1), 1, 1, (2, 1, 2), 1, 2), ((4, 2, 6), (2, 3, 3), 1, 1, None, 2, 1),
    ((4, 6, 4), (2, 1, 3), 2, 2, (1, 1, 1), 1, 1), ((2, 4, 6), (3, 3, 2), 1, 1, (1, 2, 3), 1, 2),
]


@P.facet(gen.dct(k=gen.ints(0, len(CONV_CASES) - 1), f=gen.field(['noise', 'ints', 'spike']),
                 seed=gen.seeds(), bias=st.booleans(), shift=gen.ints(-7, 7)), quick=110,
         rule='periodic convolution layers in 1-3 dimensions; non-trivial = kernel '
         'reaches across the boundary')
def periodic(c, ctx):
  shape, kernel, rate, stride, tile, cin, cout = CONV_CASES[c['k']]
  d = len(shape)
  x = gen.arr(c['f'], shape + (cin,))
  kw = dict(rate=rate, stride=stride, tile_layout=tile, with_bias=c['bias'])

  def fwd(x, **over):
    return CONV[d](cout, kernel, **{**kw, **over})(x)
  apply, params = run(fwd, x, c['seed'])
  (w, b), = weights(params)
  ctx.eq(w.shape, tuple(kernel) + (cin, cout), 'shape of the kernel')
  if not c['bias']:
    ctx.eq(len(jax.tree.leaves(params)), 1, 'no bias')
  want = periodic_conv(x, w, b, stride, rate)
  got = apply(params, x)
  tol = 1e-12 * w.size
  ctx.close(got, want, 'periodic convolution', tol, np.abs(x).max() * np.abs(w).max() + 1)
  if tile is not None:
    other = hk.without_apply_rng(hk.transform(functools.partial(fwd, tile_layout=None)))
    ctx.close(other.apply(params, x), want, 'without tiles', tol,
              np.abs(x).max() * np.abs(w).max() + 1)
  sh = stride * c['shift']
  rolled = apply(params, np.roll(x, [sh] * d, tuple(range(d))))
  if all(n % stride == 0 for n in shape):
    ctx.close(rolled, np.roll(want, [c['shift']] * d, tuple(range(d))),
              'translation', tol, np.abs(x).max() * np.abs(w).max() + 1)
  ctx.label(f'{d}d rate {rate} stride {stride} tile {tile}')
  return max(kernel) > 1


TR_CASES = [((5,), (3,), 1, 2, 3), ((4,), (3,), 2, 1, 2), ((4,), (4,), 3, 2, 1),
            ((3,), (2,), 2, 1, 1), ((5,), (1,), 1, 2, 2), ((6,), (5,), 2, 1, 1),
            ((4, 3), (3, 2), 2, 1, 2), ((4, 5), (3, 3), 1, 2, 1), ((3, 4), (2, 5), 2, 2, 2),
            ((4, 3, 2), (3, 2, 1), 1, 1, 2), ((2, 3, 3), (2, 3, 3), 2, 2, 1)]


@P.facet(gen.dct(k=gen.ints(0, len(TR_CASES) - 1), f=gen.field(['noise', 'ints', 'spike']),
                 seed=gen.seeds(), bias=st.booleans(), shift=gen.ints(-7, 7)), quick=70,
         rule='periodic transposed convolutions; non-trivial = kernel wider than one')
def transpose(c, ctx):
  shape, kernel, stride, cin, cout = TR_CASES[c['k']]
  d = len(shape)
  x = gen.arr(c['f'], shape + (cin,))
  apply, params = run(
      lambda x: TRANSPOSE[d](cout, kernel, stride=stride, with_bias=c['bias'])(x),
      x, c['seed'])
  (w, b), = weights(params)
  want = periodic_transpose(x, w, b, stride)
  scale = np.abs(x).max() * np.abs(w).max() + 1
  ctx.close(apply(params, x), want, 'transposed convolution', 1e-12 * w.size, scale)
  s = c['shift']
  ctx.close(apply(params, np.roll(x, [s] * d, tuple(range(d)))),
            np.roll(want, [s * stride] * d, tuple(range(d))), 'translation',
            1e-12 * w.size, scale)
  ctx.raises(NotImplementedError, lambda: hk.transform(
      lambda x: TRANSPOSE[d](cout, kernel, tile_layout=(1,) * d)(x)).init(
          jax.random.PRNGKey(0), x), 'tiles in a transposed convolution')
  return max(kernel) > 1


@st.composite
def mirror_case(draw):
  g = draw(gen.grid((2,), {2: [(4, 5), (5, 4)]}))
  ncomp = draw(gen.ints(1, 3))
  comps = []
  b = draw(gen.bc(2, ('periodic', 'dirichlet', 'neumann')))
  for _ in range(ncomp):
    off = []
    for t in b['types']:
      off.append(0.5 if 'neumann' in t else draw(gen.pick(1.0, 0.5, 0.0)))
    comps.append(dict(off=off, f=draw(gen.field(['noise', 'ints', 'linear']))))
  return dict(g=g, bc=b, comps=comps, kernel=draw(gen.pick([3, 3], [1, 3], [2, 3], [3, 2],
                                                         [3, 5], [5, 1], [4, 3])),
              rate=draw(gen.pick(1, 1, 2)), seed=draw(gen.seeds()), factory=draw(st.booleans()))


@P.facet(mirror_case(), quick=60,
         rule='mirror convolutions of variables with walls; non-trivial = some wall '
         'and a kernel reaching it')
def mirror(c, ctx):
  if c['rate'] == 2 and max(c['kernel']) > 3:
    raise core.Discard('padding wider than the grid')
  grid = gen.mk_grid(c['g'])
  bc = gen.mk_bc(c['bc'])
  data, variables = [], []
  for q in c['comps']:
    full = dict(c, **q)
    a = gen.var_data(full)
    data.append(a)
    variables.append(gen.gvar(a, q['off'], grid, bc))
  if c['factory']:
    make = lambda v: towers.mirror_convolution(len(data), tuple(c['kernel']), 2,
                                               rate=c['rate'])(v)
  else:
    make = lambda v: layers.MirrorConv2D(len(data), tuple(c['kernel']), rate=c['rate'])(v)
  apply, params = run(make, tuple(variables), c['seed'])
  out = apply(params, tuple(variables))
  (w, b), = weights(params)
  padded = []
  for q, a in zip(c['comps'], data):
    p = a
    for ax in range(2):
      eff = 1 + (c['kernel'][ax] - 1) * c['rate']
      left, right = eff // 2, eff - eff // 2 - 1
      t = c['bc']['types'][ax]
      v = [0.0 if z is None else z for z in c['bc']['values'][ax]]
      p = gen.take_extended(p, range(-left, p.shape[ax] + right), ax, q['off'][ax], t, v,
                            gen.steps_of(c['g'])[ax], 'mirror')
    padded.append(p)
  want = valid_conv(np.stack(padded, -1), w, b, c['rate'])
  ctx.eq(len(out), len(data), 'number of components')
  # corners of padded arrays depend on the order of axes and walls: judge only
  # points whose stencil avoids walls (or padding) along more than one axis
  reach = []
  for ax in range(2):
    eff = 1 + (c['kernel'][ax] - 1) * c['rate']
    i = np.arange(grid.shape[ax])
    per = c['bc']['types'][ax][0] == 'periodic'
    on = {q['off'][ax] for q in c['comps']}  # values stored on the wall itself
    left, right = eff // 2 + (0.0 in on), eff - eff // 2 - 1 + (1.0 in on)
    reach.append(np.zeros(len(i), bool) if per else
                 (i < left) | (i >= len(i) - right))
  ok = ~(reach[0][:, None] & reach[1][None, :])
  for j, (v, var) in enumerate(zip(out, variables)):
    ctx.eq((v.offset, v.grid, v.bc), (var.offset, var.grid, var.bc), 'metadata')
    ref = gen.imposed(want[..., j], dict(c, **c['comps'][j]))
    # values on the wall itself are given by the boundary condition
    got = core.to_np(v)
    ctx.close(got[ok], ref[ok], 'mirror convolution', 1e-11,
              np.abs(np.stack(padded)).max() * np.abs(w).sum() + 1)
  return any(t[0] != 'periodic' for t in c['bc']['types']) and max(c['kernel']) > 1


LAYOUTS = [((2,), (6,)), ((3,), (6,)), ((1,), (5,)), ((2, 3), (4, 6)), ((1, 2), (3, 4)),
           ((4, 1), (4, 3)), ((2, 2), (6, 6)), ((2, 1, 3), (4, 2, 6)), ((1, 2, 2), (3, 4, 4))]


@P.facet(gen.dct(k=gen.ints(0, len(LAYOUTS) - 1), ch=gen.ints(1, 3), seed=gen.seeds(),
                 pads=st.lists(st.tuples(gen.ints(0, 3), gen.ints(0, 3)).map(list),
                               min_size=3, max_size=3)), quick=90,
         rule='tiling, halo exchange and untiling; non-trivial = more than one tile '
         'and a halo')
def tiles(c, ctx):
  layout, shape = LAYOUTS[c['k']]
  d = len(layout)
  sub = [n // b for n, b in zip(shape, layout)]
  x = np.random.default_rng(c['seed']).standard_normal(tuple(shape) + (c['ch'],))
  t = core.to_np(tiling.space_to_batch(jnp.asarray(x), layout))
  ctx.eq(t.shape, (int(np.prod(layout)),) + tuple(sub) + (c['ch'],), 'shape of tiles')
  index = list(np.ndindex(*layout))
  for n, i in enumerate(index):
    sl = tuple(slice(k * s, (k + 1) * s) for k, s in zip(i, sub))
    ctx.close(t[n], x[sl], 'tile', 0.0)
  ctx.close(tiling.batch_to_space(jnp.asarray(t), layout), x, 'untiled', 0.0)
  pads = [tuple(min(p, s) for p in q) for q, s in zip(c['pads'], sub)]
  h = core.to_np(tiling.halo_exchange_pad(jnp.asarray(t), layout, pads))
  for n, i in enumerate(index):
    want = x
    for ax in range(d):
      pos = np.arange(i[ax] * sub[ax] - pads[ax][0], (i[ax] + 1) * sub[ax] + pads[ax][1])
      want = np.take(want, pos % shape[ax], axis=ax)
    ctx.close(h[n], want, 'halo', 0.0)
  tile = jnp.asarray(t)
  ctx.raises(ValueError, lambda: tiling.halo_exchange_pad(tile, tuple(layout) + (1,),
                                                          pads + [(0, 0)]), 'extra axis')
  ctx.raises(ValueError, lambda: tiling.halo_exchange_pad(
      tile, (layout[0] + 1,) + tuple(layout[1:]), pads), 'number of tiles')
  ctx.raises(ValueError, lambda: tiling.halo_exchange_pad(tile, layout, pads + [(1, 1)]),
             'number of pads')
  wide = [(sub[0] + 1, 0)] + pads[1:]
  try:
    got = core.to_np(tiling.halo_exchange_pad(tile, layout, wide))
  except Exception:  # pylint: disable=broad-except
    pass  # halos wider than a tile may be refused, not be wrong
  else:
    pos = np.arange(-wide[0][0], sub[0])
    first = np.take(x, pos % shape[0], axis=0)
    for ax in range(1, d):
      q = np.arange(-wide[ax][0], sub[ax] + wide[ax][1])
      first = np.take(first, q % shape[ax], axis=ax)
    ctx.close(got[0], first, 'wide halo', 0.0)
  return int(np.prod(layout)) > 1 and any(map(any, pads))


PATCH = [((5,), (3,), None), ((6,), (2,), (3,)), ((6,), (4,), (2,)), ((4,), (1,), None),
         ((4, 6), (3, 2), (2, 3)), ((4, 4), (2, 2), None), ((5, 3), (3, 3), None),
         ((6, 4), (4, 3), (3, 2)), ((3, 6), (1, 4), (1, 2)), ((4, 3, 4), (2, 1, 3), (2, 1, 2)),
         ((3, 4, 2), (3, 2, 2), None)]


def np_patches(a, patch):
  """Values at i + shift, row-major; even patches include more higher indices."""
  shifts = [range(-((p - 1) // 2), p // 2 + 1) for p in patch]
  return np.stack([np.roll(a, [-k for k in s], tuple(range(a.ndim)))
                   for s in itertools.product(*shifts)], -1)


@P.facet(gen.dct(k=gen.ints(0, len(PATCH) - 1), k2=gen.ints(0, len(PATCH) - 1),
                 seed=gen.seeds(), cin=gen.ints(1, 2), cout=gen.ints(1, 3)), quick=90,
         rule='patches by shifts, by convolution, fused, and periodic convolution; '
         'non-trivial = patch of several cells')
def patches(c, ctx):
  shape, patch, tile = PATCH[c['k']]
  rng = np.random.default_rng(c['seed'])
  a = rng.standard_normal(shape)
  want = np_patches(a, patch)
  x = jnp.asarray(a[..., None])
  ctx.close(lu.extract_patches(x, patch), want, 'default', 0.0)
  ctx.close(lu.extract_patches(x, patch, method='roll', tile_layout=tile), want, 'roll', 0.0)
  ctx.close(lu.extract_patches(x, patch, method='conv'), want, 'conv', 1e-14)
  if tile:
    ctx.close(lu.extract_patches(x, patch, method='conv', tile_layout=tile), want,
              'tiled conv', 1e-14)
  ctx.raises(ValueError, lambda: lu.extract_patches(x, patch, method='magic'), 'method')
  fused = lu.fused_extract_patches(x, [patch, patch], tile)
  ctx.close(fused, np.concatenate([want, want], -1), 'fused', 1e-14)
  y = rng.standard_normal(tuple(shape) + (c['cin'],))
  w = rng.standard_normal(tuple(patch) + (c['cin'], c['cout']))
  got = lu.periodic_convolution(jnp.asarray(y), jnp.asarray(w), tile)
  ctx.close(got, periodic_conv(y, w, 0.0, flipped=True), 'periodic convolution',
            1e-12 * w.size, 1.0 + np.abs(y).max() * np.abs(w).max())
  q = rng.standard_normal(tuple(shape) + (5,))
  r = rng.standard_normal(q.shape)
  ctx.close(lu.apply_coefficients(jnp.asarray(q), jnp.asarray(r)),
            (q * r).sum(-1, keepdims=True), 'weighted sum', 1e-13, 10.0)
  return int(np.prod(patch)) > 1


TOWERS = [
    # ndim, shape, channels, kernels, rates, strides, out channels, out kernel, rate, stride
    (1, (8,), (3, 5), ((3,), (2,)), (1, 2), (1, 1), 2, (3,), 1, 1),
    (1, (8,), (4,), ((4,),), 1, 2, 3, (1,), 1, 2),
    (1, (9,), (), (), 1, 1, 2, (3,), 2, 1),
    (2, (4, 6), (3, 5), ((3, 3), (1, 2)), (1, 1), (1, 1), 2, (3, 3), 1, 1),
    (2, (6, 4), (3, 4, 5), ((3, 3), (2, 2), (3, 1)), 1, (1, 2, 1), 1, (2, 2), 1, 1),
    (2, (5, 5), (3,), ((3, 3),), (2,), (1,), 4, (3, 3), 2, 1),
    (3, (4, 4, 2), (3,), ((2, 3, 1),), 1, 1, 2, (1, 2, 2), 1, 1),
]
NONLIN = {'relu': (jax.nn.relu, lambda x: np.maximum(x, 0)), 'tanh': (jnp.tanh, np.tanh)}


@P.facet(gen.dct(k=gen.ints(0, len(TOWERS) - 1), seed=gen.seeds(), f=gen.field(['noise', 'ints']),
                 act=gen.pick('relu', 'tanh'), scales=st.booleans(), shift=gen.ints(-5, 5),
                 uniform=st.booleans()), quick=70,
         rule='convolutional towers against composed reference layers; non-trivial = '
         'hidden layers and non-zero output')
def forward(c, ctx):
  ndim, shape, chans, kernels, rates, strides, co, ko, ro, so = TOWERS[c['k']]
  x = gen.arr(dict(c['f'], amp=1.0), shape + (2,))
  act, np_act = NONLIN[c['act']]
  seen = []

  def in_scale(v, axes):
    seen.append(tuple(axes))
    return v * 2.0 + 1.0

  def out_scale(v, axes):
    seen.append(tuple(axes))
    return v * 0.5 - 1.0
  kw = dict(inputs_scale_fn=in_scale, output_scale_fn=out_scale) if c['scales'] else {}
  if c['uniform']:
    depth = len(chans)
    hidden, ks = 3, 3
    chans, kernels = (hidden,) * depth, ((ks,) * ndim,) * depth
    ko = (2,) * ndim
    make = lambda v: towers.forward_tower_factory(
        co, ndim, num_hidden_channels=hidden, kernel_size=ks, num_hidden_layers=depth,
        rates=rates, strides=strides, output_kernel_size=2, output_dilation_rate=ro,
        output_stride=so, nonlinearity=act, **kw)(v)
  else:
    make = lambda v: towers.forward_flex_tower_factory(
        co, ndim, channels=chans, kernel_shapes=kernels, rates=rates, strides=strides,
        output_kernel_shape=ko, output_rate=ro, output_stride=so, nonlinearity=act,
        **kw)(v)
  try:
    apply, params = run(make, x, c['seed'], 0.5)
    got = core.to_np(apply(params, x))
  except Exception as e:  # pylint: disable=broad-except
    sizes, ok = list(shape), True
    rs, ss = [(r,) * len(chans) if isinstance(r, int) else r for r in (rates, strides)]
    for k, r, s in list(zip(kernels, rs, ss)) + [(ko, ro, so)]:
      for ax in range(ndim):
        if (1 + (k[ax] - 1) * r) // 2 > sizes[ax]:
          ok = False
      sizes = [-(-m // s) for m in sizes]
    if ok:
      raise
    raise core.Discard(f'kernel wider than the grid {e}')
  v = x * 2 + 1 if c['scales'] else x
  rs, ss = [(r,) * len(chans) if isinstance(r, int) else r for r in (rates, strides)]
  ws = weights(params)
  ctx.eq(len(ws), len(chans) + 1, 'number of layers')
  for (w, b), n, k, r, s in zip(ws, chans, kernels, rs, ss):
    ctx.eq(w.shape, tuple(k) + (v.shape[-1], n), 'shape of a kernel')
    v = np_act(periodic_conv(v, w, b, s, r))
  v = periodic_conv(v, *ws[-1], so, ro)
  if c['scales']:
    v = v * 0.5 - 1.0
    ctx.true(all(a == tuple(range(ndim)) for a in seen), 'spatial axes')
  ctx.close(got, v, 'tower', 1e-10, np.abs(v).max() + 1)
  total = so * int(np.prod(ss)) if len(ss) else so
  if total == 1:
    sh = [c['shift']] * ndim
    rolled = apply(params, np.roll(x, sh, tuple(range(ndim))))
    ctx.close(rolled, np.roll(v, sh, tuple(range(ndim))), 'translation', 1e-10,
              np.abs(v).max() + 1)
  return len(chans) > 0 and np.abs(v).max() > 0


COMP = dict(ndim=gen.ints(1, 2), seed=gen.seeds(), f=gen.field(['noise', 'ints']),
            n=gen.ints(1, 3))


@P.facet(gen.dct(kind=gen.pick('residual', 'blocks', 'mlp'), **COMP), quick=40,
         rule='residual towers and shared perceptrons; non-trivial = non-constant input')
def towers_of_blocks(c, ctx):
  return composites(c, ctx)


@P.facet(gen.dct(kind=gen.pick('range', 'range', 'range', 'scale', 'gridvar'),
                 range=gen.pick([-1.0, 3.0], [0.0, 1.0], [2.5, 3.0], [1.0, 7.5], [-4.0, -1.0],
                                [-2.0, 0.0], [0.25, 0.5]), ax=gen.ints(0, 6), **COMP), quick=90,
         rule='scalings of arrays and variables; non-trivial = non-constant input')
def scalings(c, ctx):
  return composites(dict(c, lo=c['range'][0], hi=c['range'][1]), ctx)


@P.facet(gen.dct(kind=gen.pick('errors', 'valid'), **COMP), quick=20,
         rule='rejected arguments, convolutions without padding and transposed ones by '
         'dimension; non-trivial = non-constant input')
def arguments(c, ctx):
  return composites(c, ctx)


def composites(c, ctx):
  ndim, kind = c['ndim'], c['kind']
  shape = (6, 4)[:ndim]
  x = gen.arr(dict(c['f'], amp=1.0), shape + (2,))
  ctx.label(kind)
  block = functools.partial(towers.forward_tower_factory, num_hidden_channels=3,
                            num_hidden_layers=1)

  def ref_block(v, ws):
    v = np.maximum(periodic_conv(v, *ws[0]), 0)
    return periodic_conv(v, *ws[1])
  if kind == 'residual':
    apply, params = run(lambda v: towers.residual_connection(
        2, ndim, module_factory=block)(v), x, c['seed'], 0.5)
    want = x + ref_block(x, weights(params))
    ctx.close(apply(params, x), want, 'residual connection', 1e-11, np.abs(want).max() + 1)
  elif kind == 'blocks':
    apply, params = run(lambda v: towers.residual_block_tower_factory(
        3, ndim, num_blocks=c['n'], block_factory=block,
        skip_connection_fn=lambda z, i: z * (i + 2.0),
        inputs_scale_fn=lambda z, axes: z * 0.5,
        output_scale_fn=lambda z, axes: z + len(axes))(v), x, c['seed'], 0.3)
    ws = weights(params)
    v = x * 0.5
    for i in range(c['n'] - 1):
      v = v * (i + 2.0) + ref_block(v, ws[2 * i: 2 * i + 2])
    v = ref_block(v, ws[-2:]) + ndim
    ctx.eq(len(ws), 2 * c['n'], 'number of layers')
    ctx.close(apply(params, x), v, 'residual blocks', 1e-10, np.abs(v).max() + 1)
  elif kind == 'mlp':
    apply, params = run(lambda v: towers.MlpTowerFactory(
        3, ndim, 5, c['n'], inputs_scale_fn=lambda z, axes: z * (1 + len(axes)),
        output_scale_fn=lambda z, axes: z - 1.0)(v), x, c['seed'], 0.5)
    ws = weights(params)
    v = x * (1 + ndim)
    for w, b in ws[:-1]:
      v = np.maximum(v @ w + b, 0)
    v = v @ ws[-1][0] + ws[-1][1] - 1.0
    ctx.eq([w.shape[1] for w, _ in ws], [5] * c['n'] + [3], 'sizes of layers')
    ctx.close(apply(params, x), v, 'pointwise perceptron', 1e-11, np.abs(v).max() + 1)
  elif kind == 'scale':
    ctx.close(towers.fixed_scale(jnp.asarray(x), tuple(range(ndim)), c['hi']), x * c['hi'],
              'fixed scale', 1e-15)
  elif kind == 'range':
    axes = [(0,), (ndim,), tuple(range(ndim)), tuple(range(ndim + 1)), (-1,), (0, -1),
            (-2,)][c['ax']]
    spread = np.ptp(x, axis=axes)
    if (spread == 0).any():
      raise core.Discard('constant slice')
    lo, hi = x.min(axes, keepdims=True), x.max(axes, keepdims=True)
    want = c['lo'] + (x - lo) / (hi - lo) * (c['hi'] - c['lo'])
    got = layers.rescale_to_range(jnp.asarray(x), c['lo'], c['hi'], axes)
    ctx.close(got, want, 'rescaled', 1e-12, 10.0)
    got2 = towers.scale_to_range(jnp.asarray(x), axes, min_value=c['lo'], max_value=c['hi'])
    ctx.close(got2, want, 'rescaled by the tower function', 1e-12, 10.0)
    ctx.close(core.to_np(got).min(axes), np.full(spread.shape, c['lo']), 'least', 1e-12, 10.0)
    ctx.close(core.to_np(got).max(axes), np.full(spread.shape, c['hi']), 'most', 1e-12, 10.0)
  elif kind == 'gridvar':
    grid = grids.Grid((4, 3), step=0.5)
    b = dict(types=[['dirichlet'] * 2, ['neumann', 'dirichlet']],
             values=[[1.0, -2.0], [0.0, 0.5]])
    vs = []
    for off in ((1.0, 0.5), (0.5, 0.5), (0.0, 0.5)):
      a = gen.var_data(dict(f=c['f'], bc=b, off=off, g=dict(shape=[4, 3])))
      vs.append((a, off, gen.gvar(a, off, grid, gen.mk_bc(b))))
    out = towers.fixed_scale_gridvar(tuple(v for _, _, v in vs), (0, 1), c['hi'])
    for (a, off, v), o in zip(vs, out):
      ctx.eq((o.offset, o.grid, o.bc), (v.offset, v.grid, v.bc), 'metadata')
      ctx.close(o, gen.imposed(a * c['hi'], dict(bc=b, off=off)), 'scaled variable', 1e-14)
  elif kind == 'valid':
    x1 = gen.arr(c['f'], (9, 2))
    apply, params = run(lambda v: layers.NonPeriodicConv1D(3, (c['n'],), rate=2)(v), x1,
                        c['seed'])
    (w, b), = weights(params)
    want = valid_conv(x1, w, b, 2)
    ctx.close(apply(params, x1), want, 'valid convolution', 1e-11, np.abs(want).max() + 1)
  else:
    def bad(**kw):
      full = dict(channels=(3, 3), kernel_shapes=((3,) * ndim,) * 2, rates=(1, 1),
                  strides=(1, 1), output_kernel_shape=(3,) * ndim)
      full.update(kw)
      hk.transform(lambda v: towers.forward_flex_tower_factory(2, ndim, **full)(v)).init(
          jax.random.PRNGKey(0), x)
    for kw in (dict(channels=(3,)), dict(rates=(1, 1, 1)), dict(strides=(1,)),
               dict(kernel_shapes=((3,) * ndim,))):
      ctx.raises(ValueError, lambda: bad(**kw), f'lengths {kw}')
    ctx.raises(ValueError, lambda: hk.transform(
        lambda v: towers.periodic_transpose_convolution(2, (3,) * ndim, ndim, rate=2)(v)
        ).init(jax.random.PRNGKey(0), x), 'dilated transposed convolution')
    apply, params = run(lambda v: towers.periodic_transpose_convolution(
        2, (3,) * ndim, ndim, rate=1, stride=c['n'])(v), x, c['seed'])
    (w, b), = weights(params)
    ctx.close(apply(params, x), periodic_transpose(x, w, b, c['n']), 'by dimension', 1e-11,
              10.0)
    return True
  return gen.nonconstant(x)
