"""C14: array helpers."""
import hypothesis.strategies as st
import jax
import jax.numpy as jnp
import numpy as np

from harness import core, gen
from jax_cfd.base import array_utils as au

P = core.Property('C14')
SHAPES = [[3], [1], [4], [3, 4], [2, 5], [4, 1], [2, 3, 4]]


@st.composite
def tree_case(draw):
  shape = draw(st.sampled_from(SHAPES))
  axis = draw(gen.ints(-len(shape), len(shape) - 1))
  n = shape[axis]
  # leaves share the number of dimensions and the size along the axis
  leaves = draw(gen.ints(1, 3))
  others = [list(shape)]
  for _ in range(leaves - 1):
    s = [draw(gen.pick(1, 2, 3)) for _ in shape]
    s[axis] = n
    others.append(s)
  lo = draw(gen.ints(-n - 1, n + 1))
  hi = draw(gen.pick(None, *range(-n - 1, n + 2)))
  step = draw(gen.pick(None, 1, 2, -1))
  return dict(shapes=others, axis=axis, idx=draw(gen.ints(-n, n - 1)), lo=lo, hi=hi,
              step=step, cut=draw(gen.ints(0, n)), seed=draw(gen.seeds()),
              form=draw(gen.pick('single', 'tuple', 'dict')))


def build(c):
  rng = np.random.default_rng(c['seed'])
  arrs = [rng.standard_normal(s) for s in c['shapes']]
  return arrs, pack([jnp.asarray(a) for a in arrs], c['form'])


def pack(leaves, form):
  if form == 'single' and len(leaves) == 1:
    return leaves[0]
  if form == 'dict':
    return {'abc'[i]: (x,) for i, x in enumerate(leaves)}
  return (leaves[0], tuple(leaves[1:]))


def same(ctx, got, want, c, msg):
  ctx.true(jax.tree.structure(got) == jax.tree.structure(pack(want, c['form'])),
           f'{msg}: structure')
  for g, w in zip(jax.tree.leaves(got), jax.tree.leaves(pack(want, c['form']))):
    ctx.eq(np.shape(g), np.shape(w), f'{msg}: shape')
    ctx.true(np.array_equal(np.asarray(g), np.asarray(w)), msg)


@P.facet(tree_case(), quick=150, shards=2,
         rule='slicing, splitting and concatenating nested structures along any '
         'axis vs numpy and as inverses; non-trivial = more than one leaf or axis')
def trees(c, ctx):
  arrs, tree = build(c)
  ax = c['axis']
  at = lambda a, i: np.moveaxis(np.moveaxis(a, ax, 0)[i], 0, ax)
  sl = slice(c['lo'], c['hi'], c['step'])
  same(ctx, au.slice_along_axis(tree, ax, sl), [at(a, sl) for a in arrs], c, 'slice')
  same(ctx, au.slice_along_axis(tree, ax, c['idx']),
       [np.take(a, c['idx'], axis=ax) for a in arrs], c, 'index')
  one, two = au.split_along_axis(tree, c['cut'], ax)
  same(ctx, one, [at(a, slice(0, c['cut'])) for a in arrs], c, 'first part')
  same(ctx, two, [at(a, slice(c['cut'], None)) for a in arrs], c, 'second part')
  same(ctx, au.concat_along_axis([one, two], ax), arrs, c, 'concatenation')
  n = arrs[0].shape[ax]
  for keep in (False, True):
    parts = au.split_axis(tree, ax, keep_dims=keep)
    ctx.eq(len(parts), n, 'number of slices')
    for i, p in enumerate(parts):
      want = [np.take(a, i, axis=ax) for a in arrs]
      if keep:
        want = [np.expand_dims(w, ax) for w in want]
      same(ctx, p, want, c, f'slice {i}')
    if keep:
      same(ctx, au.concat_along_axis(list(parts), ax), arrs, c, 'slices together')
  un = au.unstack(jnp.asarray(arrs[0]), ax)
  ctx.eq(len(un), n, 'unstacked')
  for i, p in enumerate(un):
    ctx.true(np.array_equal(np.asarray(p), np.take(arrs[0], i, axis=ax)), 'unstack')
  return len(arrs) > 1 or arrs[0].ndim > 1


@P.facet(gen.dct(seed=gen.seeds(), axis=gen.pick(0, -1, 1)), quick=30,
         rule='structures whose leaves differ; all non-trivial')
def ragged(c, ctx):
  rng = np.random.default_rng(c['seed'])
  a, b = rng.standard_normal((4, 4)), rng.standard_normal((4, 4, 4))
  ctx.raises(ValueError, lambda: au.slice_along_axis((a, b), c['axis'], 0),
             'different ranks')
  got = au.slice_along_axis((a, b), c['axis'], 1, expect_same_dims=False)
  for x, y in zip(got, (a, b)):
    ctx.true(np.array_equal(x, np.take(y, 1, axis=c['axis'])), 'different ranks')
  one, two = au.split_along_axis((a, b), 1, c['axis'], expect_same_dims=False)
  for x, y, z in zip(one, two, (a, b)):
    ctx.true(np.array_equal(np.concatenate([x, y], c['axis']), z), 'split ranks')
  ctx.raises(ValueError, lambda: au.split_axis((a, b[:3, :3, :3]), c['axis']),
             'different sizes')
  ctx.raises(ValueError, lambda: au.slice_along_axis(a, 2, 0), 'axis out of range')
  ctx.raises(ValueError, lambda: au.slice_along_axis(a, -3, 0), 'axis out of range')
  return True


@st.composite
def block_case(draw):
  d = draw(gen.ints(1, 3))
  n = [draw(gen.pick(1, 2, 3)) for _ in range(d)]
  b = [draw(gen.pick(1, 2, 3)) for _ in range(d)]
  return dict(n=n, b=b, fn=draw(gen.pick('mean', 'sum', 'max', 'first')),
              seed=draw(gen.seeds()))


@P.facet(block_case(), quick=120,
         rule='block reduction vs explicit loops; sizes that do not divide are '
         'refused; non-trivial = a block of several entries')
def blocks(c, ctx):
  shape = [x * y for x, y in zip(c['n'], c['b'])]
  a = np.random.default_rng(c['seed']).standard_normal(shape)
  fns = {'mean': (jnp.mean, np.mean), 'sum': (jnp.sum, np.sum),
         'max': (jnp.max, np.max),
         'first': (lambda x: x.ravel()[0], lambda x: x.ravel()[0])}
  fj, fn = fns[c['fn']]
  got = au.block_reduce(jnp.asarray(a), tuple(c['b']), fj)
  want = np.zeros(c['n'])
  for idx in np.ndindex(*c['n']):
    want[idx] = fn(a[tuple(slice(i * k, (i + 1) * k) for i, k in zip(idx, c['b']))])
  ctx.close(got, want, 'block reduction', 1e-13, np.abs(a).max() * a.size)
  if c['b'][0] > 1:
    ctx.raises(ValueError, lambda: au.block_reduce(jnp.asarray(a[1:]),
                                                   tuple(c['b']), fj), 'remainder')
  return core.prod(c['b']) > 1


@st.composite
def interp_case(draw):
  n = draw(gen.pick(2, 3, 6))
  lead = draw(gen.pick([], [2], [2, 3]))
  axis = draw(gen.ints(0, len(lead)))
  shape = lead[:axis] + [n] + lead[axis:]
  neg = draw(st.booleans())
  return dict(n=n, shape=shape, axis=axis - len(shape) if neg else axis,
              query=draw(gen.pick([], [1], [4], [2, 3])), seed=draw(gen.seeds()),
              fill=draw(gen.pick('nan', 'number', 'extrapolate',
                                 'constant_extrapolate')),
              sort=draw(gen.pick(True, True, False)),
              where=draw(gen.pick('inside', 'any', 'nodes', 'outside')))


@P.facet(interp_case(), quick=130, shards=3,
         rule='1-D interpolation on random nodes, for any axis, query shape, fill '
         'and order of nodes; non-trivial = several nodes in range')
def interp1d(c, ctx):
  rng = np.random.default_rng(c['seed'])
  x = np.cumsum(rng.uniform(0.2, 2.0, c['n'])) - 2.0
  y = rng.standard_normal(c['shape'])
  lo, hi = x[0], x[-1]
  q = {'inside': lambda s: rng.uniform(lo, hi, s),
       'any': lambda s: rng.uniform(lo - 2, hi + 2, s),
       'nodes': lambda s: rng.choice(x, s),
       'outside': lambda s: np.where(rng.random(s) < .5, lo - rng.uniform(.1, 2, s),
                                     hi + rng.uniform(.1, 2, s))}[c['where']](
                                         tuple(c['query']))
  q = np.asarray(q)
  kw = {'nan': {}, 'number': dict(fill_value=-7.5)}.get(
      c['fill'], dict(fill_value=c['fill']))
  order = np.arange(c['n'])
  if not c['sort']:
    order = rng.permutation(c['n'])
    kw['assume_sorted'] = False
  f = au.interp1d(x[order], np.take(y, order, axis=c['axis']), axis=c['axis'], **kw)
  got = f(jnp.asarray(q))
  ax = c['axis'] % y.ndim
  cols = np.moveaxis(y, ax, 0)
  want = np.zeros((q.size,) + cols.shape[1:])
  for j, p in enumerate(q.ravel()):
    pp = np.clip(p, lo, hi) if c['fill'] == 'constant_extrapolate' else p
    i = int(np.clip(np.searchsorted(x, pp, side='right') - 1, 0, c['n'] - 2))
    w = (pp - x[i]) / (x[i + 1] - x[i])
    want[j] = cols[i] + w * (cols[i + 1] - cols[i])
    if c['fill'] in ('nan', 'number') and not lo <= p <= hi:
      want[j] = np.nan if c['fill'] == 'nan' else -7.5
  want = want.reshape(q.shape + cols.shape[1:])
  want = np.moveaxis(want, list(range(q.ndim)), list(range(ax, ax + q.ndim)))
  ctx.eq(got.shape, tuple(y.shape[:ax]) + q.shape + tuple(y.shape[ax + 1:]), 'shape')
  ctx.close(got, want, f'interpolation with {c["fill"]}', 1e-11, 100.0)
  return c['where'] != 'outside' and q.size > 0


@P.facet(interp_case(), quick=30,
         rule='malformed interpolation requests are refused; all non-trivial')
def interp1d_refusals(c, ctx):
  rng = np.random.default_rng(c['seed'])
  x, y = np.arange(c['n'] * 1.0), rng.standard_normal(c['shape'])
  ctx.raises(ValueError, lambda: au.interp1d(x, y, c['axis'], 'nearest'), 'fill')
  ctx.raises(ValueError, lambda: au.interp1d(x, y, c['axis'], np.ones(2)), 'fill')
  ctx.raises(ValueError, lambda: au.interp1d(x[:1], y, c['axis']), 'single node')
  ctx.raises(ValueError, lambda: au.interp1d(np.arange(c['n'] + 1.0), y, c['axis']),
             'lengths')
  ctx.raises(ValueError, lambda: au.interp1d(x[None], y, c['axis']), 'nodes not 1-D')
  return True


@P.facet(gen.dct(m=gen.pick(3, 5, 8), n=gen.pick(1, 2, 3), seed=gen.seeds(),
                 scale=gen.pick(1.0, 1e-3, 50.0)), quick=80,
         rule='QR by Gram-Schmidt; non-trivial = more than one column')
def qr(c, ctx):
  rng = np.random.default_rng(c['seed'])
  a = rng.standard_normal((c['m'], c['n'])) * c['scale']
  if np.linalg.cond(a) > 1e3:
    raise core.Discard()
  q, r = map(np.asarray, au.gram_schmidt_qr(jnp.asarray(a)))
  ctx.close(q.T @ q, np.eye(c['n']), 'orthonormal columns', 1e-8, 1.0)
  ctx.close(q @ r, a, 'product', 1e-8, np.abs(a).max())
  ctx.close(np.tril(r, -1), np.zeros((c['n'],) * 2), 'triangular', 1e-12,
            np.abs(a).max())
  ctx.true((np.diagonal(r) > 0).all(), 'positive diagonal')
  return c['n'] > 1
