"""C25: stencils with polynomial accuracy, learned derivatives and interpolation."""
import functools
import itertools
import math

import haiku as hk
import hypothesis.strategies as st
import jax
import jax.numpy as jnp
import numpy as np

from checks.c24 import run
from harness import core, gen
from jax_cfd.base import grids
from jax_cfd.ml import interpolations
from jax_cfd.ml import layers
from jax_cfd.ml import layers_util as lu
from jax_cfd.ml import towers

P = core.Property('C25')

METHOD = {'fd': lu.Method.FINITE_DIFFERENCE, 'fv': lu.Method.FINITE_VOLUME}
NODES, WEIGHTS = np.polynomial.legendre.leggauss(8)


def moment(x, m, method, h):
  """Point value or cell average of x**m (by Gauss quadrature)."""
  if method == 'fd':
    return x ** m
  return ((x[:, None] + h / 2 * NODES) ** m) @ WEIGHTS / 2


def exponents(total, d):
  return [e for e in itertools.product(range(total + 1), repeat=d) if sum(e) <= total]


def moment_rows(stencils, orders, accuracy, method, h):
  """Conditions: exact derivative at 0 of all monomials of total degree < p + q."""
  rows, rhs = [], []
  for e in exponents(accuracy + sum(orders) - 1, len(stencils)):
    parts = [moment(np.asarray(x), m, method, h) for x, m in zip(stencils, e)]
    rows.append(functools.reduce(np.kron, parts))
    rhs.append(math.prod(math.factorial(m) if m == o else 0 for m, o in zip(e, orders)))
  return np.array(rows), np.array(rhs, float)


def check_exact(ctx, coef, rows, rhs, msg, tol=1e-9):
  scale = np.abs(rows) @ np.abs(coef).T if coef.ndim > 1 else np.abs(rows) @ np.abs(coef)
  err = np.abs(rows @ coef.T - (rhs[:, None] if coef.ndim > 1 else rhs))
  bad = err - tol * (scale + 1.0)
  ctx.le(bad, 0.0, f'{msg}: moment conditions')


@st.composite
def stencil_case(draw, uniform=False, dims=(1, 1, 2, 2, 3)):
  d = draw(gen.pick(*dims))
  h = draw(gen.pick(1.0, 0.5, 0.1, 2.0))
  stencils = []
  orders = []
  for _ in range(d):
    n = draw(gen.ints(1, 5 if d == 1 else 4 if d == 2 else 3))
    kind = 'cells' if uniform else draw(gen.pick('cells', 'cells', 'any'))
    if kind == 'cells':
      left = draw(gen.ints(-n, 1))
      frac = draw(gen.pick(0.0, 0.5, 0.25))
      xs = [(left + i - frac) for i in range(n)]
    else:
      xs = draw(st.lists(gen.ints(-6, 6), min_size=n, max_size=n, unique=True))
      xs = [x / 2 for x in xs]
    stencils.append(xs)
    orders.append(draw(gen.ints(0, 2 if n > 2 else n - 1)))
  return dict(h=h, st=stencils, orders=orders, acc=draw(gen.ints(1, 3)),
              method=draw(gen.pick('fd', 'fv')), seed=draw(gen.seeds()))


def stencils_of(c):
  return [np.array(x) * c['h'] for x in c['st']]


@P.facet(stencil_case(), quick=200,
         rule='constraint systems of arbitrary stencils; non-trivial = a solution '
         'exists and is not unique')
def constraints(c, ctx):
  xs, h = stencils_of(c), c['h']
  orders, acc = c['orders'], c['acc']
  rows, rhs = moment_rows(xs, orders, acc, c['method'], h)
  # scale columns of degrees so that ranks are judged evenly
  weight = np.array([h ** -sum(e) for e in exponents(acc + sum(orders) - 1, len(xs))])
  srows, srhs = rows * weight[:, None], rhs * weight
  get = lambda: lu.polynomial_accuracy_constraints(xs, METHOD[c['method']], orders, acc, h)
  sol = np.linalg.lstsq(srows, srhs, rcond=1e-11)[0]
  solvable = np.abs(srows @ sol - srhs).max() <= 1e-8 * (np.abs(srhs).max() + 1)
  try:
    a, b = get()
  except ValueError:
    ctx.true(not solvable, 'satisfiable constraints were rejected')
    return False
  ctx.eq((a.ndim, b.shape, a.shape[1]), (2, (a.shape[0],), math.prod(map(len, xs))),
         'shapes')
  # the same affine set of coefficients: every row is a moment condition, and back
  full = np.column_stack([srows, srhs])
  ab = np.column_stack([a, b])
  ab = ab / np.maximum(np.abs(ab).max(1, keepdims=True), 1e-300)
  proj = np.linalg.lstsq(full.T, ab.T, rcond=1e-12)[0]
  ctx.close(full.T @ proj, ab.T, 'constraints are moment conditions', 1e-7, 1.0)
  proj = np.linalg.lstsq(ab.T, full.T, rcond=1e-12)[0]
  ctx.close(ab.T @ proj, full.T, 'all moment conditions are constraints', 1e-7,
            np.abs(full).max())
  if not solvable:
    return False
  rng = np.random.default_rng(c['seed'])
  base = np.linalg.lstsq(a, b, rcond=None)[0]
  _, s, v = np.linalg.svd(a)
  rank = int((s > 1e-10 * s.max()).sum())
  free = v[rank:]
  coef = base + rng.standard_normal((3, len(free))) @ free * np.abs(base).max()
  check_exact(ctx, coef, rows, rhs, 'random solution', 1e-7)
  return len(free) > 0


@P.facet(gen.dct(kind=gen.pick('length', 'order', 'step', 'conflict', 'method'),
                 h=gen.pick(1.0, 0.5), n=gen.ints(2, 4), acc=gen.ints(-2, 0)), quick=20,
         rule='invalid requests; non-trivial = all')
def invalid(c, ctx):
  x = np.arange(c['n']) * c['h']
  fd, fv = lu.Method.FINITE_DIFFERENCE, lu.Method.FINITE_VOLUME
  f = lu.polynomial_accuracy_constraints
  args = dict(length=([x, x], fd, [0], 1), order=([x], fd, [0], c['acc']),
              step=([x], fv, [0], 1), method=([x], 'fd', [0], 1),
              conflict=([np.array([-c['h'], c['h']])], fd, [2], 1))[c['kind']]
  if c['kind'] == 'method':
    ctx.raises(ValueError, lambda: f(*args, grid_step=1.0), 'unknown method')
  elif c['kind'] == 'conflict':
    if c['h'] == 1.0:
      ctx.raises(ValueError, lambda: f(*args), 'conflicting constraints')
  else:
    ctx.raises(ValueError, lambda: f(*args), c['kind'])
  ctx.raises(ValueError, lambda: lu.polynomial_accuracy_coefficients(
      [x], fd, [1], c['n']), 'accuracy beyond the stencil')
  return True


@P.facet(stencil_case(), quick=200,
         rule='standard coefficients; non-trivial = more than one point')
def standard(c, ctx):
  xs, h = stencils_of(c), c['h']
  limited = c['seed'] % 2 == 0
  acc = c['acc'] if limited else None
  fits = all(len(x) - o - (acc or 1) >= 0 for x, o in zip(xs, c['orders']))
  get = lambda: lu.polynomial_accuracy_coefficients(
      xs, METHOD[c['method']], c['orders'], acc, h)
  if not fits:
    ctx.raises(ValueError, get, 'stencil too small')
    return False
  coef = np.asarray(get())
  ctx.eq(coef.shape, tuple(map(len, xs)), 'one dimension per stencil')
  # exact on products of monomials of the degree reached along each axis
  reach = [(acc + o if limited else len(x)) for x, o in zip(xs, c['orders'])]
  for e in itertools.product(*[range(r) for r in reach]):
    parts = [moment(x, m, c['method'], h) for x, m in zip(xs, e)]
    row = functools.reduce(np.multiply.outer, parts)
    want = math.prod(math.factorial(m) if m == o else 0 for m, o in zip(e, c['orders']))
    ctx.le(abs((coef * row).sum() - want), 1e-7 * (np.abs(coef * row).sum() + 1),
           f'monomial {e}')
  if limited:
    # a central part of each stencil is used: at most one point more than needed
    for ax, (x, o) in enumerate(zip(xs, c['orders'])):
      used = np.abs(np.moveaxis(coef, ax, 0)).reshape(len(x), -1).max(1) > 0
      cut = (len(x) - o - acc) // 2
      ctx.true(not used[:cut].any() and not used[len(x) - cut:].any(),
               'outer points unused')
  return coef.size > 1


@P.facet(stencil_case(uniform=True), quick=150,
         rule='constraint layers with random logits; non-trivial = several free '
         'coefficients')
def layer(c, ctx):
  xs, h = stencils_of(c), c['h']
  d = len(xs)
  rng = np.random.default_rng(c['seed'])
  rows, rhs = moment_rows(xs, c['orders'], c['acc'], c['method'], h)
  steps = (h,) * d
  bias_acc = c['acc'] + (c['seed'] // 7) % 2
  make = lambda **kw: layers.PolynomialConstraint(
      xs, tuple(c['orders']), METHOD[c['method']], steps, accuracy_order=c['acc'], **kw)
  fits = all(len(x) - o >= bias_acc for x, o in zip(xs, c['orders']))
  count = len(rows)
  size = math.prod(map(len, xs))
  if not fits:
    ctx.raises(ValueError, lambda: make(bias_accuracy_order=bias_acc), 'too small')
    return False
  try:
    # conditions in units of the spacing: the same family on every grid
    a, _ = lu.polynomial_accuracy_constraints(
        [np.round(x / h, 9) for x in xs], METHOD[c['method']], c['orders'], c['acc'], 1.0)
  except ValueError:
    ctx.raises(ValueError, lambda: make(bias_accuracy_order=bias_acc), 'no solution')
    return False
  count = len(a)
  if size <= count:
    ctx.raises(ValueError, lambda: make(bias_accuracy_order=bias_acc), 'no freedom')
    return False
  con = make(bias_accuracy_order=bias_acc)
  k = con.subspace_size
  ctx.le(1, k, 'free coefficients')
  ctx.le(k, size - 1, 'not everything is free')
  logits = rng.standard_normal((2, 3, k))
  got = core.to_np(con(jnp.asarray(logits)))
  ctx.eq(got.shape, (2, 3, size), 'shape of coefficients')
  flat = got.reshape(-1, size)
  check_exact(ctx, flat, rows, rhs, 'constraint layer')
  zero = core.to_np(con(jnp.zeros(k)))
  std = np.asarray(lu.polynomial_accuracy_coefficients(
      xs, METHOD[c['method']], c['orders'], bias_acc, h)).ravel()
  ctx.close(zero, std, 'zero logits give the standard coefficients', 1e-10)
  # logits parametrize a k-dimensional family, linearly and evenly
  basis = core.to_np(con(jnp.eye(k))) - zero
  unit = h ** -sum(c['orders'])
  ctx.close(basis @ basis.T, np.eye(k) * unit ** 2, 'orthonormal directions', 1e-8)
  ctx.close(flat, zero + logits.reshape(-1, k) @ basis, 'linear in the logits', 1e-9)
  other = np.linalg.pinv(rows) @ rhs
  if np.abs(rows @ other - rhs).max() < 1e-9:
    con2 = make(bias=other)
    ctx.close(con2(jnp.zeros(k)), other, 'given bias', 1e-12)
    bad = other + unit * np.eye(size)[0]
    if np.linalg.norm(rows @ bad - rhs) > 1e-6 and np.linalg.norm(a @ (bad - other)) > 1e-6 * unit:
      ctx.raises(ValueError, lambda: make(bias=bad), 'inaccurate bias')
  if d > 1:
    ctx.raises(ValueError, lambda: layers.PolynomialConstraint(
        xs, tuple(c['orders']), METHOD[c['method']], (h, 2 * h, h)[:d]), 'unequal steps')
  return k > 1


OFFS = [0.0, 0.5, 1.0, 1.5, -0.5]
GRIDS = [((6,), (2,)), ((8,), (4,)), ((4, 6), (2, 3)), ((6, 4), (1, 2)), ((5, 5), None)]


@st.composite
def derivative_case(draw):
  shape, tile = draw(gen.pick(*GRIDS))
  d = len(shape)
  sten = [draw(gen.ints(2, 4)) for _ in range(d)]
  orders = [0] * d
  ax = draw(gen.ints(0, d - 1))
  orders[ax] = draw(gen.ints(0, min(2, sten[ax] - 1)))
  return dict(shape=list(shape), tile=None if tile is None else list(tile), sten=sten,
              orders=orders, src=[draw(gen.pick(*OFFS)) for _ in range(d)],
              dst=[draw(gen.pick(*OFFS)) for _ in range(d)], h=draw(gen.pick(1.0, 0.5, 0.1)),
              method=draw(gen.pick('fv', 'fv', 'fd')), seed=draw(gen.seeds()),
              f=draw(gen.field(['noise', 'ints', 'spike'])))


def positions(c):
  """For each axis, the integer index shifts of the stencil's points."""
  out = []
  for n, s, t in zip(c['sten'], c['src'], c['dst']):
    first = math.floor(t - s) - (n - 1) // 2
    out.append(list(range(first, first + n)))
  return out


def applied(c, a, coef):
  """sum_k coef[..., k] * a[i + shift_k], periodic."""
  vals = [np.roll(a, [-k for k in ks], tuple(range(a.ndim)))
          for ks in itertools.product(*positions(c))]
  return (np.stack(vals, -1) * coef).sum(-1)


def true_stencils(c):
  """Distances of the stencil's points from the target."""
  return [np.array([(k + s - t) * c['h'] for k in ks])
          for ks, s, t in zip(positions(c), c['src'], c['dst'])]


@P.facet(derivative_case(), quick=110,
         rule='derivatives from logits at arbitrary offsets; non-trivial = source and '
         'target differ')
def from_logits(c, ctx):
  d = len(c['shape'])
  xs = true_stencils(c)
  roll, shift = lu.get_roll_and_shift(tuple(c['src']), tuple(c['dst']))
  for r, s, a, b in zip(roll, shift, c['src'], c['dst']):
    ctx.true(isinstance(r, int) and 0 <= s < 1, 'whole roll and fractional shift')
    ctx.close(s - r, b - a, 'roll and shift add up', 1e-12, 1.0)
  got = lu.get_stencils(tuple(c['sten']), shift, (c['h'],) * d)
  for g, x in zip(got, xs):
    ctx.close(g, x, 'positions of the stencil', 1e-12, c['h'])
  rng = np.random.default_rng(c['seed'])
  make = lambda **kw: layers.SpatialDerivativeFromLogits(
      tuple(c['sten']), tuple(c['src']), tuple(c['dst']), tuple(c['orders']),
      (c['h'],) * d, method=METHOD[c['method']], **kw)
  rows, rhs = moment_rows(xs, c['orders'], 1, c['method'], c['h'])
  try:
    base = make()
  except ValueError:
    a, _ = lu.polynomial_accuracy_constraints(xs, METHOD[c['method']], c['orders'], 1, c['h'])
    ctx.le(math.prod(c['sten']), len(a), 'rejected although coefficients are free')
    return False
  k = base.subspace_size
  ctx.eq(base.stencil_size, math.prod(c['sten']), 'stencil size')
  logits = rng.standard_normal(tuple(c['shape']) + (k,))
  coef = core.to_np(base.constraint(jnp.asarray(logits)))
  check_exact(ctx, coef.reshape(-1, coef.shape[-1]), rows, rhs, 'coefficients')
  a = gen.arr(c['f'], c['shape'])
  want = applied(c, a, coef)
  x = jnp.asarray(a[..., None])
  variants = [dict(), dict(extract_patch_method='conv')]
  if c['tile']:
    variants += [dict(extract_patch_method=m, tile_layout=tuple(c['tile']))
                 for m in ('roll', 'conv')]
  scale = np.abs(coef).sum(-1).max() * np.abs(a).max()
  for kw in variants:
    ctx.close(make(**kw)(x, jnp.asarray(logits))[..., 0], want, f'derivative {kw}', 1e-12,
              scale)
  const = base(jnp.ones(tuple(c['shape']) + (1,)), jnp.asarray(logits))
  ctx.close(const[..., 0], np.full(c['shape'], float(sum(c['orders']) == 0)),
            'of a uniform field', 1e-10, np.abs(coef).sum(-1).max())
  # exact on polynomials, away from the seam
  deg = sum(c['orders'])
  mesh = np.meshgrid(*[(np.arange(n) + s) * c['h'] for n, s in zip(c['shape'], c['src'])],
                     indexing='ij')
  tmesh = np.meshgrid(*[(np.arange(n) + t) * c['h'] for n, t in zip(c['shape'], c['dst'])],
                      indexing='ij')
  inside = [np.array([all(0 <= i + k < n for k in ks) for i in range(n)])
            for ks, n in zip(positions(c), c['shape'])]
  ok = functools.reduce(np.multiply.outer, inside).astype(bool)
  poly, exact = 0.0, 0.0
  for e in exponents(deg, d):
    w = rng.standard_normal()
    term, der = w, w
    for m, o, X, T in zip(e, c['orders'], mesh, tmesh):
      if c['method'] == 'fd' or m < 2:
        term = term * X ** m
      else:
        term = term * (X ** 2 + c['h'] ** 2 / 12)
      der = der * (math.perm(m, o) * T ** (m - o) if m >= o else 0 * T)
    poly, exact = poly + term, exact + der
  out = base(jnp.asarray(np.broadcast_to(poly, c['shape'])[..., None].copy()),
             jnp.asarray(logits))[..., 0]
  ctx.close(core.to_np(out)[ok], np.broadcast_to(exact, c['shape'])[ok], 'of a polynomial',
            1e-9, np.abs(coef).sum(-1).max() * (np.abs(poly).max() + 1))
  ctx.raises(ValueError, lambda: base(x, jnp.zeros(tuple(c['shape']) + (k + 1,))),
             'number of logits')
  return c['src'] != c['dst']


@st.composite
def fuse_case(draw):
  shape, tile = draw(gen.pick(((6,), (2,)), ((4, 6), (2, 3)), ((4, 4), (1, 1))))
  d = len(shape)
  n = draw(gen.ints(1, 3))
  one = draw(st.booleans())
  first = [draw(gen.ints(2, 4)) for _ in range(d)]
  sten = [first if one else [draw(gen.ints(2, 4)) for _ in range(d)] for _ in range(n)]
  return dict(shape=list(shape), tile=list(tile) if draw(st.booleans()) else None, sten=sten,
              delta=[[draw(gen.pick(0.0, 0.5, 0.25)) for _ in range(d)] for _ in range(n)],
              conv=draw(st.booleans()), patches=draw(st.booleans()) and one,
              method=draw(gen.pick('roll', 'conv')), seed=draw(gen.seeds()),
              order=draw(gen.ints(0, 1)))


@P.facet(fuse_case(), quick=60,
         rule='fused evaluation of several derivatives; non-trivial = at least two')
def fused(c, ctx):
  d = len(c['shape'])
  rng = np.random.default_rng(c['seed'])
  tile = None if c['tile'] is None else tuple(c['tile'])
  ders = {}
  for i, (s, dl) in enumerate(zip(c['sten'], c['delta'])):
    orders = (c['order'] if i == 0 else 0,) + (0,) * (d - 1)
    try:
      ders[f'd{i}'] = layers.SpatialDerivativeFromLogits(
          tuple(s), (0.0,) * d, tuple(dl), orders, (0.5,) * d, c['method'], tile)
    except ValueError:
      raise core.Discard('no free coefficients')
  sizes = [q.subspace_size for q in ders.values()]
  logits = jnp.asarray(rng.standard_normal(tuple(c['shape']) + (sum(sizes),)))
  conv = c['conv'] and tile is not None
  fns = layers.fuse_spatial_derivative_layers(
      ders, logits, constrain_with_conv=conv, fuse_patches=c['patches'])
  ctx.eq(list(fns), list(ders), 'keys')
  start = 0
  for key, q in ders.items():
    x = jnp.asarray(rng.standard_normal(tuple(c['shape']) + (1,)))
    mine = logits[..., start:start + q.subspace_size]
    start += q.subspace_size
    want = core.to_np(q(x, mine))
    scale = 10 * (1 + np.abs(core.to_np(q.constraint(mine))).sum(-1).max())
    ctx.close(fns[key](x), want, f'fused derivative {key}', 1e-12, scale)
  rolled = dict(ders, bad=layers.SpatialDerivativeFromLogits(
      (3,) * d, (0.5,) * d, (0.0,) * d, (0,) * d, (0.5,) * d, c['method'], tile))
  more = jnp.zeros(tuple(c['shape']) + (sum(sizes) + rolled['bad'].subspace_size,))
  ctx.raises(ValueError, lambda: layers.fuse_spatial_derivative_layers(rolled, more),
             'derivatives that roll their input')
  return len(ders) > 1


def tower(n, ndim, name=None):
  kw = {} if name is None else dict(name=name)
  return towers.forward_tower_factory(n, ndim, num_hidden_channels=4, num_hidden_layers=1,
                                      kernel_size=2, output_kernel_size=3, **kw)


@P.facet(derivative_case(), quick=60,
         rule='learned derivatives with random networks; non-trivial = source and '
         'target differ')
def learned(c, ctx):
  d = len(c['shape'])
  aux = c['seed'] % 3
  rng = np.random.default_rng(c['seed'])
  a = gen.arr(dict(c['f'], amp=1.0), c['shape'])
  extra = [rng.standard_normal(tuple(c['shape']) + (1,)) for _ in range(aux)]
  inputs = (a[..., None],) + tuple(extra)
  mix = rng.standard_normal((1 + aux, 300))

  def network(n):
    """A local network: logits depend on the inputs at the same point."""
    return lambda v: jnp.tanh(v @ mix[:, :n])
  make = lambda factory=network, **kw: layers.SpatialDerivative(
      tuple(c['sten']), tuple(c['src']), tuple(c['dst']), tuple(c['orders']),
      factory, (c['h'],) * d, **kw)
  xs = true_stencils(c)
  try:
    con = layers.PolynomialConstraint(xs, tuple(c['orders']), METHOD['fv'], (c['h'],) * d)
  except ValueError:
    ctx.raises(ValueError, make, 'no free coefficients')
    return False
  # the network sees the inputs rolled next to the target
  roll = [-math.floor(t - s) for s, t in zip(c['src'], c['dst'])]
  seen = np.roll(np.concatenate(inputs, -1), roll, tuple(range(d)))
  coef = core.to_np(con(jnp.tanh(seen @ mix[:, :con.subspace_size])))
  rows, rhs = moment_rows(xs, c['orders'], 1, 'fv', c['h'])
  check_exact(ctx, coef.reshape(-1, coef.shape[-1]), rows, rhs, 'learned coefficients')
  ctx.close(make()(*inputs)[..., 0], applied(c, a, coef), 'learned derivative', 1e-11,
            np.abs(coef).sum(-1).max() * np.abs(a).max())
  std = layers.StencilCoefficients(xs, tuple(c['orders']), network, (c['h'],) * d)
  ctx.close(std(jnp.asarray(seen)), coef, 'stencil coefficients', 1e-12)
  local = make
  make = lambda **kw: local(functools.partial(tower, ndim=d), **kw)
  apply, params = run(lambda v: make()(*v), inputs, c['seed'], 0.3)
  got = core.to_np(apply(params, inputs))
  scale = np.abs(got).max() + 1
  for kw in [dict(extract_patch_method='conv')] + (
      [dict(extract_patch_method='conv', tile_layout=tuple(c['tile']))] if c['tile'] else []):
    f = hk.without_apply_rng(hk.transform(lambda v: make(**kw)(*v)))
    ctx.close(f.apply(params, inputs), got, f'extraction {kw}', 1e-10, scale)
  ones = (np.full_like(inputs[0], 2.5),) + inputs[1:]
  flat = apply(params, ones)
  ctx.close(flat, np.full(got.shape, 2.5 if sum(c['orders']) == 0 else 0.0),
            'of a uniform field', 1e-8, max(scale, c['h'] ** -sum(c['orders']) * 10))
  sh = [1 + c['seed'] % 3] * d
  moved = apply(params, tuple(np.roll(v, sh, tuple(range(d))) for v in inputs))
  ctx.close(moved, np.roll(got, sh, tuple(range(d))), 'translation', 1e-10, scale)
  return c['src'] != c['dst']


@st.composite
def interp_case(draw):
  shape, tile = draw(gen.pick(((4, 6), (2, 3)), ((6, 4), (1, 2)), ((4, 4), (1, 1))))
  return dict(shape=list(shape), tile=list(tile), h=draw(gen.pick(1.0, 0.25)),
              kind=draw(gen.pick('fused', 'fused', 'aniso', 'individual')),
              size=draw(gen.ints(2, 4)), tags=draw(gen.pick([None], ['c', 'u'])),
              seed=draw(gen.seeds()), f=draw(gen.field(['noise', 'ints'])),
              const=draw(gen.floats(-3, 3)))


@P.facet(interp_case(), quick=32, shards=2,
         rule='learned interpolation of staggered velocities; non-trivial = all')
def interpolation(c, ctx):
  n = c['shape']
  grid = grids.Grid(tuple(n), step=c['h'])
  bc = gen.periodic_bc(2)
  data = [gen.arr(dict(c['f'], seed=c['f']['seed'] + i, amp=1.0), n) for i in range(2)]

  def variables(arrays):
    return tuple(gen.gvar(a, gen.face_offset(2, i), grid, bc) for i, a in enumerate(arrays))
  tags = tuple(c['tags'])

  def build(v, **kw):
    if c['kind'] == 'individual':
      return interpolations.IndividualLearnedInterpolation(
          grid, 0.1, None, v, stencil_size=c['size'], tower_factory=tower)
    cls = (interpolations.FusedLearnedInterpolation if c['kind'] == 'fused'
           else interpolations.anisotropic_learned_interpolation)
    return cls(grid, 0.1, None, v, tags=tags, stencil_size=c['size'], tower_factory=tower,
               **kw)
  targets = {0: [(1.5, 0.5), (1.0, 1.0)], 1: [(1.0, 1.0), (0.5, 1.5)]}
  jobs = [(i, t, tag) for i in range(2) for t in targets[i]
          for tag in (tags if c['kind'] != 'individual' else (None,))]

  def fwd(args, replace=None, **kw):
    """Interpolates the velocity (or `replace`) given the network sees `args`."""
    v = variables(args)
    fn = build(v, **kw)
    out = []
    for i, t, tag in jobs:
      src = v[i] if replace is None else gen.gvar(replace, v[i].offset, grid, bc)
      extra = {} if tag is None else dict(tag=tag)
      out.append(fn(src, t, v, 0.1, **extra))
    same = fn(v[0], v[0].offset, v, 0.1)
    return out, same
  apply, params = run(fwd, data, c['seed'], 0.3)
  out, same = apply(params, data)
  v = variables(data)
  ctx.close(same, data[0], 'to its own offset', 0.0)
  ctx.eq((same.offset, same.grid, same.bc), (v[0].offset, grid, bc), 'own offset metadata')
  for (i, t, _), o in zip(jobs, out):
    ctx.eq((o.offset, o.grid, o.bc, o.shape), (t, grid, bc, tuple(n)), 'metadata')
    ctx.finite(o, 'values')
  scale = max(np.abs(core.to_np(o)).max() for o in out) + 1
  flat = np.full(n, c['const'])
  f = hk.without_apply_rng(hk.transform(lambda a: fwd(a, replace=flat)[0]))
  for o in f.apply(params, data):
    ctx.close(o, flat, 'uniform field', 1e-8, scale + abs(c['const']))
  sh = (1 + c['seed'] % 2, c['seed'] % 5)
  moved, _ = apply(params, [np.roll(a, sh, (0, 1)) for a in data])
  for o, m in zip(out, moved):
    ctx.close(m, np.roll(core.to_np(o), sh, (0, 1)), 'translation', 1e-9, scale)
  if c['kind'] == 'individual':
    return True
  tile = tuple(c['tile'])
  options = [dict(extract_patch_method='conv'),
             dict(extract_patch_method='conv', tile_layout=tile),
             dict(fuse_constraints=True), dict(fuse_constraints=True, tile_layout=tile)]
  if c['kind'] == 'fused':
    options += [dict(fuse_constraints=True, fuse_patches=True),
                dict(fuse_constraints=True, fuse_patches=True, constrain_with_conv=True,
                     tile_layout=tile)]
  kw = options[c['seed'] % len(options)]
  f = hk.without_apply_rng(hk.transform(lambda a: fwd(a, **kw)[0]))
  tol = 1e-10
  for o, q in zip(out, f.apply(params, data)):
    ctx.close(q, o, f'options {kw}', tol, scale * 10)
  ctx.label(str(sorted(kw)))

  def missing(a):
    w = variables(a)
    build(w)(w[0], (0.5, 0.5), w, 0.1, tag='nothing')
  f = hk.without_apply_rng(hk.transform(missing))
  ctx.raises(KeyError, lambda: f.apply(params, data), 'unknown interpolation')
  return True


@P.facet(gen.dct(shape=gen.pick([9], [8], [7, 5], [6, 6], [4, 5, 3]),
                 size=st.lists(gen.ints(1, 7), min_size=3, max_size=3), seed=gen.seeds()),
         quick=60, rule='patches of every stencil by shifts and by convolution against '
         'shifted copies; non-trivial = patch of several cells')
def extraction(c, ctx):
  shape = tuple(c['shape'])
  limit = 7 if len(shape) < 3 else 4
  patch = tuple(min(p, n, limit) for p, n in zip(c['size'], shape))
  a = np.random.default_rng(c['seed']).standard_normal(shape)
  shifts = [range(-((p - 1) // 2), p // 2 + 1) for p in patch]
  want = np.stack([np.roll(a, [-k for k in s], tuple(range(a.ndim)))
                   for s in itertools.product(*shifts)], -1)
  x = jnp.asarray(a[..., None])
  for method in ('roll', 'conv'):
    ctx.close(lu.extract_patches(x, patch, method), want, f'by {method}', 1e-14)
  ctx.close(lu.fused_extract_patches(x, [patch, patch], None),
            np.concatenate([want] * 2, -1), 'fused', 1e-14)
  return int(np.prod(patch)) > 1
