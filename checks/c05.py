"""C05: interpolation."""
import itertools

import hypothesis.strategies as st
import jax.numpy as jnp
import numpy as np

from harness import core, gen
from jax_cfd.base import grids
from jax_cfd.base import interpolation as ip

P = core.Property('C05')
TARGETS = [0.0, 0.5, 1.0, 0.25, 0.75, -0.5, 1.5, 2.0]


def ref_shift0(a, c, ax):
  """shift by 0 states the wall value on a non-periodic axis."""
  if c['bc']['types'][ax][0] != 'periodic':
    a = gen.imposed(a, c, axes=[ax], sides=(1,))
  return a


def ref_linear(a, c, target):
  off = list(c['off'])
  for ax, o in enumerate(target):
    cc = dict(c, off=list(off))
    d = o - off[ax]
    if d == 0:
      continue
    if d == int(d):
      a = gen.ext_shift(a, cc, ax, int(d))
    else:
      f = int(np.floor(d))
      w = d - f
      lo = ref_shift0(a, cc, ax) if f == 0 else gen.ext_shift(a, cc, ax, f)
      hi = (ref_shift0(a, cc, ax) if f + 1 == 0
            else gen.ext_shift(a, cc, ax, f + 1))
      a = (1 - w) * lo + w * hi
    off[ax] = o
  return a


@st.composite
def linear_case(draw):
  c = draw(gen.variable())
  c['target'] = [draw(gen.pick(*TARGETS)) if draw(st.booleans()) else o
                 for o in c['off']]
  return c


@P.facet(linear_case(), quick=200, shards=3,
         rule='any variable to any offset in [-0.5, 2]; non-trivial = target '
         'differs from the source')
def linear(c, ctx):
  a = gen.var_data(c)
  g = gen.mk_grid(c['g'])
  bc = gen.mk_bc(c['bc'])
  u = gen.gvar(a, c['off'], g, bc)
  got = ip.linear(u, tuple(c['target']))
  want = ref_linear(a, c, c['target'])
  ctx.close(got, want, f'linear {c["off"]} -> {c["target"]}', 1e-11,
            np.abs(a).max() + 4)
  ctx.eq(tuple(got.offset), tuple(c['target']), 'offset')
  ctx.true(got.grid == g and got.bc == bc, 'metadata')
  if all(t[0] == 'periodic' for t in c['bc']['types']):
    ctx.le(got, np.full(a.shape, a.max()), 'above the range', 1e-12 * np.abs(a).max())
    ctx.le(np.full(a.shape, a.min()), got, 'below the range', 1e-12 * np.abs(a).max())
    ctx.label('periodic')
  same = ip.linear(u, tuple(c['off']))
  ctx.close(same, a, 'interpolation to the own offset', 0)
  ctx.raises(ValueError, lambda: ip.linear(u, tuple(c['target']) + (0.5,)),
             'offset of the wrong length')
  return list(c['target']) != list(c['off'])


@P.facet(gen.dct(g=gen.grid((1, 2, 3), {1: [(5,)], 2: [(5, 4)], 3: [(4, 4, 5)]}),
                 coef=st.lists(gen.floats(-2, 2), min_size=8, max_size=8),
                 off=st.lists(gen.pick(0.0, 0.5, 1.0), min_size=3, max_size=3),
                 target=st.lists(gen.pick(0.0, 0.5, 1.0, 0.25), min_size=3,
                                 max_size=3)),
         quick=80, rule='multi-linear fields reproduced in the interior; '
         'non-trivial = offsets differ')
def multilinear(c, ctx):
  g = gen.mk_grid(c['g'])
  d = g.ndim
  terms = list(itertools.product((0, 1), repeat=d))
  def f(*xs):
    out = 0.0
    for co, t in zip(c['coef'], terms):
      m = co
      for x, e, (lo, hi) in zip(xs, t, g.domain):
        if e:
          m = m * (x - lo) / (hi - lo)
      out = out + m
    return out + 0 * xs[0]
  off, target = tuple(c['off'][:d]), tuple(c['target'][:d])
  u = grids.GridVariable(g.eval_on_mesh(f, off), gen.periodic_bc(d))
  want = f(*[np.asarray(m) for m in g.mesh(target)])
  inner = tuple(slice(1, -1) for _ in range(d))
  ctx.close(np.asarray(ip.linear(u, target).data)[inner], want[inner],
            'multi-linear field', 1e-11, np.abs(c['coef']).sum() * 4 + 1e-9)
  return off != target


@st.composite
def face_case(draw, types=('dirichlet', 'periodic', 'neumann')):
  c = draw(gen.variable(types=types, ndims=(1, 2),
                        pool={1: [(3,), (5,)], 2: [(4, 3), (3, 5), (4, 4)]}))
  c['axis'] = draw(gen.ints(0, len(c['off']) - 1))
  c['u'] = draw(gen.field(kinds=['noise', 'ints', 'step', 'modes', 'const'],
                          amps=(1.0, -1.0, 0.1)))
  c['cfl'] = draw(gen.pick(1.0, 0.5, 0.9, 0.01, 1e-6, 0.0))
  return c


def velocity(c, g, delta=0.5):
  """Velocity tuple whose entry along the axis lies `delta` ahead of c."""
  target = tuple(o + (delta if i == c['axis'] else 0)
                 for i, o in enumerate(c['off']))
  u = gen.arr(c['u'], g.shape)
  v = [None] * g.ndim
  for i in range(g.ndim):
    v[i] = gen.gvar(u if i == c['axis'] else u * 0 + 7.0,
                    target if i == c['axis'] else c['off'], g,
                    gen.periodic_bc(g.ndim))
  return target, u, tuple(v)


def step_size(c, g, u):
  m = np.abs(u).max()
  return c['cfl'] * g.step[c['axis']] / m if m else 0.3


@P.facet(face_case(), quick=150, shards=3,
         rule='cell values to a face along one axis with velocities of either '
         'sign; non-trivial = velocity has both signs or data varies')
def faces(c, ctx):
  a = gen.var_data(c)
  g = gen.mk_grid(c['g'])
  ax = c['axis']
  var = gen.gvar(a, c['off'], g, gen.mk_bc(c['bc']))
  target, u, v = velocity(c, g)
  dt = step_size(c, g, u)
  left = ref_shift0(a, c, ax)
  right = gen.ext_shift(a, c, ax, 1)
  left2 = gen.ext_shift(a, c, ax, -1)
  right2 = gen.ext_shift(a, c, ax, 2)
  scale = max(np.abs(x).max() for x in (a, right, left2, right2)) + 1e-12
  up = ip.upwind(var, target, v, dt)
  ctx.eq(tuple(up.offset), target, 'upwind offset')
  ctx.true(up.grid == g, 'upwind grid')
  got = np.asarray(up.data)
  ctx.close(got[u > 0], left[u > 0], 'upwind, positive velocity', 1e-12, scale)
  ctx.close(got[u < 0], right[u < 0], 'upwind, negative velocity', 1e-12, scale)
  z = u == 0
  ctx.true(np.all((np.abs(got - left) <= 1e-12 * scale)[z]
                  | (np.abs(got - right) <= 1e-12 * scale)[z]),
           'upwind at rest is one of the neighbours')
  # Lax-Wendroff
  cn = dt * u / g.step[ax]
  want = np.where(u > 0, left + 0.5 * (1 - cn) * (right - left),
                  right - 0.5 * (1 + cn) * (right - left))
  lw = ip.lax_wendroff(var, target, v, dt)
  ctx.close(lw, want, 'lax-wendroff', 1e-11, scale)
  ctx.eq(tuple(lw.offset), target, 'lax-wendroff offset')
  # limited
  for name, hi_fn, hi in (('lax', ip.lax_wendroff, want),
                          ('linear', ip.linear, None)):
    tv = ip.apply_tvd_limiter(hi_fn)(var, target, v, dt)
    ctx.eq(tuple(tv.offset), target, 'limited offset')
    data = np.asarray(tv.data)
    lo_, hi_ = np.minimum(left, right), np.maximum(left, right)
    ctx.le(data, hi_, f'limited ({name}) above both neighbours', 1e-10 * scale)
    ctx.le(lo_, data, f'limited ({name}) below both neighbours', 1e-10 * scale)
    if hi is None:
      hi = 0.5 * (left + right)
    delta = right - left
    sure = (np.abs(delta) > 1e-5 * scale) & (u != 0)
    with np.errstate(all='ignore'):
      r = np.where(u > 0, (left - left2) / delta, (right2 - right) / delta)
      phi = np.where(r > 0, 2 * r / (1 + r), 0.0)
      low = np.where(u > 0, left, right)
      ref = low + phi * (hi - low)
    ctx.close(data[sure], ref[sure], f'limited ({name}) formula', 1e-8, scale)
  # same offset: identity; integer offset: pure shift
  for fn in (ip.upwind, ip.lax_wendroff):
    ctx.close(fn(var, tuple(c['off']), v, dt), a, 'own offset', 0)
  if g.ndim > 1:
    both = tuple(o + 0.5 for o in c['off'])
    for fn in (ip.upwind, ip.lax_wendroff):
      ctx.raises(grids.InconsistentOffsetError, lambda: fn(var, both, v, dt),
                 'moving along two axes at once')
  t1, _, v1 = velocity(c, g, 1.0)
  ctx.close(ip.upwind(var, t1, v1, dt), right, 'upwind by a whole cell', 1e-12,
            scale)
  back = tuple(o - (0.5 if i == ax else 0) for i, o in enumerate(c['off']))
  ctx.raises(NotImplementedError,
             lambda: ip.apply_tvd_limiter(ip.lax_wendroff)(var, back, v, dt),
             'limited interpolation backwards')
  ctx.label('both-signs' if (u > 0).any() and (u < 0).any() else 'one-sign')
  return gen.nonconstant(a) or bool((u > 0).any() and (u < 0).any())


@P.facet(st.lists(st.one_of(gen.floats(-50, 50), gen.pick(
    0.0, 1.0, -1.0, 1e-12, 1e12, -1e-12)), min_size=8, max_size=8),
         quick=150, rule='slope ratios; non-trivial = both signs')
def limiter(c, ctx):
  r = np.array(c, float)
  phi = np.asarray(ip.van_leer_limiter(jnp.asarray(r)))
  ctx.close(phi, np.where(r > 0, 2 * r / np.where(r > 0, 1 + r, 1), 0), 'limiter',
            1e-12)
  ctx.true(np.all(phi >= 0) and np.all(phi <= 2) and np.all(
      phi <= np.maximum(2 * r, 0) + 1e-12), 'Sweby region')
  y = np.roll(r, 1)
  d = np.asarray(ip.safe_div(jnp.asarray(r), jnp.asarray(y)))
  ctx.finite(d, 'safe division')
  ctx.close(d[y != 0], (r / np.where(y != 0, y, 1))[y != 0], 'safe division', 1e-12)
  return bool((r > 0).any() and (r < 0).any())


@st.composite
def point_case(draw):
  g = draw(gen.grid((1, 2, 3), {1: [(4,)], 2: [(4, 3)], 3: [(3, 4, 2)]}))
  d = len(g['shape'])
  return dict(g=g, f=draw(gen.field()),
              off=[draw(gen.pick(0.0, 0.5, 1.0)) for _ in range(d)],
              pt=[draw(gen.floats(-0.9, 1.9)) for _ in range(d)],
              mode=draw(gen.pick('nearest', 'wrap', 'constant', None, 'mirror',
                                 'reflect')),
              order=draw(gen.pick(1, 1, 0)), cval=draw(gen.pick(0.0, 2.5)))


def fold(j, n, mode):
  """Index of the sample that stands for index j beyond the array."""
  if mode == 'wrap':
    return j % n
  if mode == 'mirror':  # d c b | a b c d | c b a
    if n == 1:
      return 0
    j = j % (2 * n - 2)
    return j if j < n else 2 * n - 2 - j
  if mode == 'reflect':  # d c b a | a b c d | d c b a
    j = j % (2 * n)
    return j if j < n else 2 * n - 1 - j
  return min(max(j, 0), n - 1)


@P.facet(point_case(), quick=150, shards=2,
         rule='points inside and up to a domain length outside; non-trivial = '
         'non-constant data')
def points(c, ctx):
  g = gen.mk_grid(c['g'])
  d = g.ndim
  a = gen.arr(c['f'], g.shape)
  f = gen.garray(a, c['off'], g)
  pt = np.array([lo + t * (hi - lo) for t, (lo, hi) in zip(c['pt'], g.domain)])
  idx = np.array([(x - lo) / s - o for x, (lo, _), s, o in
                  zip(pt, g.domain, g.step, c['off'])])
  mode = c['mode']
  kw = {} if mode is None else dict(mode=mode)
  if mode == 'constant':
    kw['cval'] = c['cval']
  got = float(ip.point_interpolation(jnp.asarray(pt), f, order=c['order'], **kw))
  scale = np.abs(a).max() + 3
  mode = mode or 'nearest'
  if c['order'] == 0:
    fr = idx - np.floor(idx)
    if np.any(np.abs(fr - 0.5) < 1e-6):
      raise core.Discard()
    corners = [(np.round(idx).astype(int), 1.0)]
  else:
    base = np.floor(idx).astype(int)
    w = idx - base
    corners = []
    for bits in itertools.product((0, 1), repeat=d):
      corners.append((base + np.array(bits), float(np.prod(
          [wi if b else 1 - wi for wi, b in zip(w, bits)]))))
  want = 0.0
  for j, wt in corners:
    if mode == 'constant' and any(x < 0 or x >= n for x, n in zip(j, g.shape)):
      val = c['cval']
    else:
      val = a[tuple(fold(int(x), n, mode) for x, n in zip(j, g.shape))]
    want += wt * val
  inside = all(0 <= i <= n - 1 for i, n in zip(idx, g.shape))
  ctx.label('inside' if inside else 'outside')
  ctx.close(np.array(got), np.array(want), f'point interpolation {mode}', 1e-9,
            scale)
  return gen.nonconstant(a)
