"""C13: coarsening."""
import hypothesis.strategies as st
import jax.numpy as jnp
import numpy as np

from checks import c06
from checks.c05 import ref_linear
from checks.c10 import np_divergence
from harness import core, gen
from jax_cfd.base import boundaries
from jax_cfd.base import finite_differences as fd
from jax_cfd.base import grids
from jax_cfd.base import resize

P = core.Property('C13')

# coarse shape, factor
COARSE = [([3], 2), ([5], 7), ([2], 3), ([1], 4), ([2, 3], 2), ([3, 2], 3), ([1, 2], 4),
          ([2, 2, 1], 2), ([1, 2, 2], 3)]


@st.composite
def stag_case(draw):
  shape, factor = draw(st.sampled_from(COARSE))
  d = len(shape)
  dom = []
  for n in shape:
    lo = draw(st.sampled_from(gen.LOWERS))
    dom.append([lo, lo + draw(st.sampled_from(gen.STEPS + [1 / 3, 6.28])) * n])
  return dict(shape=shape, factor=factor, domain=dom,
              fs=[draw(gen.field()) for _ in range(max(d, 3))],
              mean=[draw(gen.pick(0.0, 1.0)) for _ in range(d)],
              kind=draw(gen.pick('array', 'garray', 'gvar')),
              bc=draw(gen.pick('periodic', 'dirichlet')),
              solenoidal=draw(st.booleans()))


def face_mean(a, axis, f):
  """Means over coarse faces, by explicit loops over coarse cells."""
  n = [s // f for s in a.shape]
  out = np.zeros(n)
  for idx in np.ndindex(*n):
    sl = [slice(i * f, (i + 1) * f) for i in idx]
    sl[axis] = (idx[axis] + 1) * f - 1
    out[idx] = a[tuple(sl)].mean()
  return out


@P.facet(stag_case(), quick=90, shards=2,
         rule='face averaging of staggered velocities for every factor, domain and '
         'container; non-trivial = factor above one and non-constant field')
def staggered(c, ctx):
  f = c['factor']
  d = len(c['shape'])
  src = grids.Grid(tuple(n * f for n in c['shape']), domain=c['domain'])
  dst = grids.Grid(tuple(c['shape']), domain=c['domain'])
  if c['solenoidal']:
    arrs = c06.solenoidal(dict(psi=c['fs'], mean=c['mean']), src)
  else:
    arrs = [gen.arr(x, src.shape) for x in c['fs'][:d]]
  offs = [gen.face_offset(d, i) for i in range(d)]
  bc = (gen.periodic_bc(d) if c['bc'] == 'periodic'
        else boundaries.dirichlet_boundary_conditions(d))
  if c['kind'] == 'array':
    v = tuple(jnp.asarray(a) for a in arrs)
  elif c['kind'] == 'garray':
    v = tuple(gen.garray(a, o, src) for a, o in zip(arrs, offs))
  else:
    v = tuple(gen.gvar(a, o, src, bc) for a, o in zip(arrs, offs))
  got = resize.downsample_staggered_velocity(src, dst, v)
  ctx.eq(len(got), d, 'components')
  scale = max(np.abs(a).max() for a in arrs)
  outs = [core.to_np(u) for u in got]
  for i, u in enumerate(got):
    ctx.close(outs[i], face_mean(arrs[i], i, f), f'component {i}', 1e-12, scale)
    if c['kind'] != 'array':
      ctx.true(u.grid == dst and tuple(u.offset) == offs[i], 'grid and offset')
    if c['kind'] == 'gvar':
      ctx.true(u.bc == bc, 'boundary conditions')
    one = resize.downsample_staggered_velocity_component(jnp.asarray(arrs[i]), i, f)
    ctx.close(one, outs[i], 'single component', 1e-12, scale)
  if c['solenoidal']:
    div = np_divergence(outs, dict(wall=[False] * d), dst)
    ctx.close(div, np.zeros(dst.shape), 'coarse divergence', 1e-11,
              scale * sum(1 / h for h in dst.step))
  return f > 1 and any(gen.nonconstant(a) for a in arrs)


@P.facet(gen.dct(n=gen.ints(2, 5), f=gen.ints(2, 4), off=gen.floats(0.1, 1.0),
                 kind=gen.pick('array', 'gvar')), quick=30,
         rule='impossible coarsenings are refused; all non-trivial')
def refusals(c, ctx):
  n, f = c['n'], c['f']
  dom = [(0.0, 1.0)] * 2
  src = grids.Grid((n * f, n * f), domain=dom)
  mk = lambda g: tuple(gen.gvar(np.ones(src.shape), gen.face_offset(2, i), g,
                                gen.periodic_bc(2)) for i in range(2))
  v = mk(src)
  if c['kind'] == 'array':
    v = tuple(u.data for u in v)
  bad = (AssertionError, ValueError, grids.InconsistentGridError)
  call = lambda dst, v=v, src=src: resize.downsample_staggered_velocity(src, dst, v)
  ctx.raises(bad, lambda: call(grids.Grid((n * f - 1,) * 2, domain=dom)),
             'sizes that do not divide')
  ctx.raises(bad, lambda: call(grids.Grid((n, n * f), domain=dom)),
             'different factors')
  ctx.raises(bad, lambda: call(grids.Grid((n, n), domain=[(0.0, 1 + c['off'])] * 2)),
             'different domains')
  if c['kind'] == 'gvar':
    other = grids.Grid(src.shape, domain=[(-1.0, 0.0)] * 2)
    ctx.raises(bad, lambda: call(grids.Grid((n, n), domain=dom), v=mk(other)),
               'variables on another grid')
    even = grids.Grid((n * 4,) * 2, domain=dom)
    w = tuple(gen.gvar(np.ones(even.shape), (0.5, 0.5), even, gen.periodic_bc(2))
              for _ in range(2))
    top = lambda dst, **k: resize.top_hat_downsample(even, dst, w, **k)
    ctx.raises(bad, lambda: top(grids.Grid((n * 4 - 1,) * 2, domain=dom)),
               'sizes that do not divide (filter)')
    ctx.raises(bad, lambda: top(grids.Grid((n,) * 2, domain=dom), filter_size=2),
               'filter narrower than the factor')
    ctx.raises(bad, lambda: top(grids.Grid((n * 2,) * 2, domain=dom),
                                filter_size=3), 'odd filter')
    moved = grids.Grid(even.shape, domain=[(-1.0, 0.0)] * 2)
    ctx.raises(bad, lambda: resize.top_hat_downsample(
        moved, grids.Grid((n * 2,) * 2, domain=moved.domain), w),
               'variables on another grid (filter)')
  return True


@st.composite
def hat_case(draw):
  d = draw(gen.pick(1, 2, 2))
  coarse = draw(st.sampled_from({1: [[3], [4]], 2: [[3, 2], [2, 4]]}[d]))
  factor, size = [], []
  for n in coarse:
    f, s = draw(gen.pick((2, 2), (2, 4), (4, 4), (1, 1), (2, 2)))
    factor.append(f)
    size.append(min(s, n * f) if f > 1 else s)
  if draw(gen.pick(False, True)):
    size = list(factor)
    default = True
  else:
    default = False
  b = draw(gen.bc(d, types=('periodic', 'periodic', 'dirichlet', 'neumann')))
  off = []
  for ax in range(d):
    off.append(0.5 if 'neumann' in b['types'][ax] or factor[ax] == 1
               else draw(gen.pick(0.5, 1.0, 0.0)))
  shape = [n * f for n, f in zip(coarse, factor)]
  dom = []
  for n in shape:
    lo = draw(st.sampled_from(gen.LOWERS))
    dom.append([lo, lo + draw(st.sampled_from(gen.STEPS)) * n])
  return dict(coarse=coarse, factor=factor, size=size, default=default, bc=b,
              off=off, g=dict(shape=shape, domain=dom), f=draw(gen.field()),
              roll=[draw(gen.ints(-2, 2)) for _ in range(d)])


@P.facet(hat_case(), quick=40, shards=4,
         rule='box filter and subsampling for every even factor and filter, '
         'alignment and boundary condition vs explicit window means; '
         'non-trivial = non-constant field and some factor above one')
def top_hat(c, ctx):
  src = gen.mk_grid(c['g'])
  d = src.ndim
  dst = grids.Grid(tuple(c['coarse']), domain=src.domain)
  bc = gen.mk_bc(c['bc'])
  a = gen.var_data(c)
  u = gen.gvar(a, c['off'], src, bc)
  kw = {} if c['default'] else dict(filter_size=tuple(c['size']))
  if not c['default'] and len(set(c['size'])) == 1:
    kw = dict(filter_size=c['size'][0])
  got, = resize.top_hat_downsample(src, dst, (u,), **kw)
  ctx.true(got.grid == dst, 'destination grid')
  ctx.eq(tuple(got.offset), tuple(c['off']), 'offset')
  ctx.true(got.bc == bc, 'boundary conditions')
  center = [0.5 if s > 1 else o for s, o in zip(c['size'], c['off'])]
  x = ref_linear(a, c, center)
  for ax in range(d):
    f, s = c['factor'][ax], c['size'][ax]
    if s == 1:
      continue
    v = [0.0 if y is None else y for y in c['bc']['values'][ax]]
    first = {0.5: f // 2, 0.0: 0, 1.0: f}[c['off'][ax]]
    cols = []
    for j in range(c['coarse'][ax]):
      mid = first + j * f  # fine edge at the middle of the window
      win = gen.take_extended(x, range(mid - s // 2, mid + s // 2), ax, 0.5,
                              c['bc']['types'][ax], v, src.step[ax], 'mirror')
      cols.append(win.mean(axis=ax, keepdims=True))
    x = np.concatenate(cols, axis=ax)
  vmax = max([abs(y) for v in c['bc']['values'] for y in v if y] + [0.0])
  scale = np.abs(a).max() + vmax * (2 + max(src.step))
  ctx.close(got, x, 'window means', 1e-11, scale)
  if all(t[0] == 'periodic' for t in c['bc']['types']):
    ctx.label('periodic')
    if all(s % f == 0 for s, f in zip(c['size'], c['factor'])):
      ctx.close(np.asarray(got.data).mean(), a.mean(), 'mean', 1e-11, scale)
    moved = np.roll(a, [r * f for r, f in zip(c['roll'], c['factor'])],
                    axis=tuple(range(d)))
    other, = resize.top_hat_downsample(src, dst, (gen.gvar(moved, c['off'], src, bc),),
                                       **kw)
    ctx.close(other, np.roll(np.asarray(got.data), c['roll'], axis=tuple(range(d))),
              'translation by coarse cells', 1e-11, scale)
  return gen.nonconstant(a) and max(c['factor']) > 1


@P.facet(gen.dct(n=gen.pick((8, 4), (8, 2), (12, 6), (9, 3), (10, 5), (6, 6), (7, 7),
                            (8, 6), (9, 6), (15, 5)), f=gen.field()),
         quick=80, shards=1,
         rule='spectral coarsening keeps resolved modes with their amplitude; '
         'non-trivial = non-constant field and fewer points')
def spectral(c, ctx):
  big, small = c['n']
  dom = ((0.0, 2 * np.pi),) * 2
  src, dst = grids.Grid((big,) * 2, domain=dom), grids.Grid((small,) * 2, domain=dom)
  a = gen.arr(c['f'], src.shape)
  got = np.asarray(resize.downsample_spectral(src, dst, jnp.fft.rfftn(a)))
  ctx.eq(got.shape, (small, small // 2 + 1), 'shape')
  full = np.fft.fftn(a)
  scale = np.abs(a).max() * small ** 2
  half = (small + 1) // 2  # modes strictly below the Nyquist frequency
  for i in range(-half + 1, half):
    for j in range(half):
      ctx.close(got[i % small, j], full[i % big, j] * (small / big) ** 2,
                f'mode ({i}, {j})', 1e-11, scale)
  # a field made of resolved modes is sampled exactly
  keep = np.zeros_like(full)
  for i in range(-half + 1, half):
    for j in range(-half + 1, half):
      keep[i % big, j % big] = full[i % big, j % big]
  b = np.fft.ifftn(keep).real
  if big % small == 0:
    down = jnp.fft.irfftn(resize.downsample_spectral(src, dst, jnp.fft.rfftn(b)),
                          s=dst.shape)
    ctx.close(down, b[::big // small, ::big // small], 'resolved field', 1e-11,
              np.abs(a).max())
  return gen.nonconstant(a) and big > small
