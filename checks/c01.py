"""C01: grid geometry."""
import itertools
import math

import hypothesis.strategies as st
import jax
import jax.numpy as jnp
import numpy as np

from harness import core, gen
from jax_cfd.base import grids

P = core.Property('C01')
OFFS = [0.0, 0.5, 1.0, -0.5, 1.5, 0.25, -2.0]


@st.composite
def construction(draw):
  shape = draw(gen.shapes((1, 2, 3), {1: [(1,), (7,), (16,)],
                                      2: [(3, 5), (8, 1), (4, 4)],
                                      3: [(2, 3, 4), (5, 1, 2)]}))
  how = draw(gen.pick('none', 'step', 'steps', 'scalar_domain', 'domain'))
  d = len(shape)
  pos = st.one_of(gen.pick(0.1, 1 / 3, 2.0, 1e-3, 2 * math.pi),
                  gen.floats(0.01, 50.0))
  c = dict(shape=shape, how=how)
  if how == 'step':
    c['step'] = draw(st.one_of(pos, gen.ints(1, 4)))
  elif how == 'steps':
    c['step'] = [draw(pos) for _ in range(d)]
  elif how == 'scalar_domain':
    c['domain'] = draw(st.one_of(pos, gen.ints(1, 9)))
  elif how == 'domain':
    c['domain'] = []
    for _ in range(d):
      lo = draw(gen.floats(-20, 20))
      c['domain'].append([lo, lo + draw(pos)])
  c['offset'] = [draw(gen.pick(*OFFS)) for _ in shape]
  return c


def build(c):
  if c['how'] == 'none':
    return grids.Grid(c['shape'])
  if c['how'] == 'step':
    return grids.Grid(tuple(c['shape']), step=c['step'])
  if c['how'] == 'steps':
    return grids.Grid(tuple(c['shape']), step=tuple(c['step']))
  if c['how'] == 'scalar_domain':
    return grids.Grid(tuple(c['shape']), domain=c['domain'])
  return grids.Grid(tuple(c['shape']),
                    domain=[tuple(b) for b in c['domain']])


def model(c):
  """(lower, upper, step) per axis, from the documentation."""
  out = []
  for i, n in enumerate(c['shape']):
    if c['how'] == 'none':
      lo, hi = 0.0, float(n)
    elif c['how'] == 'step':
      lo, hi = 0.0, c['step'] * n
    elif c['how'] == 'steps':
      lo, hi = 0.0, c['step'][i] * n
    elif c['how'] == 'scalar_domain':
      lo, hi = 0.0, c['domain']
    else:
      lo, hi = c['domain'][i]
    out.append((lo, hi, (hi - lo) / n))
  return out


@P.facet(construction(), quick=250, shards=2,
         rule='shape/step/domain in every accepted form, any offsets; '
         'non-trivial = more than one cell in total')
def geometry(c, ctx):
  g = build(c)
  ref = model(c)
  d = len(c['shape'])
  ctx.label(f'{c["how"]}-{d}d')
  ctx.eq(g.ndim, d, 'ndim')
  ctx.eq(tuple(g.shape), tuple(c['shape']), 'shape')
  scale = max(abs(x) for r in ref for x in r)
  ctx.close(np.array(g.domain), np.array([r[:2] for r in ref]), 'domain', 1e-12)
  ctx.close(np.array(g.step), np.array([r[2] for r in ref]), 'step', 1e-12)
  for (lo, hi), s, n in zip(g.domain, g.step, g.shape):
    ctx.close(np.array(hi - lo), np.array(s * n), 'upper-lower = step*shape',
              1e-12, scale)
  ctx.eq(tuple(g.cell_center), (0.5,) * d, 'cell_center')
  ctx.eq(tuple(tuple(f) for f in g.cell_faces),
         tuple(gen.face_offset(d, i) for i in range(d)), 'cell_faces')
  # axes/mesh positions
  for off in (None, c['offset']):
    o = [0.5] * d if off is None else off
    axes = g.axes(None if off is None else tuple(off))
    ctx.eq(len(axes), d, 'number of axes')
    want = [lo + (np.arange(n) + oi) * s
            for (lo, _, s), n, oi in zip(ref, c['shape'], o)]
    for a, w in zip(axes, want):
      ctx.close(a, w, 'axes', 1e-12, scale + 1)
    mesh = g.mesh(None if off is None else tuple(off))
    for i, m in enumerate(mesh):
      sl = [None] * d
      sl[i] = slice(None)
      ctx.close(m, np.broadcast_to(want[i][tuple(sl)], c['shape']),
                f'mesh[{i}]', 1e-12, scale + 1)
    # eval_on_mesh samples fn(x, y, ...) at those positions
    def fn(*xs):
      return sum((i + 1) * x + x * xs[0] for i, x in enumerate(xs))
    f = g.eval_on_mesh(fn, None if off is None else tuple(off))
    wm = [np.broadcast_to(w[tuple(slice(None) if j == i else None
                                  for j in range(d))], c['shape'])
          for i, w in enumerate(want)]
    ctx.close(f, fn(*wm), 'eval_on_mesh', 1e-12, (scale + 1) ** 2 * 4)
    ctx.eq(tuple(f.offset), tuple(o), 'eval_on_mesh offset')
    ctx.true(f.grid == g, 'eval_on_mesh grid')
  # Fourier frequencies
  want = [np.fft.fftfreq(n, s) for n, (_, _, s) in zip(c['shape'], ref)]
  for a, w in zip(g.fft_axes(), want):
    ctx.close(a, w, 'fft_axes', 1e-12)
  want[-1] = np.fft.rfftfreq(c['shape'][-1], ref[-1][2])
  for a, w in zip(g.rfft_axes(), want):
    ctx.close(a, w, 'rfft_axes', 1e-12)
  for m, w in zip(g.rfft_mesh(), np.meshgrid(*want, indexing='ij')):
    ctx.close(m, w, 'rfft_mesh', 1e-12)
  # equality, hashing: value semantics
  g2 = build(c)
  ctx.true(g == g2 and hash(g) == hash(g2), 'grids with equal geometry differ')
  bigger = grids.Grid(tuple(n + 1 for n in c['shape']), domain=g.domain)
  ctx.true(g != bigger, 'grids with different shapes are equal')
  moved = grids.Grid(g.shape, domain=[(lo + 1.0, hi + 1.0) for lo, hi in g.domain])
  ctx.true(g != moved, 'grids with different domains are equal')
  again = grids.Grid(g.shape, domain=g.domain)
  ctx.true(again == g, 'rebuilding from (shape, domain) changed the grid')
  # the same geometry from inside a jit-compiled function (static argument)
  return core.prod(c['shape']) > 1


@P.facet(gen.dct(g=gen.grid((1, 2, 3), {1: [(2,), (5,)], 2: [(3, 4), (5, 2)],
                                        3: [(2, 3, 4)]}),
                 f=gen.field(), f2=gen.field()),
         quick=60, rule='arrays put on faces and centres; non-trivial = '
         'non-constant data')
def placement(c, ctx):
  g = gen.mk_grid(c['g'])
  d = g.ndim
  vs = tuple(gen.arr(dict(c['f'], seed=c['f']['seed'] + i), g.shape)
             for i in range(d))
  st_ = g.stagger(vs)
  ctx.eq(len(st_), d, 'stagger length')
  for i, (a, v) in enumerate(zip(st_, vs)):
    ctx.eq(tuple(a.offset), gen.face_offset(d, i), 'staggered offset')
    ctx.true(a.grid == g, 'staggered grid')
    ctx.close(a, v, 'staggered data', 0)
  tree = dict(a=gen.arr(c['f2'], g.shape), b=(vs[0], [vs[-1]]))
  cent = g.center(tree)
  for got, want in ((cent['a'], tree['a']), (cent['b'][0], vs[0]),
                    (cent['b'][1][0], vs[-1])):
    ctx.true(isinstance(got, grids.GridArray), 'center() makes fields')
    ctx.eq(tuple(got.offset), (0.5,) * d, 'centred offset')
    ctx.close(got, want, 'centred data', 0)
  masks = grids.domain_interior_masks(g)
  for i, m in enumerate(masks):
    pos = np.indices(g.shape)[i]
    want = (pos < g.shape[i] - 1).astype(int)
    ctx.close(np.asarray(m), want, 'interior mask of faces', 0)
  for i, offs in enumerate(grids.control_volume_offsets(g.center(vs[0]))):
    ctx.eq(tuple(offs), tuple(1.0 if j == i else 0.5 for j in range(d)),
           'control volume offsets of a cell')
  for i in range(d):
    offs = grids.control_volume_offsets(st_[i])
    for j in range(d):
      want = tuple((1.0 if k == i else 0.5) + (0.5 if k == j else 0.0)
                   for k in range(d))
      ctx.eq(tuple(offs[j]), want, 'control volume offsets of a face')
  return gen.nonconstant(vs[0])


@P.facet(construction(), quick=80,
         rule='invalid constructions; every case is non-trivial')
def rejects(c, ctx):
  d = len(c['shape'])
  s = tuple(c['shape'])
  ctx.raises(TypeError, lambda: grids.Grid(s, step=1.0, domain=1.0),
             'step and domain together')
  ctx.raises(ValueError, lambda: grids.Grid(s, step=(1.0,) * (d + 1)),
             'step of the wrong length')
  ctx.raises(ValueError, lambda: grids.Grid(s, domain=((0., 1.),) * (d + 1)),
             'domain of the wrong length')
  ctx.raises(ValueError, lambda: grids.Grid(s, domain=((0., 1., 2.),) * d),
             'domain entries that are not pairs')
  ctx.raises(ValueError, lambda: grids.Grid(s).axes((0.5,) * (d + 1)),
             'offset of the wrong length')
  ctx.raises(TypeError, lambda: grids.Grid((2.5,) + s[1:]),
             'fractional shape')
  return True


@P.facet(gen.dct(g=gen.grid((1, 2, 3), {1: [(4,)], 2: [(3, 4)], 3: [(2, 3, 4)]}),
                 offset=st.lists(gen.pick(*OFFS), min_size=3, max_size=3),
                 f=gen.field()),
         quick=40, rule='grid objects inside jit / pytrees; non-trivial always')
def transparent(c, ctx):
  g = gen.mk_grid(c['g'])
  off = tuple(c['offset'][:g.ndim])
  a = gen.garray(gen.arr(c['f'], g.shape), off, g)
  got = jax.jit(lambda x: x)(a)
  ctx.true(got.grid == g and tuple(got.offset) == off, 'metadata through jit')
  ctx.close(got, a, 'data through jit', 0)
  leaves, tree = jax.tree_util.tree_flatten(a)
  b = jax.tree_util.tree_unflatten(tree, leaves)
  ctx.true(b.grid == g and tuple(b.offset) == off, 'pytree round trip')
  return True
