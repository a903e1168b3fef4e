"""C02: grid-checked field algebra."""
import operator

import hypothesis.strategies as st
import jax
import jax.numpy as jnp
import numpy as np

from harness import core, gen
from jax_cfd.base import boundaries
from jax_cfd.base import grids

P = core.Property('C02')
POOL = {1: [(5,)], 2: [(3, 4)], 3: [(2, 3, 4)]}
OFFS = [0.0, 0.5, 1.0, -0.5, 1.5]

BIN = {'add': np.add, 'sub': np.subtract, 'mul': np.multiply,
       'truediv': np.divide, 'maximum': np.maximum, 'minimum': np.minimum,
       'arctan2': np.arctan2, 'hypot': np.hypot, 'greater': np.greater,
       'less_equal': np.less_equal}
PYOPS = {'add': operator.add, 'sub': operator.sub, 'mul': operator.mul,
         'truediv': operator.truediv, 'greater': operator.gt,
         'less_equal': operator.le}
UN = {'neg': np.negative, 'abs': np.abs, 'sin': np.sin, 'exp': np.exp,
      'square': np.square, 'sign': np.sign}
PYUN = {'neg': operator.neg, 'abs': abs}


def another(g, kind):
  """A grid of the same shape that differs in one respect."""
  if kind == 'moved':
    dom = [(a + 1.0, b + 1.0) for a, b in g.domain]
  elif kind == 'longer':
    dom = [(a, b + 1.0) for a, b in g.domain]
  elif kind == 'lower':
    dom = [(a - 1.0, b) for a, b in g.domain]
  else:  # along the last axis only
    dom = list(g.domain[:-1]) + [(g.domain[-1][0] - 0.5, g.domain[-1][1] - 0.5)]
  return grids.Grid(g.shape, domain=dom)


OTHER = gen.pick('moved', 'longer', 'lower', 'last')


@st.composite
def program(draw):
  """A history of operations on a pool of registers."""
  g = draw(gen.grid((1, 2, 3), POOL))
  d = len(g['shape'])
  offs = [[draw(gen.pick(*OFFS)) for _ in range(d)] for _ in range(2)]
  regs = []
  for _ in range(draw(gen.ints(2, 4))):
    regs.append(dict(f=draw(gen.field(amps=(1.0,))), off=draw(gen.ints(0, 1)),
                     grid=draw(gen.pick(0, 0, 0, 1))))
  ops = []
  for _ in range(draw(gen.ints(1, 8))):
    k = draw(gen.pick('bin', 'bin', 'bin', 'un', 'scalar', 'rscalar', 'array',
                      'pow', 'divmod', 'applied', 'where', 'jit', 'inplace'))
    ops.append(dict(k=k, i=draw(gen.ints(0, 9)), j=draw(gen.ints(0, 9)),
                    op=draw(st.sampled_from(sorted(BIN))),
                    un=draw(st.sampled_from(sorted(UN))),
                    s=draw(gen.pick(2.0, -0.5, 3, 0.25)),
                    py=draw(st.booleans())))
  return dict(g=g, offs=offs, regs=regs, ops=ops, other=draw(OTHER))


@P.facet(program(), quick=250, shards=2,
         rule='sequences of arithmetic on up to four fields with two offsets '
         'and two grids against plain numpy arrays; non-trivial = at least one '
         'accepted and one mixed-operand operation')
def arithmetic(c, ctx):
  g0 = gen.mk_grid(c['g'])
  g1 = another(g0, c['other'])
  gs = [g0, g1]
  regs = []  # (GridArray, model array, offset, grid index)
  for r in c['regs']:
    a = gen.arr(r['f'], g0.shape)
    off = tuple(c['offs'][r['off']])
    regs.append((gen.garray(a, off, gs[r['grid']]), a, off, r['grid']))
  same_offsets = c['offs'][0] == c['offs'][1]
  accepted = mixed = 0
  for n, o in enumerate(c['ops']):
    x, mx, ox, gx = regs[o['i'] % len(regs)]
    y, my, oy, gy = regs[o['j'] % len(regs)]
    k = o['k']
    res = None
    with np.errstate(all='ignore'):
      if k in ('bin', 'applied', 'where', 'divmod'):
        if k == 'bin':
          f = PYOPS.get(o['op']) if o['py'] else None
          f = f or BIN[o['op']]
          run = lambda: f(x, y)
          m = lambda: BIN[o['op']](mx, my)
        elif k == 'applied':
          run = lambda: grids.applied(jnp.add)(x, y)
          m = lambda: mx + my
        elif k == 'where':
          run = lambda: grids.where(x > 0.1, x, y)
          m = lambda: np.where(mx > 0.1, mx, my)
        else:
          run = lambda: divmod(x, y + 10.0)
          m = lambda: divmod(mx, my + 10.0)
        if ox != oy:
          ctx.raises(grids.InconsistentOffsetError, run,
                     f'op {n} ({k}) on different offsets')
          mixed += 1
          continue
        if gx != gy:
          ctx.raises(grids.InconsistentGridError, run,
                     f'op {n} ({k}) on different grids')
          mixed += 1
          continue
        res, want = run(), m()
      elif k == 'un':
        f = PYUN.get(o['un']) if o['py'] else None
        res, want = (f or UN[o['un']])(x), UN[o['un']](mx)
      elif k == 'scalar':
        f = PYOPS.get(o['op']) or BIN[o['op']]
        res, want = f(x, o['s']), BIN[o['op']](mx, o['s'])
      elif k == 'rscalar':
        f = PYOPS.get(o['op']) or BIN[o['op']]
        res, want = f(o['s'], x), BIN[o['op']](o['s'], mx)
      elif k == 'array':
        other = my if o['py'] else jnp.asarray(my)
        f = PYOPS.get(o['op']) or BIN[o['op']]
        res, want = f(x, other), BIN[o['op']](mx, my)
      elif k == 'pow':
        res, want = x ** 2, mx ** 2
      elif k == 'inplace':
        z = x
        z = z * o['s']
        z += x
        res, want = z, mx * o['s'] + mx
      elif k == 'jit':
        res, want = jax.jit(lambda t: t * 2.0 - t.data)(x), mx
    pairs = (zip(res, want) if isinstance(want, tuple) else [(res, want)])
    # Discontinuous operations are compared away from their jumps only.
    sure = np.ones(g0.shape, bool)
    if k == 'where':
      sure = np.abs(mx - 0.1) > 1e-9
    elif k == 'divmod':
      q = mx / (my + 10.0)
      sure = np.abs(q - np.round(q)) > 1e-9
    elif k in ('bin', 'scalar', 'rscalar', 'array'):
      rhs = o['s'] if 'scalar' in k else my
      if o['op'] in ('greater', 'less_equal', 'arctan2'):
        sure = np.abs(mx - rhs) > 1e-9 * (1 + np.abs(mx))
      if o['op'] == 'arctan2':
        sure = (np.abs(mx) > 1e-9) & (np.abs(rhs) > 1e-9)
      if o['op'] == 'truediv':
        den = mx if k == 'rscalar' else rhs
        sure = np.broadcast_to(np.abs(den) > 1e-9, g0.shape)
    elif k == 'un' and o['un'] == 'sign':
      sure = np.abs(mx) > 1e-9
    for r, w in pairs:
      ctx.true(isinstance(r, grids.GridArray), f'op {n} ({k}) is not a field')
      ctx.eq(tuple(r.offset), ox, f'op {n} ({k}) offset')
      ctx.true(r.grid == gs[gx], f'op {n} ({k}) grid')
      w = np.asarray(w)
      ctx.eq(tuple(r.shape), tuple(w.shape), 'shape')
      ctx.close(np.asarray(r.data)[sure], w[sure],
                f'op {n} ({k} {o["op"]} {o["un"]})', 1e-9)
      ctx.eq(tuple(r.shape), tuple(w.shape), 'shape')
      ctx.eq(np.dtype(r.dtype), np.asarray(r.data).dtype, 'dtype')
    ctx.label(k)
    accepted += 1
    r, w = (res[0], want[0]) if isinstance(want, tuple) else (res, want)
    w = np.asarray(w)
    if w.dtype == np.float64 and sure.all() and np.isfinite(w).all() and np.abs(w).max() < 1e6:
      regs.append((r, w, ox, gx))
  del same_offsets
  return accepted > 0 and (mixed > 0 or len(c['ops']) > 2)


@st.composite
def fields(draw):
  g = draw(gen.grid((1, 2, 3), POOL))
  d = len(g['shape'])
  offs = [[draw(gen.pick(*OFFS)) for _ in range(d)]
          for _ in range(draw(gen.ints(1, 4)))]
  same = draw(st.booleans())
  if same:
    offs = [offs[0]] * len(offs)
  bcs = [draw(gen.bc(d)) for _ in offs]
  if draw(gen.pick(True, False, False)):  # equal but for the last value at a wall
    first = bcs[0]
    bcs = [first] * (len(offs) - 1) + [dict(types=first['types'], values=[
        [q if q is None or t[0] == 'periodic' else q + 1.5 * (k == d - 1)
         for q in p] for k, (t, p) in enumerate(zip(first['types'], first['values']))])]
  return dict(g=g, offs=offs, f=draw(gen.field()), bcs=bcs, same_bc=draw(st.booleans()),
              other_grid=draw(st.booleans()), kind=draw(OTHER))


@P.facet(fields(), quick=200,
         rule='one to four fields with equal or different offset, grid and '
         'boundary conditions; non-trivial = more than one field')
def consistency(c, ctx):
  g = gen.mk_grid(c['g'])
  d = g.ndim
  g2 = another(g, c['kind'])
  data = gen.arr(c['f'], g.shape)
  n = len(c['offs'])
  bcs = [gen.mk_bc(c['bcs'][0] if c['same_bc'] else b) for b in c['bcs']]
  as_ = [gen.garray(data, o, g2 if (c['other_grid'] and i == n - 1) else g)
         for i, o in enumerate(c['offs'])]
  vs = [grids.GridVariable(a, b) for a, b in zip(as_, bcs)]
  uniq = {tuple(o) for o in c['offs']}
  mean = np.mean(np.array(c['offs']), axis=0)
  for xs in (as_, vs):
    ctx.close(np.array(grids.averaged_offset(*xs)), mean, 'averaged offset',
              1e-12, 4)
    if len(uniq) == 1:
      ctx.eq(tuple(grids.consistent_offset(*xs)), uniq.pop() if False else
             tuple(c['offs'][0]), 'unique offset')
    else:
      ctx.raises(grids.InconsistentOffsetError,
                 lambda: grids.consistent_offset(*xs), 'different offsets')
    if c['other_grid'] and n > 1:
      ctx.raises(grids.InconsistentGridError,
                 lambda: grids.consistent_grid(*xs), 'different grids')
    else:
      ctx.true(grids.consistent_grid(*xs) == as_[0].grid, 'unique grid')
  # boundary conditions compare by value
  def key(b):
    return (tuple(map(tuple, b['types'])), tuple(map(tuple, b['values'])))
  keys = {key(c['bcs'][0] if c['same_bc'] else b) for b in c['bcs']}
  if len(keys) == 1:
    ctx.true(grids.unique_boundary_conditions(*vs) == bcs[0], 'unique bc')
  else:
    ctx.raises(grids.InconsistentBoundaryConditionsError,
               lambda: grids.unique_boundary_conditions(*vs), 'different bcs')
  # periodic in all variables, or in none, along each axis
  per = [[b.types[ax][0] == 'periodic' for b in bcs] for ax in range(d)]
  if all(len(set(p)) == 1 for p in per):
    ctx.eq(tuple(boundaries.consistent_boundary_conditions(*vs)),
           tuple('periodic' if p[0] else 'nonperiodic' for p in per),
           'consistent boundary types')
  else:
    ctx.raises(grids.InconsistentBoundaryConditionsError,
               lambda: boundaries.consistent_boundary_conditions(*vs),
               'mixed periodic and wall')
  ctx.eq(bool(boundaries.has_all_periodic_boundary_conditions(*vs)),
         all(all(p) for p in per), 'all periodic')
  for v, b in zip(vs, bcs):
    for ax in range(d):
      ctx.eq(bool(boundaries.is_periodic_boundary_conditions(v, ax)),
             b.types[ax][0] == 'periodic', 'is periodic')
  # a variable is a field plus boundary conditions, and survives flattening
  for v, a, b in zip(vs, as_, bcs):
    ctx.true(v.grid == a.grid and tuple(v.offset) == tuple(a.offset)
             and v.bc == b and tuple(v.shape) == tuple(a.shape), 'attributes')
    leaves, tree = jax.tree_util.tree_flatten(v)
    w = jax.tree_util.tree_unflatten(tree, leaves)
    ctx.true(isinstance(w, grids.GridVariable) and w.bc == b
             and w.grid == a.grid and tuple(w.offset) == tuple(a.offset),
             'variable pytree round trip')
    ctx.close(w, data, 'variable data round trip', 0)
    doubled = jax.tree_util.tree_map(lambda t: 2 * t, v)
    ctx.true(doubled.bc == b, 'tree_map keeps bc')
    ctx.close(doubled, 2 * data, 'tree_map data', 1e-15)
  v = vs[0]
  ctx.raises(ValueError, lambda: grids.GridVariable(data, bcs[0]),
             'variable around a plain array')
  ctx.raises(ValueError, lambda: grids.GridVariable(v, bcs[0]),
             'variable around a variable')
  ctx.raises(ValueError, lambda: grids.GridVariable(
      as_[0], gen.periodic_bc(d + 1)), 'bc of the wrong dimension')
  ctx.raises(ValueError, lambda: grids.applied(jnp.sin)(v),
             'array function applied to a variable')
  ctx.raises(TypeError, lambda: as_[0] + v, 'field + variable')
  return n > 1


@P.facet(gen.dct(g=gen.grid((1, 2, 3), POOL), f=gen.field(),
                 offset=st.lists(gen.pick(*OFFS), min_size=3, max_size=3),
                 batch=gen.ints(1, 3), rank=gen.ints(1, 2)),
         quick=80, rule='tensors of fields: numpy algebra, flattening, vmap; '
         'non-trivial always')
def tensors(c, ctx):
  g = gen.mk_grid(c['g'])
  d = g.ndim
  off = tuple(c['offset'][:d])
  r = c['rank']
  def mk(i):
    return gen.garray(gen.arr(dict(c['f'], seed=c['f']['seed'] + i), g.shape),
                      off, g)
  shape = (2,) * r
  arrays = np.empty(shape, dtype=object)
  raw = np.empty(shape + tuple(g.shape))
  for i, idx in enumerate(np.ndindex(*shape)):
    arrays[idx] = mk(i)
    raw[idx] = np.asarray(arrays[idx].data)
  t = grids.GridArrayTensor(arrays)
  ctx.eq(t.shape, shape, 'tensor shape')
  leaves, tree = jax.tree_util.tree_flatten(t)
  back = jax.tree_util.tree_unflatten(tree, leaves)
  ctx.true(isinstance(back, grids.GridArrayTensor) and back.shape == shape,
           'tensor round trip')
  for idx in np.ndindex(*shape):
    ctx.close(back[idx], raw[idx], 'component order', 0)
    ctx.eq(tuple(back[idx].offset), off, 'component offset')
  two = jax.tree_util.tree_map(lambda x: 2 * x, t)
  s = t + 3.0 * t
  for idx in np.ndindex(*shape):
    ctx.close(two[idx], 2 * raw[idx], 'tree_map', 1e-14)
    ctx.close(s[idx], 4 * raw[idx], 'tensor arithmetic', 1e-14)
  if r == 2:
    ctx.close((t + t.T)[0, 1], raw[0, 1] + raw[1, 0], 'transpose', 1e-13)
    ctx.close(np.trace(t), raw[0, 0] + raw[1, 1], 'trace', 1e-13)
    dot = t.dot(t)
    want = np.einsum('ij...,jk...->ik...', raw, raw)
    for idx in np.ndindex(*shape):
      ctx.close(dot[idx], want[idx], 'dot', 1e-12, np.abs(want).max())
  jitted = jax.jit(lambda q: q)(t)
  for idx in np.ndindex(*shape):
    ctx.close(jitted[idx], raw[idx], 'jit identity', 0)
  # batching over a leading axis acts per member
  b = c['batch']
  stack = jnp.stack([jnp.asarray(mk(i).data) for i in range(b)])
  batched = grids.GridArray(stack, off, g)
  out = jax.vmap(lambda q: q * q + 1.0)(batched)
  ctx.close(out, np.asarray(stack) ** 2 + 1, 'vmap', 1e-13)
  ctx.true(out.grid == g and tuple(out.offset) == off, 'vmap metadata')
  return True
