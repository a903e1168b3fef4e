"""C03: boundary conditions."""
import hypothesis.strategies as st
import jax.numpy as jnp
import numpy as np

from harness import core, gen
from jax_cfd.base import boundaries
from jax_cfd.base import grids

P = core.Property('C03')
POOL = {1: [(1,), (2,), (3,), (5,)], 2: [(4, 3), (3, 5), (4, 4)], 3: [(3, 4, 2)]}


@st.composite
def variable(draw, pool=POOL, ndims=(1, 2, 3), junk=True):
  g = draw(gen.grid(ndims, pool))
  d = len(g['shape'])
  b = draw(gen.bc(d, ('dirichlet', 'periodic', 'dirichlet', 'neumann')))
  off = []
  for t, n in zip(b['types'], g['shape']):
    if 'neumann' in t:
      off.append(0.5)
    elif n == 1 and t[0] != 'periodic':
      off.append(0.5)
    else:
      off.append(draw(gen.pick(1.0, 0.0, 0.5)))
  return dict(g=g, bc=b, off=off, f=draw(gen.field()),
              junk=draw(st.booleans()) if junk else False)


imposed = gen.imposed


def setup(c):
  g = gen.mk_grid(c['g'])
  a = gen.arr(c['f'], g.shape)
  if not c['junk']:
    a = imposed(a, c)
  return g, a, gen.mk_bc(c['bc'])


def extend(a, c, ax, ks, mode):
  v = [0.0 if x is None else x for x in c['bc']['values'][ax]]
  return gen.take_extended(a, ks, ax, c['off'][ax], c['bc']['types'][ax], v,
                           gen.steps_of(c['g'])[ax], mode)


def clip_width(c, ax, w, mode):
  """Keeps widths where the documented semantics are defined."""
  n = c['g']['shape'][ax]
  t = c['bc']['types'][ax]
  if t[0] == 'periodic':
    return w
  if mode == 'mirror':
    lim = n if c['off'][ax] == 0.5 else n - 1
    return int(np.clip(w, -lim, lim))
  return w


@st.composite
def shift_case(draw):
  c = draw(variable())
  c['axis'] = draw(gen.ints(0, len(c['off']) - 1))
  c['w'] = draw(gen.pick(-1, 1, 0, -2, 2, 3, -3, 5, -6))
  c['mode'] = draw(gen.pick('extend', 'mirror'))
  return c


@P.facet(shift_case(), quick=220, shards=3,
         rule='shift by -6..6 along any axis of a 1/2/3-D variable against the '
         'reference extension; non-trivial = non-zero shift of non-constant data '
         'or a wall value reached')
def shift(c, ctx):
  g, a, bc = setup(c)
  ax = c['axis']
  w = clip_width(c, ax, c['w'], c['mode'])
  if c['junk'] and w == 0:
    raise core.Discard()
  u = gen.gvar(a, c['off'], g, bc)
  t = c['bc']['types'][ax]
  ctx.label(f'{t[0] if w < 0 else t[1]}@{c["off"][ax]}')
  model = a
  if w != 0 and t[0] != 'periodic':
    model = imposed(a, c, axes=[ax], sides=(0,) if w < 0 else (1,))
  n = a.shape[ax]
  want = extend(model, c, ax, range(w, n + w), c['mode'])
  if w == 0:  # re-imposing the wall value at a corner is allowed
    alt = imposed(a, c, axes=[ax])
    if np.array_equal(np.asarray(u.shift(0, ax, c['mode']).data), alt):
      want = alt
  off = list(c['off'])
  off[ax] += w
  for name, got in (('variable.shift', u.shift(w, ax, c['mode'])),
                    ('bc.shift', bc.shift(u.array, w, ax, c['mode']))):
    ctx.close(got, want, f'{name}({w}, axis={ax}, {c["mode"]})', 1e-11,
              np.abs(want).max() + np.abs(a).max())
    ctx.close(np.array(got.offset), np.array(off), f'{name} offset', 1e-12, 8)
    ctx.true(got.grid == g, f'{name} grid')
  if c['mode'] == 'extend':
    ctx.close(u.shift(w, ax), want, 'default mode is extend', 1e-11,
              np.abs(want).max() + np.abs(a).max())
  return w != 0 and (gen.nonconstant(a) or t[0] != 'periodic')


@st.composite
def pad_case(draw):
  c = draw(variable())
  c['mode'] = draw(gen.pick('extend', 'mirror'))
  c['w'] = [[draw(gen.pick(0, 1, 2, 3)), draw(gen.pick(0, 1, 2, 3))]
            for _ in c['off']]
  c['how'] = draw(gen.pick('all', 'axes', 'single'))
  c['axis'] = draw(gen.ints(0, len(c['off']) - 1))
  return c


@P.facet(pad_case(), quick=220, shards=3,
         rule='pad / pad_all with independent widths on both sides of each '
         'axis; non-trivial = some width is positive')
def pad(c, ctx):
  g, a, bc = setup(c)
  d = g.ndim
  ws = []
  for ax, (l, r) in enumerate(c['w']):
    ws.append((-clip_width(c, ax, -l, c['mode']), clip_width(c, ax, r, c['mode'])))
  if c['how'] == 'single':
    ws = [w if ax == c['axis'] else (0, 0) for ax, w in enumerate(ws)]
  model = a
  if c['junk']:
    # A zero width leaves unspecified whether the stored wall value is kept.
    for ax, (l, r) in enumerate(ws):
      if c['bc']['types'][ax][0] == 'periodic':
        continue
      if (l == 0 and c['off'][ax] == 0.0) or (r == 0 and c['off'][ax] == 1.0):
        model = imposed(model, c, axes=[ax])
    a = model
  u = gen.garray(a, c['off'], g)
  off = list(c['off'])
  for ax, (l, r) in enumerate(ws):
    if c['how'] == 'single' and ax != c['axis']:
      continue
    n = a.shape[ax]
    sides = [i for i, w in enumerate((l, r)) if w]
    model = imposed(model, c, axes=[ax], sides=sides)
    v = [0.0 if x is None else x for x in c['bc']['values'][ax]]
    model = gen.take_extended(model, range(-l, n + r), ax, c['off'][ax],
                              c['bc']['types'][ax], v,
                              gen.steps_of(c['g'])[ax], c['mode'])
    off[ax] -= l
  if c['how'] == 'all':
    got = bc.pad_all(u, tuple(ws), mode=c['mode'])
  elif c['how'] == 'axes':
    got = u
    for ax in range(d):
      got = bc.pad(got, ws[ax], ax, mode=c['mode'])
  else:
    ax = c['axis']
    l, r = ws[ax]
    if l == 0 or r == 0:  # integer form: negative = lower boundary
      got = bc.pad(u, -l if l else r, ax, mode=c['mode'])
    else:
      got = bc.pad(u, (l, r), ax, mode=c['mode'])
  scale = np.abs(model).max() + np.abs(a).max()
  # Whether a zero-width pad re-imposes the wall value on ghost cells that an
  # earlier axis added is unspecified: those corners are not compared.
  ghost = np.zeros(model.shape, int)
  loose = np.zeros(model.shape, bool)
  for ax, (l, r) in enumerate(ws):
    idx = np.arange(model.shape[ax]).reshape(
        [-1 if i == ax else 1 for i in range(d)])
    special = (idx < l) | (idx >= l + a.shape[ax])
    if c['bc']['types'][ax][0] == 'dirichlet':
      wall = np.zeros_like(special)
      if c['off'][ax] == 0.0:
        wall = idx == l
        loose |= wall & (l == 0)
      if c['off'][ax] == 1.0:
        wall = idx == l + a.shape[ax] - 1
        loose |= wall & (r == 0)
      special = special | wall
    ghost = ghost + special
  data = np.where((ghost > 1) & loose, model, np.asarray(got.data)) if (
      got.shape == model.shape) else got
  ctx.close(data, model, f'{c["how"]} pad {ws} {c["mode"]}', 1e-11, scale)
  ctx.close(np.array(got.offset), np.array(off), 'padded offset', 1e-12, 8)
  ctx.true(got.grid == g, 'padded grid')
  ctx.label(c['how'])
  # Trimming the padding gives the interior back.
  trimmed = bc.trim_boundary(got)
  want = a
  for ax in range(d):
    t, o = c['bc']['types'][ax], c['off'][ax]
    if t[0] == 'dirichlet' and o in (0.0, 1.0):
      sl = [slice(None)] * d
      sl[ax] = slice(1, None) if o == 0.0 else slice(None, -1)
      want = want[tuple(sl)]
      ctx.close(np.array(trimmed.offset[ax]), np.array(1.0), 'interior offset',
                1e-12)
    elif t[0] == 'periodic':
      # the same periodic field, possibly represented from another start
      k = int(round(trimmed.offset[ax] - o))
      want = np.roll(want, -k, axis=ax)
    else:
      ctx.close(np.array(trimmed.offset[ax]), np.array(o), 'trimmed offset',
                1e-12)
  ctx.close(trimmed, want, 'trim_boundary(pad(u)) is the interior of u', 1e-11,
            scale)
  return any(l + r for l, r in ws)


@P.facet(variable(), quick=200, shards=2,
         rule='imposing boundary values; non-trivial = a value lies on a wall')
def impose(c, ctx):
  g, a, bc = setup(c)
  d = g.ndim
  u = gen.gvar(a, c['off'], g, bc)
  want = a
  touched = False
  for ax in range(d):
    nxt = imposed(want, c, axes=[ax])
    touched |= c['off'][ax] != 0.5 and c['bc']['types'][ax][0] == 'dirichlet'
    want = nxt
  for got in (u.impose_bc(), bc.impose_bc(u.array)):
    ctx.close(got, want, 'impose_bc', 1e-12, np.abs(want).max())
    ctx.eq(tuple(got.offset), tuple(c['off']), 'offset')
    ctx.true(got.bc == bc and got.grid == g, 'metadata')
    again = got.impose_bc()
    ctx.close(again, got, 'impose_bc is idempotent', 0)
  inner = u.trim_boundary()
  sl = [slice(None)] * d
  off = list(c['off'])
  for ax in range(d):
    if c['bc']['types'][ax][0] == 'dirichlet' and c['off'][ax] in (0.0, 1.0):
      sl[ax] = slice(1, None) if c['off'][ax] == 0.0 else slice(None, -1)
      off[ax] = 1.0
  ctx.close(inner, a[tuple(sl)], 'trim_boundary', 0)
  ctx.eq(tuple(inner.offset), tuple(off), 'trimmed offset')
  # interior values can be completed at either end
  for target in (0.0, 1.0):
    to = tuple(target if (c['bc']['types'][ax][0] == 'dirichlet'
                          and c['off'][ax] in (0.0, 1.0)) else c['off'][ax]
               for ax in range(d))
    full = bc.pad_and_impose_bc(inner, to)
    ctx.eq(tuple(full.offset), to, 'completed offset')
    c2 = dict(c, off=list(to))
    m = np.asarray(inner.data)
    for ax in range(d):
      if to[ax] != c['off'][ax] or off[ax] != c['off'][ax] or (
          c['bc']['types'][ax][0] == 'dirichlet' and c['off'][ax] == 1.0):
        w = [(0, 0)] * d
        w[ax] = (1, 0) if to[ax] == 0.0 else (0, 1)
        m = np.pad(m, w)
        m = imposed(m, c2, axes=[ax])
    ctx.close(full, m, f'pad_and_impose_bc to {to}', 1e-12, np.abs(a).max() + 4)
  if touched:
    ctx.label('wall')
  return touched


@st.composite
def shift_history(draw):
  g = draw(gen.grid((1, 2, 3), POOL))
  d = len(g['shape'])
  return dict(g=g, off=[draw(gen.pick(0.0, 0.5, 1.0)) for _ in range(d)],
              f=draw(gen.field()),
              ops=[[draw(gen.ints(0, d - 1)), draw(gen.ints(-3, 3))]
                   for _ in range(draw(gen.ints(2, 5)))])


@P.facet(shift_history(), quick=150, shards=2,
         rule='histories of shifts of a periodic field compose to one roll; '
         'non-trivial = the rolls do not cancel')
def periodic_histories(c, ctx):
  g = gen.mk_grid(c['g'])
  bc = gen.periodic_bc(g.ndim)
  a = gen.arr(c['f'], g.shape)
  u = gen.garray(a, c['off'], g)
  total = [0] * g.ndim
  for ax, w in c['ops']:
    u = bc.shift(u, w, ax)
    total[ax] += w
  want = np.roll(a, [-t for t in total], axis=tuple(range(g.ndim)))
  ctx.close(u, want, f'shifts {c["ops"]}', 0)
  ctx.close(np.array(u.offset), np.array(c['off']) + np.array(total), 'offset',
            1e-12, 20)
  return any(t % n for t, n in zip(total, g.shape)) and gen.nonconstant(a)


@P.facet(variable(pool={1: [(3,), (5,)], 2: [(4, 3)], 3: [(3, 4, 2)]}),
         quick=150, rule='physical meaning at the wall, boundary value arrays, '
         'and rejected inputs; non-trivial = has a wall')
def meaning(c, ctx):
  g, a, bc = setup(c)
  d = g.ndim
  u = gen.gvar(a, c['off'], g, bc)
  walls = False
  for ax in range(d):
    t, v = c['bc']['types'][ax], c['bc']['values'][ax]
    h = gen.steps_of(c['g'])[ax]
    got = bc.values(ax, g)
    rest = g.shape[:ax] + g.shape[ax + 1:]
    if None in v:
      ctx.eq(tuple(got), (None, None), 'periodic boundary values')
    else:
      for side in (0, 1):
        ctx.close(got[side], np.full(rest, v[side]), f'values[{side}]', 0, 1)
    if t[0] == 'periodic' or c['off'][ax] != 0.5:
      continue
    walls = True
    lo = np.take(np.asarray(u.shift(-1, ax).data), 0, axis=ax)
    hi = np.take(np.asarray(u.shift(1, ax).data), -1, axis=ax)
    first, last = np.take(a, 0, axis=ax), np.take(a, -1, axis=ax)
    scale = np.abs(a).max() + 8
    for side, ghost, cell in ((0, lo, first), (1, hi, last)):
      if t[side] == 'dirichlet':
        ctx.close((ghost + cell) / 2, np.full(rest, v[side]),
                  'interpolated wall value', 1e-11, scale)
      else:
        slope = (cell - ghost) / h if side == 0 else (ghost - cell) / h
        ctx.close(slope, np.full(rest, v[side]), 'wall slope', 1e-11,
                  scale / h)
    short = np.take(a, range(g.shape[ax] - 1), axis=ax)
    ctx.raises(ValueError,
               lambda: bc.pad(gen.garray(short, c['off'], g), 1, ax),
               'padding a field that lacks interior values')
    if t[0] == 'neumann':
      o = list(c['off'])
      o[ax] = 1.0
      ctx.raises(NotImplementedError,
                 lambda: bc.pad(gen.garray(a, o, g), 1, ax),
                 'edge-aligned Neumann')
  return walls


@st.composite
def helper_case(draw):
  d = draw(gen.ints(1, 3))
  v = gen.pick(0.0, 1.0, -2.5, 0.75)
  return dict(d=d, vals=[[draw(v), draw(v)] for _ in range(d)],
              one=[draw(v), draw(v)], inh=draw(st.booleans()),
              axis=draw(gen.ints(0, 1)),
              vtypes=[draw(gen.pick('periodic', 'dirichlet', 'neumann'))
                      for _ in range(d)],
              ctypes=[draw(gen.pick('dirichlet', 'neumann')) for _ in range(d)],
              cval=draw(gen.pick(0.0, 0.0, 1.5)),
              direction=draw(gen.ints(0, d - 1)))


PP, DD, NN = (('periodic',) * 2, ('dirichlet',) * 2, ('neumann',) * 2)


@P.facet(helper_case(), quick=200,
         rule='boundary-condition constructors and the conditions inferred for '
         'pressure and advective flux; non-trivial always')
def helpers(c, ctx):
  d = c['d']
  vals = tuple(tuple(v) for v in c['vals']) if c['inh'] else None
  one = tuple(c['one']) if c['inh'] else None
  zero = ((0.0, 0.0),) * d

  def same(bc, types, values):
    ctx.eq(tuple(tuple(t) for t in bc.types), tuple(types), 'types')
    for got, want in zip(bc.bc_values, values):
      for x, y in zip(got, want):
        if y is not None:
          ctx.eq(x, y, 'boundary value')
    hom = boundaries.ConstantBoundaryConditions(tuple(types), tuple(
        tuple(v) for v in bc.bc_values))
    ctx.true(tuple(hom.types) == tuple(tuple(t) for t in bc.types), 'types')

  same(boundaries.periodic_boundary_conditions(d), (PP,) * d,
       ((None, None),) * d)
  same(boundaries.dirichlet_boundary_conditions(d, vals), (DD,) * d,
       vals or zero)
  same(boundaries.neumann_boundary_conditions(d, vals), (NN,) * d, vals or zero)
  if d >= 2:
    cv = None
    if c['inh']:
      cv = tuple(vals[i] if i == 1 else (None, None) for i in range(d))
    same(boundaries.channel_flow_boundary_conditions(d, cv),
         tuple(DD if i == 1 else PP for i in range(d)),
         cv or tuple((0.0, 0.0) if i == 1 else (None, None) for i in range(d)))
  w = one or (0.0, 0.0)
  same(boundaries.periodic_and_neumann_boundary_conditions(one), (PP, NN),
       ((None, None), w))
  ax = c['axis']
  same(boundaries.periodic_and_dirichlet_boundary_conditions(one, ax),
       (DD, PP) if ax else (PP, DD),
       (w, (None, None)) if ax else ((None, None), w))

  # inferred conditions
  g = grids.Grid((3, 4, 2)[:d])
  data = np.zeros(g.shape)
  vt = tuple((t, t) for t in c['vtypes'])
  v = tuple(grids.GridVariable(gen.garray(data, gen.face_offset(d, i), g),
                               gen.homogeneous(vt)) for i in range(d))
  p = boundaries.get_pressure_bc_from_velocity(v)
  same(p, tuple(PP if t == 'periodic' else NN for t in c['vtypes']), zero)
  k = c['direction']
  ct = tuple(PP if a == 'periodic' else (b, b)
             for a, b in zip(c['vtypes'], c['ctypes']))
  cbc = boundaries.ConstantBoundaryConditions(
      ct, tuple((0.0, 0.0) if t == PP else (c['cval'],) * 2 for t in ct))
  s = grids.GridVariable(gen.garray(data, (0.5,) * d, g), cbc)
  f = lambda: boundaries.get_advection_flux_bc_from_velocity_and_scalar(
      v[k], s, k)
  tk = c['vtypes'][k]
  supported = (tk in ('periodic', 'dirichlet')
               or (ct[k] == NN and c['cval'] == 0.0))
  if supported:
    fb = f()
    for i in range(d):
      got = tuple(fb.types[i])
      if c['vtypes'][i] == 'periodic':
        ctx.eq(got, PP, 'flux periodic where the velocity is')
      elif i != k:
        ctx.eq(got, DD, 'flux parallel to the wall')
      else:
        ctx.eq(got, DD if tk == 'dirichlet' else NN, 'flux through the wall')
      if got != PP:
        ctx.eq(tuple(fb.bc_values[i]), (0.0, 0.0), 'flux wall value')
    ctx.label('flux-' + tk)
  else:
    ctx.raises(NotImplementedError, f, 'unsupported flux boundary')
    ctx.label('flux-unsupported')
  inh = grids.GridVariable(v[k].array, boundaries.ConstantBoundaryConditions(
      (DD,) * d, ((1.0, 0.0),) * d))
  ctx.raises(NotImplementedError, lambda: boundaries.
             get_advection_flux_bc_from_velocity_and_scalar(inh, s, k),
             'moving wall velocity')
  return True
