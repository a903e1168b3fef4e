"""Shared generators: JSON-able descriptors and the objects they describe."""
import math

import hypothesis.strategies as st
import jax.numpy as jnp
import numpy as np

from jax_cfd.base import boundaries
from jax_cfd.base import grids

# Shapes come from pools, so that compiled kernels are reused between cases;
# everything else (values, domains, boundary values) varies freely.
SHAPES = {
    1: [(1,), (2,), (3,), (5,), (8,)],
    2: [(4, 4), (3, 5), (6, 4), (1, 4), (5, 2)],
    3: [(3, 4, 2), (4, 3, 5)],
}
EVEN = {1: [(8,), (6,)], 2: [(4, 6), (8, 8), (6, 4)], 3: [(4, 4, 6)]}

STEPS = [1.0, 0.1, 0.37, 2.0, 0.7853981633974483, 30.0]
LOWERS = [0.0, -1.5, 2.25, 10.0]
FIELD_KINDS = ['noise', 'modes', 'spike', 'step', 'const', 'ints', 'linear']


def dct(**kw):
  return st.fixed_dictionaries(kw)


def pick(*xs):
  return st.sampled_from(list(xs))


def ints(a, b):
  return st.integers(a, b)


def floats(a, b):
  """Special values (ends, round and tiny numbers) or anything between."""
  return st.one_of(
      st.tuples(st.integers(0, 31), st.integers(0, 31)).map(
          lambda t: round(a + (b - a) * (32 * t[0] + t[1]) / 1023, 6)),
      st.floats(a, b, allow_nan=False, allow_infinity=False, width=64,
                allow_subnormal=False).map(lambda x: round(x, 6)))


def seeds():
  return st.integers(0, 2 ** 20)


def field(kinds=None, amps=(1.0, 1.0, 1e-3, 40.0)):
  """Descriptor of an array."""
  return dct(kind=st.sampled_from(list(kinds or FIELD_KINDS)), seed=seeds(),
             amp=st.sampled_from(list(amps)))


def arr(desc, shape, dtype=np.float64):
  """The array a descriptor denotes."""
  shape = tuple(shape)
  rng = np.random.default_rng(desc['seed'])
  kind = desc['kind']
  if kind == 'noise':
    a = rng.standard_normal(shape)
  elif kind == 'modes':
    a = np.zeros(shape)
    mesh = np.meshgrid(*[np.arange(n) / n for n in shape], indexing='ij')
    for _ in range(3):
      k = rng.integers(-2, 3, size=len(shape))
      ph = rng.uniform(0, 2 * np.pi)
      a = a + rng.standard_normal() * np.cos(
          2 * np.pi * sum(ki * m for ki, m in zip(k, mesh)) + ph)
  elif kind == 'spike':
    a = np.zeros(shape)
    if a.size:
      a.flat[rng.integers(0, a.size)] = 1.0
  elif kind == 'step':
    a = np.sign(rng.standard_normal(shape))
  elif kind == 'const':
    a = np.full(shape, rng.uniform(0.5, 2.0))
  elif kind == 'ints':
    a = rng.integers(-4, 5, size=shape).astype(float)
  elif kind == 'linear':
    a = np.full(shape, rng.standard_normal())
    for ax, n in enumerate(shape):
      sl = [1] * len(shape)
      sl[ax] = n
      a = a + rng.standard_normal() * np.arange(n).reshape(sl)
  elif kind == 'zero':
    a = np.zeros(shape)
  elif kind == 'positive':
    a = rng.uniform(0.1, 1.0, size=shape)
  else:
    raise ValueError(kind)
  return (a * desc['amp']).astype(dtype)


def shapes(ndims=(1, 2, 3), pool=None):
  pool = pool or SHAPES
  return st.sampled_from([list(s) for d in ndims for s in pool[d]])


@st.composite
def grid(draw, ndims=(1, 2, 3), pool=None, steps=None, lowers=None):
  shape = draw(shapes(ndims, pool))
  step = [draw(st.sampled_from(list(steps or STEPS))) for _ in shape]
  lower = [draw(st.sampled_from(list(lowers or LOWERS))) for _ in shape]
  return dict(shape=shape, domain=[[l, l + s * n] for l, s, n in
                                   zip(lower, step, shape)])


def mk_grid(g):
  return grids.Grid(tuple(g['shape']), domain=[tuple(d) for d in g['domain']])


def steps_of(g):
  return [(u - l) / n for (l, u), n in zip(g['domain'], g['shape'])]


BC_VALUES = [0.0, 1.0, -0.5, 3.25]


@st.composite
def bc(draw, ndim, types=('periodic', 'dirichlet', 'neumann'), mixed=True,
       values=None):
  """Boundary conditions; lower/upper types may differ unless periodic."""
  ts, vs = [], []
  for _ in range(ndim):
    t = draw(st.sampled_from(list(types)))
    if t == 'periodic':
      ts.append(['periodic', 'periodic'])
      vs.append([None, None] if draw(st.booleans()) else [0.0, 0.0])
    else:
      non = [x for x in types if x != 'periodic']
      t2 = draw(st.sampled_from(non)) if mixed else t
      ts.append([t, t2])
      vs.append([draw(st.sampled_from(list(values or BC_VALUES))),
                 draw(st.sampled_from(list(values or BC_VALUES)))])
  return dict(types=ts, values=vs)


def mk_bc(b):
  return boundaries.ConstantBoundaryConditions(
      tuple(tuple(t) for t in b['types']), tuple(tuple(v) for v in b['values']))


def homogeneous(types):
  return boundaries.HomogeneousBoundaryConditions(
      tuple(tuple(t) for t in types))


def periodic_bc(ndim):
  return boundaries.periodic_boundary_conditions(ndim)


def garray(data, offset, g):
  return grids.GridArray(jnp.asarray(data), tuple(offset), g)


def gvar(data, offset, g, b):
  return grids.GridVariable(garray(data, offset, g), b)


def face_offset(ndim, axis):
  return tuple(1.0 if i == axis else 0.5 for i in range(ndim))


# ---- numpy reference model of "values beyond the array" ---------------------


def take_extended(a, k, axis, offset, types, values, step, mode='extend'):
  """Values at index range `k` (ints, may lie outside) of array `a`.

  `a` is aligned at `offset` (0, 0.5 or 1) along `axis`, spanning the domain.
  Independent statement of the documented semantics of boundary conditions.
  """
  n = a.shape[axis]
  a = np.moveaxis(a, axis, 0)
  out = []
  for j in k:
    lo_side = j < 0
    t = types[0] if lo_side else types[1]
    v = values[0] if lo_side else values[1]
    if types[0] == 'periodic':
      out.append(a[j % n])
      continue
    if offset == 0.5:
      if 0 <= j < n:
        out.append(a[j])
        continue
      depth = (-j) if lo_side else (j - n + 1)  # 1, 2, ...
      depth = depth if mode == 'mirror' else 1
      src = a[depth - 1] if lo_side else a[n - depth]
      if t == 'dirichlet':
        out.append(2 * v - src)
      else:
        out.append(src - step * v if lo_side else src + step * v)
    elif offset == 1.0:  # index n-1 lies on the upper boundary
      if 0 <= j < n:
        out.append(a[j])
      elif lo_side:
        depth = -j - 1  # 0: on the boundary
        if depth == 0 or mode == 'extend':
          out.append(np.full_like(a[0], v))
        else:
          out.append(v - a[depth - 1])  # as the test suite pins it
      else:
        depth = j - n + 1
        if mode == 'extend':
          out.append(np.full_like(a[0], v))
        else:
          out.append(v - a[n - 1 - depth])
    elif offset == 0.0:  # index 0 lies on the lower boundary
      if 0 <= j < n:
        out.append(a[j])
      elif not lo_side:
        depth = j - n  # 0: on the boundary
        if depth == 0 or mode == 'extend':
          out.append(np.full_like(a[0], v))
        else:
          out.append(v - a[n - depth])
      else:
        depth = -j
        if mode == 'extend':
          out.append(np.full_like(a[0], v))
        else:
          out.append(v - a[depth])
    else:
      raise ValueError(offset)
  return np.moveaxis(np.stack(out), 0, axis)


def nonconstant(a):
  a = np.asarray(a)
  return a.size > 1 and float(np.ptp(a)) > 0


def rms(a):
  a = np.asarray(a)
  return float(math.sqrt(float(np.mean(np.abs(a) ** 2)))) if a.size else 0.0


def imposed(a, c, axes=None, sides=(0, 1)):
  """Sets the entries of `a` that lie on a Dirichlet boundary."""
  a = a.copy()
  for ax, (t, v, o) in enumerate(zip(c['bc']['types'], c['bc']['values'],
                                     c['off'])):
    if axes is not None and ax not in axes:
      continue
    sl = [slice(None)] * a.ndim
    if t[0] == 'dirichlet' and o == 0.0 and 0 in sides:
      sl[ax] = 0
      a[tuple(sl)] = v[0]
    if t[1] == 'dirichlet' and o == 1.0 and 1 in sides:
      sl[ax] = -1
      a[tuple(sl)] = v[1]
  return a


def ext_shift(a, c, ax, w, mode='extend'):
  """Reference for shifting the variable described by `c` (needs off/bc/g)."""
  if w == 0:
    return a
  t = c['bc']['types'][ax]
  v = [0.0 if x is None else x for x in c['bc']['values'][ax]]
  if t[0] != 'periodic':
    a = imposed(a, c, axes=[ax], sides=(0,) if w < 0 else (1,))
  n = a.shape[ax]
  return take_extended(a, range(w, n + w), ax, c['off'][ax], t, v,
                       steps_of(c['g'])[ax], mode)


@st.composite
def variable(draw, pool=None, ndims=(1, 2, 3), types=None, offsets=(1.0, 0.0, 0.5),
             kinds=None, steps=None, lowers=None, values=None):
  """A variable with consistent alignment and boundary conditions."""
  g = draw(grid(ndims, pool or {1: [(2,), (3,), (5,)], 2: [(4, 3), (3, 5)],
                                3: [(3, 4, 2)]}, steps, lowers))
  b = draw(bc(len(g['shape']), types or (
      'dirichlet', 'periodic', 'dirichlet', 'neumann'), values=values))
  off = []
  for t, n in zip(b['types'], g['shape']):
    if 'neumann' in t or (n == 1 and t[0] != 'periodic'):
      off.append(0.5)
    else:
      off.append(draw(pick(*offsets)))
  return dict(g=g, bc=b, off=off, f=draw(field(kinds)))


def var_data(c):
  return imposed(arr(c['f'], c['g']['shape']), c)
