"""C07: monotone advection."""
import functools

import hypothesis.strategies as st
import jax
import numpy as np

from checks.c05 import ref_linear
from harness import core, gen
from jax_cfd.base import advection as adv
from jax_cfd.base import grids

P = core.Property('C07')
POOL = {1: [(5,), (2,), (8,)], 2: [(4, 3), (3, 6), (1, 4), (4, 4)], 3: [(3, 4, 2)]}


def eps(a, steps=1):
  return 4e-15 * steps * (np.abs(a).max() + np.ptp(a) + 1e-300) * 10


@st.composite
def flow_case(draw):
  g = draw(gen.grid((1, 2, 3), POOL))
  d = len(g['shape'])
  off = [0.5] * d
  if draw(gen.pick(False, False, True)):
    off[draw(gen.ints(0, d - 1))] = draw(gen.pick(1.0, 0.0))
  return dict(g=g, off=off, f=draw(gen.field()),
              psi=[draw(gen.field()) for _ in range(3)],
              mean=[draw(gen.pick(0.0, 1.0, -0.7, 2.0)) for _ in range(d)],
              cfl=draw(gen.pick(1.0, 1.0, 0.9, 0.5, 0.1)),
              steps=draw(gen.pick(1, 3)))


def solenoidal(c, g):
  d = g.ndim
  vs = [np.full(g.shape, m) for m in c['mean']]
  pairs = {1: [], 2: [(0, 1)], 3: [(0, 1), (1, 2), (2, 0)]}[d]
  for k, (i, j) in enumerate(pairs):
    psi = gen.arr(c['psi'][k], g.shape)
    vs[i] = vs[i] + (psi - np.roll(psi, 1, axis=j)) / g.step[j]
    vs[j] = vs[j] - (psi - np.roll(psi, 1, axis=i)) / g.step[i]
  return vs


@P.facet(flow_case(), quick=110, shards=4,
         rule='upwind steps at a Courant limit set by the outflow of each cell '
         'in divergence-free flow; non-trivial = field and flow non-constant')
def upwind_range(c, ctx):
  g = gen.mk_grid(c['g'])
  d = g.ndim
  bc = gen.periodic_bc(d)
  vs = solenoidal(c, g)
  voffs = [gen.face_offset(d, i) for i in range(d)]
  v = tuple(gen.gvar(x, o, g, bc) for x, o in zip(vs, voffs))
  a = gen.arr(c['f'], g.shape)
  # volume leaving each control volume per unit time
  out = np.zeros(g.shape)
  for ax in range(d):
    target = list(c['off'])
    target[ax] += 0.5
    u = ref_linear(vs[ax], dict(g=c['g'], off=list(voffs[ax]), bc=dict(
        types=[['periodic'] * 2] * d, values=[[0.0, 0.0]] * d)), target)
    out += (np.maximum(u, 0) + np.maximum(-np.roll(u, 1, axis=ax), 0)) / g.step[ax]
  if out.max() == 0:
    raise core.Discard()
  dt = c['cfl'] / out.max()
  x = gen.gvar(a, c['off'], g, bc)
  # interpolated velocities stay divergence-free up to rounding
  slack = 1e-12 * (np.abs(a).max() + 1e-300) * c['steps']
  for _ in range(c['steps']):
    x = grids.GridVariable(x.array + dt * adv.advect_upwind(x, v, dt), bc)
  y = np.asarray(x.data)
  ctx.le(y, a.max(), 'new maximum', slack)
  ctx.le(a.min(), y, 'new minimum', slack)
  return gen.nonconstant(a) and any(gen.nonconstant(u) for u in vs)


@st.composite
def shear_case(draw):
  g = draw(gen.grid((1, 2), {1: [(5,), (8,), (3,)], 2: [(4, 3), (3, 6)]}))
  d = len(g['shape'])
  return dict(g=g, axis=draw(gen.ints(0, d - 1)), f=draw(gen.field()),
              u=draw(gen.field(kinds=['noise', 'ints', 'step', 'const'],
                               amps=(1.0, -1.0))),
              off=draw(gen.pick(0.5, 0.5, 1.0, 0.0)),
              scheme=draw(gen.pick('van_leer', 'limited', 'upwind')),
              cfl=draw(gen.pick(1.0, 0.95, 0.5, 0.1)), steps=draw(gen.pick(1, 4)))


def total_variation(y, axis):
  return np.abs(y - np.roll(y, 1, axis=axis)).sum(axis=axis)


@P.facet(shear_case(), quick=110, shards=4,
         rule='one-dimensional lines carried at their own constant speed (plain '
         '1-D or 2-D shear); range and total variation of each line; '
         'non-trivial = field non-constant and some speed non-zero')
def tvd(c, ctx):
  g = gen.mk_grid(c['g'])
  d, ax = g.ndim, c['axis']
  bc = gen.periodic_bc(d)
  a = gen.arr(c['f'], g.shape)
  line = list(g.shape)
  line[ax] = 1
  vs = [np.zeros(g.shape) for _ in range(d)]
  vs[ax] = np.broadcast_to(gen.arr(c['u'], line), g.shape)
  v = tuple(gen.gvar(x, gen.face_offset(d, i), g, bc) for i, x in enumerate(vs))
  off = [0.5] * d
  off[ax] = c['off']
  top = np.abs(vs[ax]).max()
  if top == 0:
    raise core.Discard()
  dt = c['cfl'] * g.step[ax] / top
  fn = {'van_leer': adv.advect_van_leer, 'upwind': adv.advect_upwind,
        'limited': adv.advect_van_leer_using_limiters}[c['scheme']]
  x = gen.gvar(a, off, g, bc)
  slack = 1e-12 * (np.abs(a).max() + 1e-300) * c['steps']
  tv = total_variation(a, ax)
  for _ in range(c['steps']):
    x = grids.GridVariable(x.array + dt * fn(x, v, dt), bc)
    y = np.asarray(x.data)
    new = total_variation(y, ax)
    ctx.le(new, tv, f'{c["scheme"]} total variation', slack * g.shape[ax])
    tv = new
  ctx.label(c['scheme'])
  ctx.le(y, a.max(axis=ax, keepdims=True), f'{c["scheme"]} new maximum', slack)
  ctx.le(a.min(axis=ax, keepdims=True), y, f'{c["scheme"]} new minimum', slack)
  return gen.nonconstant(a)


@st.composite
def semilag_case(draw):
  g = draw(gen.grid((1, 2, 3), POOL, lowers=[0.0]))
  d = len(g['shape'])
  return dict(g=g, off=[draw(gen.pick(0.5, 0.5, 1.0, 0.0)) for _ in range(d)],
              f=draw(gen.field()), vs=[draw(gen.field(amps=(1.0, -3.0)))
                                       for _ in range(d)],
              shift=[draw(gen.ints(-7, 7)) for _ in range(d)],
              dt=draw(gen.pick(0.0, 0.05, 0.4, 3.0, 50.0)),
              collocated=draw(gen.pick(False, False, True)))


@P.facet(semilag_case(), quick=110, shards=4,
         rule='semi-Lagrangian step for every time step: multilinear reference, '
         'range, uniform fields, whole-cell displacement; non-trivial = field '
         'non-constant and dt non-zero')
def semilagrangian(c, ctx):
  g = gen.mk_grid(c['g'])
  d = g.ndim
  bc = gen.periodic_bc(d)
  a = gen.arr(c['f'], g.shape)
  vs = [gen.arr(f, g.shape) for f in c['vs']]
  voffs = [(0.5,) * d if c['collocated'] else gen.face_offset(d, i)
           for i in range(d)]
  v = tuple(gen.gvar(x, o, g, bc) for x, o in zip(vs, voffs))
  x = gen.gvar(a, c['off'], g, bc)
  got = adv.advect_step_semilagrangian(x, v, c['dt'])
  y = np.asarray(got.data)
  ctx.eq(tuple(got.offset), tuple(c['off']), 'offset')
  ctx.true(got.bc == bc and got.grid == g, 'grid and boundary conditions')
  mag = np.abs(a).max() + 1e-300
  far = 1 + max(np.abs(u).max() * c['dt'] / h for u, h in zip(vs, g.step))
  ctx.le(y, a.max(), 'new maximum', 1e-12 * mag)
  ctx.le(a.min(), y, 'new minimum', 1e-12 * mag)
  # where did each point come from, in units of cells
  per = lambda i: dict(g=c['g'], off=list(voffs[i]), bc=dict(
      types=[['periodic'] * 2] * d, values=[[0.0, 0.0]] * d))
  idx = np.meshgrid(*[np.arange(n, dtype=float) for n in g.shape], indexing='ij')
  pos = [k - c['dt'] * ref_linear(vs[i], per(i), list(c['off'])) / g.step[i]
         for i, k in enumerate(idx)]
  want = np.zeros(g.shape)
  low = [np.floor(p) for p in pos]
  for corner in np.ndindex(*[2] * d):
    w = np.ones(g.shape)
    ii = []
    for i, b in enumerate(corner):
      frac = pos[i] - low[i]
      w = w * (frac if b else 1 - frac)
      ii.append(((low[i] + b) % g.shape[i]).astype(int))
    want += w * a[tuple(ii)]
  ctx.close(y, want, 'value at the departure point', 1e-13 * far * 100, 4 * mag)
  # whole cells
  dt = 0.25
  vs = [np.full(g.shape, s * h / dt) for s, h in zip(c['shift'], g.step)]
  v = tuple(gen.gvar(u, o, g, bc) for u, o in zip(vs, voffs))
  got = adv.advect_step_semilagrangian(x, v, dt)
  ctx.close(got, np.roll(a, c['shift'], axis=tuple(range(d))),
            'whole-cell displacement', 1e-11, mag)
  return gen.nonconstant(a) and c['dt'] > 0


@P.facet(gen.dct(g=gen.grid((1, 2), POOL, lowers=[1.0, -2.0]), f=gen.field()),
         quick=20, rule='unsupported settings are refused; all non-trivial')
def refusals(c, ctx):
  g = gen.mk_grid(c['g'])
  d = g.ndim
  a = gen.arr(c['f'], g.shape)
  bc = gen.periodic_bc(d)
  v = tuple(gen.gvar(a, gen.face_offset(d, i), g, bc) for i in range(d))
  ctx.raises(ValueError, lambda: adv.advect_step_semilagrangian(
      gen.gvar(a, (0.5,) * d, g, bc), v, 0.1), 'domain that does not start at 0')
  z = grids.Grid(g.shape, domain=[(0.0, u - l) for l, u in g.domain])
  v = tuple(gen.gvar(a, gen.face_offset(d, i), z, bc) for i in range(d))
  wall = gen.homogeneous([['neumann'] * 2] * d)
  ctx.raises(NotImplementedError, lambda: adv.advect_step_semilagrangian(
      gen.gvar(a, (0.5,) * d, z, wall), v, 0.1), 'walls')
  return True
