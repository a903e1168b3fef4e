"""C27: encoders, decoders, rollouts and training utilities."""
import functools
import itertools
import types

import haiku as hk
import hypothesis.strategies as st
import jax
import jax.numpy as jnp
import numpy as np

from checks.c26 import closed_net, closed_tower, pure
from harness import core, gen
from jax_cfd.base import grids
from jax_cfd.ml import decoders
from jax_cfd.ml import encoders
from jax_cfd.ml import model_builder
from jax_cfd.ml import model_utils
from jax_cfd.ml import physics_specifications as specs
from jax_cfd.ml import train_utils

P = core.Property('C27')
SPECS = specs.BasePhysicsSpecs(None)
DT = 0.1


def leaves(tree):
  return [core.to_np(x) for x in jax.tree.leaves(tree)]


@st.composite
def aligned_case(draw):
  g = draw(gen.grid())
  d = len(g['shape'])
  m = draw(gen.ints(1, d))
  bcs = [draw(gen.bc(d)) for _ in range(m)]
  # values on Neumann walls are not supported
  offs = [[0.5 if 'neumann' in t else draw(gen.pick(0.0, 0.5, 1.0)) for t in b['types']]
          for b in bcs]
  return dict(g=g, m=m, T=draw(gen.ints(1, 3)), f=[draw(gen.field()) for _ in range(m)],
              off=offs, bc=bcs,
              how=draw(gen.pick('default', 'offsets', 'specs', 'specs_offsets')))


@P.facet(aligned_case(), quick=200,
         rule='decode(encode(trajectory)) is its last frame, with the offsets and '
         'boundary conditions asked for; non-trivial = frames differ')
def aligned(c, ctx):
  g = gen.mk_grid(c['g'])
  d = g.ndim
  data = [gen.arr(f, (c['T'],) + g.shape) for f in c['f']]
  off = [tuple(o) for o in c['off']]
  bcs = [gen.mk_bc(b) for b in c['bc']]
  ps, kw = SPECS, {}
  want_off, want_bc = list(g.cell_faces), [gen.periodic_bc(d)] * c['m']
  if c['how'] == 'offsets':
    kw, want_off = dict(data_offsets=tuple(off)), off
  elif c['how'].startswith('specs'):
    ps = types.SimpleNamespace(combo_offsets=lambda: tuple(off))
    kw = dict(data_offsets=tuple((0.5,) * d for _ in off))
    want_off = off
    if c['how'] == 'specs':
      ps.combo_boundaries = lambda: tuple(bcs)
      want_bc = bcs
  state = encoders.aligned_array_encoder(g, DT, ps, **kw)(tuple(map(jnp.asarray, data)))
  ctx.eq(len(state), c['m'], 'components')
  ctx.label(c['how'])
  last = [x[-1] for x in data]
  for i, u in enumerate(state):
    ctx.eq((tuple(u.offset), u.grid, u.bc), (want_off[i], g, want_bc[i]), 'metadata')
    if c['how'] == 'specs':
      last[i] = gen.imposed(last[i], dict(bc=c['bc'][i], off=off[i]))
      # corners shared by two walls may take either value
      keep = np.ones(g.shape, bool)
      hits = np.zeros(g.shape, int)
      for ax, (t, o) in enumerate(zip(c['bc'][i]['types'], off[i])):
        sl = [slice(None)] * d
        for s, oo, idx in ((0, 0.0, 0), (1, 1.0, -1)):
          if t[s] == 'dirichlet' and o == oo:
            sl[ax] = idx
            hits[tuple(sl)] += 1
      keep = hits < 2
    else:
      keep = np.ones(g.shape, bool)
    a = core.to_np(u)
    ctx.close(np.where(keep, a, 0), np.where(keep, last[i], 0), 'encoded state', 1e-15)
  out = decoders.aligned_array_decoder(g, DT, ps)(state)
  ctx.eq(len(out), c['m'], 'decoded components')
  for a, u in zip(out, state):
    ctx.true(not isinstance(a, grids.GridVariable), 'decoded data are arrays')
    ctx.close(a, core.to_np(u), 'decoded array', 0.0)
  same = decoders.identity_decoder(g, DT, ps)(state)
  ctx.true(same is state or jax.tree.structure(same) == jax.tree.structure(state),
           'identity decoder')
  return c['T'] > 1 or any(gen.nonconstant(x) for x in last)


@st.composite
def staggered_case(draw):
  g = draw(gen.grid())
  d = len(g['shape'])
  return dict(g=g, T=draw(gen.ints(1, 3)), f=[draw(gen.field()) for _ in range(d)],
              bc=[draw(gen.bc(d)) for _ in range(d)], walls=draw(st.booleans()),
              c0=draw(gen.pick(1.0, -2.5)))


@P.facet(staggered_case(), quick=150,
         rule='collocated and staggered states interpolate linearly to each other; '
         'non-trivial = varying data')
def staggered(c, ctx):
  g = gen.mk_grid(c['g'])
  d = g.ndim
  data = [gen.arr(f, (c['T'],) + g.shape) for f in c['f']]
  state = encoders.collocated_to_staggered_encoder(g, DT, SPECS)(
      tuple(map(jnp.asarray, data)))
  decode = decoders.staggered_to_collocated_decoder(g, DT, SPECS)
  out = decode(state)
  size = max(np.abs(x).max() for x in data) + 1e-300
  ctx.eq((len(state), len(out)), (d, d), 'components')
  for i, (u, x) in enumerate(zip(state, data)):
    ctx.eq((tuple(u.offset), u.grid, u.bc), (gen.face_offset(d, i), g, gen.periodic_bc(d)),
           'metadata')
    a = x[-1]
    face = (a + np.roll(a, -1, axis=i)) / 2
    ctx.close(u, face, 'staggered state', 1e-14, size)
    ctx.close(out[i], (face + np.roll(face, 1, axis=i)) / 2, 'collocated data', 1e-14, size)
    ctx.close(np.sum(core.to_np(out[i])), a.sum(), 'total', 1e-12, size * a.size)
  if c['walls']:
    bcs = c['bc']
    data = [gen.imposed(x[-1], dict(bc=b, off=gen.face_offset(d, i)))
            for i, (x, b) in enumerate(zip(data, bcs))]
    v = tuple(gen.gvar(x, gen.face_offset(d, i), g, gen.mk_bc(b))
              for i, (x, b) in enumerate(zip(data, bcs)))
    ok = [not ('neumann' in b['types'][i]) for i, b in enumerate(bcs)]
    if all(ok):
      for i, (x, b, y) in enumerate(zip(data, bcs, decode(v))):
        below = gen.ext_shift(x, dict(bc=b, off=gen.face_offset(d, i), g=c['g']), i, -1)
        ctx.close(y, (x + below) / 2, 'collocated data next to walls', 1e-14, size)
      ctx.label('walls')
  return any(gen.nonconstant(x) for x in data)


@st.composite
def frames_case(draw):
  d = draw(gen.ints(1, 3))
  return dict(d=d, n=[draw(gen.ints(2, 4)) for _ in range(d)], T=draw(gen.ints(1, 4)),
              m=draw(gen.ints(1, 3)), keep=draw(gen.ints(1, 4)), axis=draw(gen.ints(0, d)),
              neg=draw(st.booleans()), tree=draw(gen.pick('tuple', 'array', 'dict')),
              seed=draw(gen.seeds()), latent=draw(gen.ints(1, 4)), f=draw(gen.field(['noise', 'ints'])))


@P.facet(frames_case(), quick=120,
         rule='encoders of frames on any time axis and latent encoders and decoders '
         'against numpy slices; non-trivial = several frames')
def frames(c, ctx):
  d = c['d']
  g = grids.Grid(tuple(c['n']), domain=[(0.0, 1.0 + i) for i in range(d)])
  m = 1 if c['tree'] == 'array' else c['m']
  first = gen.arr(c['f'], [m, c['T']] + c['n'])  # time leading
  ax = c['axis'] - (d + 1 if c['neg'] else 0)
  moved = [np.moveaxis(x, 0, ax) for x in first]
  arrs = [jnp.asarray(x) for x in moved]
  tree = {'tuple': tuple(arrs), 'array': arrs[0],
          'dict': {f'k{i}': x for i, x in enumerate(arrs)}}[c['tree']]
  ctx.label(f"{c['tree']} axis {ax}")
  last = encoders.slice_last_state_encoder(g, DT, SPECS, time_axis=ax)(tree)
  ctx.eq(jax.tree.structure(last), jax.tree.structure(tree), 'structure')
  for a, x in zip(leaves(last), first):
    ctx.close(a, x[-1], 'last frame', 0.0)
  k = min(c['keep'], c['T'])
  some = encoders.slice_last_n_state_encoder(g, DT, SPECS, n=k, time_axis=ax)(tree)
  ctx.eq(jax.tree.structure(some), jax.tree.structure(tree), 'structure')
  for a, x in zip(leaves(some), first):
    ctx.close(a, np.moveaxis(x[-k:], 0, -1), 'last frames in order', 0.0)
  stack = encoders.stack_last_n_state_encoder(g, DT, SPECS, n=k, time_axis=ax)(tree)
  want = np.concatenate([np.moveaxis(x[-k:], 0, -1) for x in first], -1)
  ctx.close(stack, want, 'frames stacked as channels', 0.0)
  split = decoders.channels_split_decoder(g, DT, SPECS)(stack)
  ctx.eq(len(split), want.shape[-1], 'channels')
  for i, a in enumerate(split):
    ctx.close(a, want[..., i], 'channel', 0.0)
  if c['T'] == k:  # nothing is lost
    ctx.close(np.stack([core.to_np(a) for a in split], 0),
              np.concatenate(list(first), 0), 'round trip', 0.0)
  # latent representations
  tower = closed_tower(c['seed'])
  lat = c['latent']
  enc = pure(lambda x: encoders.latent_encoder(g, DT, SPECS, tower, lat, k, ax)(x), tree)
  ref = closed_net(c['seed'], want, lat)
  ctx.close(enc, ref, 'latent state', 1e-13)
  dec = pure(lambda x: decoders.latent_decoder(g, DT, SPECS, tower, c['m'])(x), enc)
  out = closed_net(c['seed'], ref, c['m'])
  ctx.eq(len(dec), c['m'], 'decoded components')
  for i, a in enumerate(dec):
    ctx.close(a, out[..., i], 'decoded component', 1e-13)
  ctx.eq(len(pure(lambda x: decoders.latent_decoder(g, DT, SPECS, tower)(x), enc)), d,
         'default number of components')
  offs = [tuple(0.5 * ((i + j) % 3) for j in range(d)) for i in range(lat)]
  for offsets in (tuple(offs), None):
    state = pure(lambda x: encoders.aligned_latent_encoder(
        g, DT, SPECS, tower, lat, k, ax, data_offsets=offsets)(x), tree)
    expect = offs if offsets else list(g.cell_faces)[:lat]
    ctx.eq([tuple(u.offset) for u in state], expect, 'latent offsets')
    for i, u in enumerate(state):
      ctx.eq((u.grid, u.bc), (g, gen.periodic_bc(d)), 'latent metadata')
      ctx.close(u, ref[..., i], 'aligned latent', 1e-13)
    dec = pure(lambda x: decoders.aligned_latent_decoder(g, DT, SPECS, tower, c['m'])(x),
               state)
    out = closed_net(c['seed'], ref[..., :len(expect)], c['m'])
    ctx.eq(len(dec), c['m'], 'decoded components')
    for i, a in enumerate(dec):
      ctx.close(a, out[..., i], 'decoded aligned component', 1e-13)
  return c['T'] > 1 and gen.nonconstant(first)


@st.composite
def vorticity_case(draw):
  return dict(n=[draw(gen.pick(2, 4, 6, 8, 5, 7)), draw(gen.pick(2, 4, 6, 8))],
              L=[draw(gen.pick(1.0, 2 * np.pi, 3.0)) for _ in range(2)],
              lo=draw(gen.pick(0.0, -1.0)), seed=draw(gen.seeds()), T=draw(gen.ints(1, 3)),
              mean=draw(gen.pick(0.0, 0.0, 1.0)), div=draw(gen.pick(0.0, 0.0, 1.0)),
              modes=draw(gen.ints(1, 4)), amp=draw(gen.pick(1.0, 0.01, 30.0)))


@P.facet(vorticity_case(), quick=150,
         rule='vorticity encoders against the curl of band-limited velocities given by '
         'formula, and their inversion; non-trivial = non-zero vorticity')
def vorticity(c, ctx):
  g = grids.Grid(tuple(c['n']), domain=[(c['lo'], c['lo'] + l) for l in c['L']])
  n, L = c['n'], c['L']
  rng = np.random.default_rng(c['seed'])
  frames_u, frames_v, frames_w, sol = [], [], [], []
  mesh = np.meshgrid(*[np.arange(k) / k for k in n], indexing='ij')
  top = [(k - 1) // 2 for k in n]  # below the Nyquist frequency
  for _ in range(c['T']):
    u, v, w = c['mean'] + np.zeros(n), -0.5 * c['mean'] + np.zeros(n), np.zeros(n)
    us, vs = np.zeros(n), np.zeros(n)
    for _ in range(c['modes']):
      k = [int(rng.integers(-t, t + 1)) for t in top]
      q = [2 * np.pi * a / l for a, l in zip(k, L)]
      ph = 2 * np.pi * (k[0] * mesh[0] + k[1] * mesh[1]) + rng.uniform(0, 6)
      amp = c['amp'] * rng.standard_normal()
      # stream function: velocity (d psi/dy, -d psi/dx), vorticity -lap psi
      us -= amp * q[1] * np.sin(ph)
      vs += amp * q[0] * np.sin(ph)
      w += amp * (q[0] ** 2 + q[1] ** 2) * np.cos(ph)
      pot = c['div'] * rng.standard_normal()
      u -= pot * q[0] * np.sin(ph)
      v -= pot * q[1] * np.sin(ph)
    frames_u.append(u + us)
    frames_v.append(v + vs)
    frames_w.append(w)
    sol.append((us, vs))
  x = (jnp.asarray(np.stack(frames_u)), jnp.asarray(np.stack(frames_v)))
  w = frames_w[-1]
  size = (max(np.abs(frames_u).max(), np.abs(frames_v).max()) + 1e-300) * (
      2 * np.pi * max(a / l for a, l in zip(n, L)))
  real = encoders.vorticity_encoder(g, DT, SPECS)(x)
  ctx.close(real, w[..., None], 'vorticity', 1e-12, size)
  both = encoders.vorticity_velocity_encoder(g, DT, SPECS)(x)
  ctx.close(both, np.stack([frames_u[-1], frames_v[-1], w], -1), 'velocity and vorticity',
            1e-12, max(size, size / min(L)))
  hat = encoders.spectral_vorticity_encoder(g, DT, SPECS)(x)
  ctx.close(hat, np.fft.rfft2(w), 'spectral vorticity', 1e-12, size * w.size)
  us, vs = sol[-1]
  for name, out in (('real', decoders.vorticity_decoder(g, DT, SPECS)(real)),
                    ('spectral', decoders.spectral_vorticity_decoder(g, DT, SPECS)(hat))):
    ctx.eq(len(out), 2, 'components')
    ctx.close(out[0], us, f'u from {name} vorticity', 1e-11, size * max(L))
    ctx.close(out[1], vs, f'v from {name} vorticity', 1e-11, size * max(L))
  ctx.label(f"mean={c['mean']} div={c['div']}")
  return float(np.abs(w).max()) > 0


# ---- rollouts ---------------------------------------------------------------


def learned_modules(scale):
  """Modules with parameters, so that rollouts share them between steps."""

  def advance(grid, dt, ps):
    del grid, ps

    def step(x):
      w = hk.get_parameter('w', (), init=jnp.zeros)
      return jax.tree.map(lambda a: a + dt * scale * jnp.sin(w * a) - dt, x)
    return hk.to_module(step)('advance')

  def encode(grid, dt, ps):
    del grid, dt, ps

    def f(x):
      return {'a': x[0][-1] + 1.0, 'b': x[1][-1] * 2.0}
    return f

  def decode(grid, dt, ps):
    del grid, dt, ps

    def f(s):
      return (s['a'] - 1.0, s['b'] / 2.0)
    return f
  return advance, encode, decode


def np_step(x, w, dt, scale):
  return {k: a + dt * scale * np.sin(w * a) - dt for k, a in x.items()}


@st.composite
def rollout_case(draw):
  return dict(outer=draw(gen.ints(0, 4)), inner=draw(gen.ints(1, 4)), T=draw(gen.ints(1, 4)),
              init=draw(gen.ints(1, 4)), start=draw(st.booleans()), w=draw(gen.floats(-2, 2)),
              dt=draw(gen.pick(0.1, 0.5, 1.0)), scale=draw(gen.pick(1.0, 0.3)),
              n=[draw(gen.ints(1, 3)) for _ in range(draw(gen.ints(1, 2)))],
              post=draw(gen.pick('none', 'square', 'decode')), jit=draw(st.booleans()),
              remat=draw(st.booleans()), f=draw(gen.field(['noise', 'const', 'ints'], (1.0, 3.0))))


@P.facet(rollout_case(), quick=90, shards=2,
         rule='trajectories of a modular model against a Python loop of steps; '
         'non-trivial = more than one step')
def rollout(c, ctx):
  advance, encode, decode = learned_modules(c['scale'])
  shape = tuple(c['n'])
  g = grids.Grid(shape, domain=[(0.0, 1.0)] * len(shape))
  data = gen.arr(c['f'], (2, c['T']) + shape)
  x = (jnp.asarray(data[0]), jnp.asarray(data[1]))
  post = {'none': None, 'square': lambda s: (s['a'] ** 2, s['b']), 'decode': 'decode'}[c['post']]

  def make():
    return model_builder.ModularStepModel(
        g, c['dt'], SPECS, advance_module=advance, encoder_module=encode,
        decoder_module=decode)

  def call(fn, *args):
    f = hk.without_apply_rng(hk.transform(fn))
    params = jax.eval_shape(f.init, jax.random.PRNGKey(0), *args)
    params = jax.tree.map(lambda s: jnp.full(s.shape, c['w']), params)
    apply = jax.jit(f.apply) if c['jit'] else f.apply
    return apply(params, *args)

  def unroll(x):
    model = make()
    kw = {}
    if post == 'decode':
      kw['post_process_fn'] = model.decode
    elif post:
      kw['post_process_fn'] = post
    return model.trajectory(model.encode(x), c['outer'], c['inner'],
                            start_with_input=c['start'], **kw)

  def np_path(data, outer, inner):
    s = {'a': data[0][-1] + 1.0, 'b': data[1][-1] * 2.0}
    path = [s]
    for _ in range(outer * inner):
      path.append(np_step(path[-1], c['w'], c['dt'], c['scale']))
    return path

  path = np_path(data, c['outer'], c['inner'])
  keep = [path[(i if c['start'] else i + 1) * c['inner']] for i in range(c['outer'])]
  view = {'none': lambda s: (s['a'], s['b']), 'square': lambda s: (s['a'] ** 2, s['b']),
          'decode': lambda s: (s['a'] - 1.0, s['b'] / 2.0)}[c['post']]
  final, traj = call(unroll, x)
  size = max(np.abs(s['a']).max() + np.abs(s['b']).max() for s in path) + 1.0
  size = size ** 2
  for k in 'ab':
    ctx.close(final[k], path[-1][k], 'final state', 1e-12, size)
  rows = leaves(traj)
  ctx.eq(len(rows), 2, 'structure of frames')
  for i in range(2):
    ref = np.stack([view(s)[i] for s in keep]) if keep else np.zeros((0,) + shape)
    ctx.eq(rows[i].shape, ref.shape, 'shape of trajectory')
    ctx.close(rows[i], ref, 'trajectory', 1e-12, size)
  # the same rollout from its step function
  def from_step(x):
    model = make()
    return model_builder.trajectory_from_step(
        model.advance, c['outer'], c['inner'], start_with_input=c['start'],
        post_process_fn=lambda s: s, set_checkpoint=c['remat'])(model.encode(x))
  final, traj = call(from_step, x)
  for k in 'ab':
    ctx.close(final[k], path[-1][k], 'final state from step', 1e-12, size)
    if keep:
      ctx.close(traj[k], np.stack([s[k] for s in keep]), 'frames from step', 1e-12, size)
  if c['outer']:
    rep = call(lambda x: (lambda m: model_builder.repeated(m.advance, c['outer'])(m.encode(x)))(make()), x)
    for k in 'ab':
      ctx.close(rep[k], path[c['outer']][k], 'repeated steps', 1e-12, size)
  # decoded trajectories that include their inputs
  init = min(c['init'], c['T'])
  path = np_path(data[:, :init], c['outer'], c['inner'])
  frames_ = [path[(i + 1) * c['inner']] for i in range(c['outer'])]
  final, full = call(lambda x: model_utils.decoded_trajectory_with_inputs(make(), init)(
      x, c['outer'], c['inner']), x)
  for k in 'ab':
    ctx.close(final[k], path[-1][k], 'final state of decoded trajectory', 1e-12, size)
  ctx.eq(len(full), 2, 'decoded components')
  for i in range(2):
    dec = [(s['a'] - 1.0, s['b'] / 2.0)[i] for s in frames_]
    ref = np.concatenate([data[i][:init], np.stack(dec)] if dec else [data[i][:init]])
    ctx.close(full[i], ref, 'inputs followed by decoded frames', 1e-12, size)
  ctx.label(f"post={c['post']} start={c['start']}")
  return c['outer'] * c['inner'] > 1


@P.facet(gen.dct(d=gen.ints(1, 3), axis=gen.ints(0, 2), T=gen.ints(1, 4), split=gen.ints(0, 4),
                 f=gen.field(['noise', 'ints']), tree=gen.pick('tuple', 'array', 'dict'),
                 s=gen.floats(-2, 2), extra=gen.floats(-2, 2)), quick=120,
         rule='decorators of trajectory functions against their definitions; '
         'non-trivial = some frames kept, some dropped')
def decorators(c, ctx):
  d = c['d']
  ax = c['axis'] % d
  shape = [3] * d
  shape[ax] = c['T']
  data = [gen.arr(dict(c['f'], seed=c['f']['seed'] + i), shape) for i in range(2)]
  arrs = [jnp.asarray(a) for a in data]
  tree = {'tuple': tuple(arrs), 'array': arrs[0], 'dict': dict(p=arrs[0], q=arrs[1])}[c['tree']]
  calls = []

  def fn(x, a, b=0.0):
    calls.append((a, b))
    return jax.tree.map(lambda y: y.sum() + a, x), jax.tree.map(lambda y: c['s'] * y + b, x)

  head = lambda a: a[(slice(None),) * ax + (slice(0, c['split']),)]
  got = model_utils.with_split_input(fn, c['split'], time_axis=ax)(tree, 1.5, b=c['extra'])
  srcs = data if c['tree'] != 'array' else data[:1]
  ctx.eq(calls[-1], (1.5, c['extra']), 'other arguments')
  for a, x in zip(leaves(got[0]), srcs):
    ctx.close(a, head(x).sum() + 1.5, 'function of the first frames', 1e-12, 50.0)
  for a, x in zip(leaves(got[1]), srcs):
    ctx.close(a, c['s'] * head(x) + c['extra'], 'function of the first frames', 1e-12)
  final, both = model_utils.with_input_included(fn, time_axis=ax)(tree, 2.0, b=c['extra'])
  ctx.eq(jax.tree.structure(both), jax.tree.structure(tree), 'structure')
  for a, x in zip(leaves(both), srcs):
    ctx.close(a, np.concatenate([x, c['s'] * x + c['extra']], ax), 'inputs come first', 1e-12)
  for a, x in zip(leaves(final), srcs):
    ctx.close(a, x.sum() + 2.0, 'final state kept', 1e-12, 50.0)
  pre = model_utils.with_preprocessing(fn, lambda x: jax.tree.map(lambda y: y - 1.0, x))
  for a, x in zip(leaves(pre(tree, 0.0, b=c['extra'])[1]), srcs):
    ctx.close(a, c['s'] * (x - 1.0) + c['extra'], 'preprocessed input', 1e-12)
  after = model_utils.with_post_processing(fn, lambda f, t: dict(end=t, begin=f))
  out = after(tree, 0.5, b=c['extra'])
  for a, x in zip(leaves(out['end']), srcs):
    ctx.close(a, c['s'] * x + c['extra'], 'post-processed trajectory', 1e-12)
  for a, x in zip(leaves(out['begin']), srcs):
    ctx.close(a, x.sum() + 0.5, 'post-processed state', 1e-12, 50.0)
  ctx.label(c['tree'])
  return 0 < c['split'] < c['T']


# ---- training ---------------------------------------------------------------


@st.composite
def train_case(draw):
  return dict(B=draw(gen.ints(1, 3)), T=draw(gen.ints(1, 4)), n=draw(gen.ints(1, 4)),
              w=draw(gen.floats(-1.5, 1.5)), b=draw(gen.floats(-1, 1)),
              f=draw(gen.field(['noise', 'ints'], (1.0, 0.1))), steps=draw(gen.ints(1, 4)),
              lr=draw(gen.pick(0.1, 0.01, 0.0)), first=draw(gen.ints(0, 5)),
              count=draw(gen.ints(0, 5)), jit=draw(st.booleans()))


@P.facet(train_case(), quick=120,
         rule='losses, gradients, training histories and streamed metrics against '
         'closed formulas; non-trivial = non-zero gradient')
def training(c, ctx):
  rng = np.random.default_rng(c['f']['seed'])
  batches = [gen.arr(dict(c['f'], seed=int(rng.integers(1 << 20))), (c['B'], c['T'], c['n']))
             for _ in range(max(c['steps'], c['count']))]

  def trajectory(params, target):
    x = target[0][:, :1]
    t = jnp.arange(c['T']).reshape(1, -1, 1)
    traj = (x * (1 + params['w'] * t) + params['b'],)
    return x, traj

  def loss(pred, target):
    return jnp.mean((pred[0] - target[0]) ** 2) + 0.5 * jnp.mean(pred[0])

  def np_grad(p, x):
    t = np.arange(c['T']).reshape(1, -1, 1)
    pred = x[:, :1] * (1 + p['w'] * t) + p['b']
    g = (2 * (pred - x) + 0.5) / x.size
    val = np.mean((pred - x) ** 2) + 0.5 * np.mean(pred)
    return val, dict(w=np.sum(g * x[:, :1] * t), b=np.sum(g)), pred

  fn = train_utils.loss_and_gradient(trajectory, loss)
  p0 = dict(w=c['w'], b=c['b'])
  jp = jax.tree.map(jnp.asarray, p0)
  val, grad = fn(jp, (jnp.asarray(batches[0]),))
  rv, rg, pred = np_grad(p0, batches[0]) if batches else (0, 0, 0)
  size = 100.0
  ctx.close(val, rv, 'loss', 1e-12, size)
  ctx.eq(sorted(grad), ['b', 'w'], 'structure of gradient')
  for k in 'wb':
    ctx.close(grad[k], rg[k], 'gradient', 1e-12, size)
  # a history of training steps
  seen = []

  def update(step, g, state):
    seen.append(step)
    return dict(params=jax.tree.map(lambda a, b: a - c['lr'] * b / (1 + step),
                                    state['params'], g),
                count=state['count'] + 1)
  step_fn = train_utils.train_step(fn, update, lambda s: s['params'])
  if c['jit']:
    step_fn = jax.jit(step_fn)
  state = (c['first'], dict(params=jp, count=0))
  ref = dict(p0)
  for i in range(c['steps']):
    before = jax.tree.map(np.array, state)
    out, got = step_fn(state, (jnp.asarray(batches[i]),))
    for a, b in zip(leaves(before), leaves(state)):
      ctx.close(a, b, 'old optimizer state is not modified', 0.0)
    state = out
    v, g, _ = np_grad(ref, batches[i])
    ctx.close(got, v, 'loss before the update', 1e-11, size)
    ref = {k: ref[k] - c['lr'] * g[k] / (1 + c['first'] + i) for k in ref}
    ctx.close(state[0], c['first'] + i + 1, 'step number', 0.0)
    ctx.close(state[1]['count'], i + 1, 'one update per step', 0.0)
    for k in 'wb':
      ctx.close(state[1]['params'][k], ref[k], 'updated parameters', 1e-11, size)
  # evaluation
  metrics = dict(mse=lambda p, t: jnp.mean((p[0] - t[0]) ** 2), first=lambda p, t: p[0][0, 0, 0],
                 last=lambda p, t: t[0][-1, -1, -1])
  evaluate = train_utils.eval_batch(trajectory, metrics)
  single = []
  for x in batches[:c['count']]:
    out = evaluate(jp, (jnp.asarray(x),))
    _, _, pred = np_grad(p0, x)
    want = dict(mse=np.mean((pred - x) ** 2), first=pred[0, 0, 0], last=x[-1, -1, -1])
    ctx.eq(sorted(out), sorted(want), 'metric names')
    for k in want:
      ctx.close(out[k], want[k], f'metric {k}', 1e-12, size)
    single.append(want)
  stream = ((jnp.asarray(x),) for x in batches[:c['count']])
  ev = functools.partial(evaluate, jp)
  if not c['count']:
    ctx.raises(RuntimeError, lambda: train_utils.streaming_mean(stream, ev), 'no batches')
  else:
    mean = train_utils.streaming_mean(stream, ev)
    ctx.eq(sorted(mean), sorted(metrics), 'streamed names')
    for k in metrics:
      ctx.close(mean[k], np.mean([s[k] for s in single]), 'mean over batches', 1e-12, size)
  ctx.label(f"count={c['count']}")
  return bool(abs(rg['w']) + abs(rg['b']) > 0)


@P.facet(gen.dct(B=gen.ints(1, 3), T=gen.ints(1, 3), n=gen.pick([1], [6], [3, 4]), m=gen.ints(1, 3),
                 scale=gen.pick(0.01, 1.0, 0.0, 5.0), key=gen.seeds(), default=st.booleans(),
                 tree=gen.pick('tuple', 'dict'), f=gen.field(['noise', 'const', 'ints']),
                 count=gen.ints(1, 3)), quick=50,
         rule='noise touches only the first frame, is bounded, reproducible, and '
         'independent between members; non-trivial = some noise, several frames')
def noise(c, ctx):
  shape = [c['B'], c['T']] + c['n']
  data = [gen.arr(dict(c['f'], seed=c['f']['seed'] + i), shape) for i in range(c['m'])]
  arrs = [jnp.asarray(a) for a in data]
  tree = tuple(arrs) if c['tree'] == 'tuple' else {f'k{i}': a for i, a in enumerate(arrs)}
  key = jax.random.PRNGKey(c['key'])
  kw = {} if c['default'] else dict(scale=c['scale'])
  scale = 1e-2 if c['default'] else c['scale']
  out = train_utils.add_noise_to_input_frame(tree, key, **kw)
  ctx.eq(jax.tree.structure(out), jax.tree.structure(tree), 'structure')
  added = []
  for a, x in zip(leaves(out), data):
    ctx.eq(a.shape, x.shape, 'shape')
    ctx.close(a[:, 1:], x[:, 1:], 'later frames are kept', 0.0)
    z = a[:, 0] - x[:, 0]
    ctx.le(np.abs(z).max(), 2 * scale, 'noise within two scales', 1e-12 * (1 + np.abs(x).max()))
    added.append(z)
  for a, x in zip(leaves(tree), data):
    ctx.close(a, x, 'input is not modified', 0.0)
  for a, b in zip(leaves(out), leaves(train_utils.add_noise_to_input_frame(
      tree, key, unused=1, **kw))):
    ctx.close(a, b, 'same key, same noise', 0.0)
  allz = np.concatenate([z.ravel() for z in added])
  if scale:
    ctx.true(np.all(np.abs(allz) > 0) or allz.size > 50, 'noise everywhere')
    vals = np.round(allz / scale, 9)
    ctx.eq(len(np.unique(vals)), vals.size, 'independent draws')
    other = train_utils.add_noise_to_input_frame(tree, jax.random.PRNGKey(c['key'] + 1), **kw)
    ctx.true(any(np.any(a != b) for a, b in zip(leaves(out), leaves(other))),
             'other key, other noise')
  same = train_utils.identity(tree, key)
  for a, x in zip(leaves(same), data):
    ctx.close(a, x, 'identity', 0.0)
  # a stream of batches
  keys = [jax.random.PRNGKey(c['key'] + i) for i in range(c['count'])]
  items = [jax.tree.map(lambda a: a + i, tree) for i in range(c['count'])]
  stream = train_utils.preprocess(iter(items), iter(keys), functools.partial(
      train_utils.add_noise_to_input_frame, **kw))
  for i, got in enumerate(itertools.islice(stream, c['count'])):
    want = train_utils.add_noise_to_input_frame(items[i], keys[i], **kw)
    for a, b in zip(leaves(got), leaves(want)):
      ctx.close(a, b, 'preprocessed stream in order', 1e-12, 10.0 + np.abs(b).max())
  ctx.label(c['tree'])
  return scale > 0 and c['T'] > 1
