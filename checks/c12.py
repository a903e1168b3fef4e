"""C12: Runge-Kutta integrators and trajectories."""
import math

import hypothesis.strategies as st
import jax
import jax.numpy as jnp
import numpy as np

from harness import core, gen
from jax_cfd.base import funcutils
from jax_cfd.base import time_stepping as ts

P = core.Property('C12')
NAMED = {  # tableau and order, stated independently
    'forward_euler': ([], [1.0], 1),
    'midpoint_rk2': ([[0.5]], [0.0, 1.0], 2),
    'heun_rk2': ([[1.0]], [0.5, 0.5], 2),
    'classic_rk4': ([[0.5], [0.0, 0.5], [0.0, 0.0, 1.0]],
                    [1 / 6, 1 / 3, 1 / 3, 1 / 6], 4),
}
COEF = (0.0, 0.0, 0.5, 1.0, -0.75, 0.3)


@st.composite
def tableau(draw):
  s = draw(gen.ints(1, 5))
  a = [[draw(gen.pick(*COEF)) for _ in range(i)] for i in range(1, s)]
  b = [draw(gen.pick(*COEF)) for _ in range(s)]
  return dict(a=a, b=b)


@st.composite
def ode_case(draw):
  name = draw(gen.pick('custom', 'custom', *sorted(NAMED)))
  t = draw(tableau())
  return dict(name=name, **t, n=draw(gen.pick(1, 3, 4)), seed=draw(gen.seeds()),
              dt=draw(gen.pick(0.1, 0.5, 1e-3, -0.2)),
              nest=draw(gen.pick('array', 'tuple', 'dict', 'nested')),
              f=draw(gen.pick('linear', 'quadratic', 'sine')),
              steps=draw(gen.pick(1, 1, 3)))


def pack(a, b, nest):
  if nest == 'array':
    return jnp.concatenate([a, b])
  if nest == 'tuple':
    return (a, b)
  if nest == 'dict':
    return {'z': a, 'a': b}
  return {'v': (a, [b]), 'n': ()}


def unpack(s, nest, n):
  if nest == 'array':
    return s[:n], s[n:]
  if nest == 'tuple':
    return s
  if nest == 'dict':
    return s['z'], s['a']
  return s['v'][0], s['v'][1][0]


def field_fns(c):
  rng = np.random.default_rng(c['seed'])
  n = c['n']
  m = rng.standard_normal((2 * n, 2 * n)) / n
  q = rng.standard_normal((2 * n, 2 * n)) / n
  basis = np.linalg.qr(rng.standard_normal((2 * n, max(1, n))))[0]
  proj = np.eye(2 * n) - basis @ basis.T

  def f(x, xp):
    y = m @ x
    if c['f'] == 'quadratic':
      y = y + (q @ x) * x
    elif c['f'] == 'sine':
      y = y + xp.sin(q @ x) + 0.3
    return y

  return f, proj, rng.standard_normal(2 * n)


def np_rk(a, b, f, proj, u, dt):
  ks = [f(u)]
  for row in a:
    ks.append(f(proj @ (u + dt * sum(w * k for w, k in zip(row, ks)))))
  return proj @ (u + dt * sum(w * k for w, k in zip(b, ks)))


@P.facet(ode_case(), quick=120, shards=2,
         rule='named and random Runge-Kutta tableaus on nested states with a '
         'projection vs numpy; non-trivial = more than one stage')
def runge_kutta(c, ctx):
  f, proj, u = field_fns(c)
  n = c['n']
  split = lambda x: pack(x[:n], x[n:], c['nest'])
  join = lambda s: jnp.concatenate(unpack(s, c['nest'], n))
  ode = ts.ExplicitNavierStokesODE(lambda s: split(f(join(s), jnp)),
                                   lambda s: split(proj @ join(s)))
  if c['name'] == 'custom':
    a, b = c['a'], c['b']
    step = ts.navier_stokes_rk(ts.ButcherTableau(a=a, b=b), ode, c['dt'])
  else:
    a, b, _ = NAMED[c['name']]
    step = getattr(ts, c['name'])(ode, c['dt'])
  ctx.label(c['name'])
  s, want = split(jnp.asarray(u)), u
  for _ in range(c['steps']):
    s = step(s)
    want = np_rk(a, b, lambda x: f(x, np), proj, want, c['dt'])
  ctx.true(jax.tree.structure(s) == jax.tree.structure(split(jnp.asarray(u))),
           'state structure')
  ctx.close(join(s), want, f'{c["name"]} step', 1e-10, 1 + np.abs(want).max()
            + np.abs(u).max())
  return len(b) > 1


@P.facet(gen.dct(name=gen.pick(*sorted(NAMED)), coef=st.lists(
    gen.floats(-3, 3), min_size=4, max_size=4), t0=gen.floats(-2, 2),
                 dt=gen.pick(0.1, 1.0, 2.5), lam=gen.floats(-3, 3)),
         quick=120, rule='order: quadrature exactness and stability polynomial; '
         'non-trivial = order above 1')
def order(c, ctx):
  _, _, p = NAMED[c['name']]
  coef = c['coef'][:p]
  # state (t, y) with t' = 1 and y' = polynomial of degree p - 1 in t
  ode = ts.ExplicitNavierStokesODE(
      lambda s: (jnp.ones_like(s[0]), sum(k * s[0] ** i for i, k in enumerate(coef))
                 + 0 * s[0]), lambda s: s)
  step = getattr(ts, c['name'])(ode, c['dt'])
  t, y = step((jnp.asarray(c['t0']), jnp.asarray(0.25)))
  t1 = c['t0'] + c['dt']
  want = 0.25 + sum(k * (t1 ** (i + 1) - c['t0'] ** (i + 1)) / (i + 1)
                    for i, k in enumerate(coef))
  ctx.close(t, np.array(t1), 'time', 1e-12, 1 + abs(t1))
  ctx.close(y, np.array(want), f'{c["name"]} quadrature', 1e-11,
            1 + 4 * sum(abs(k) * 5 ** i for i, k in enumerate(coef)))
  ode = ts.ExplicitNavierStokesODE(lambda x: c['lam'] * x, lambda s: s)
  got = getattr(ts, c['name'])(ode, c['dt'])(jnp.asarray(1.0))
  z = c['lam'] * c['dt']
  ctx.close(got, np.array(sum(z ** k / math.factorial(k) for k in range(p + 1))),
            f'{c["name"]} stability polynomial', 1e-11, 1 + abs(z) ** p)
  return p > 1


@P.facet(gen.dct(t=tableau(), extra=gen.ints(1, 3), drop=st.booleans()), quick=30,
         rule='inconsistent tableaus are refused; all non-trivial')
def bad_tableau(c, ctx):
  a, b = c['t']['a'], c['t']['b']
  if c['drop'] and len(b) > 1:
    b = b[:-1]
  else:
    b = b + [0.5] * c['extra']
  ctx.raises(ValueError, lambda: ts.ButcherTableau(a=a, b=b), 'tableau')
  return True


@st.composite
def traj_case(draw):
  return dict(outer=draw(gen.ints(0, 6)), inner=draw(gen.ints(0, 4)),
              cut=draw(gen.ints(0, 6)), start=draw(st.booleans()),
              post=draw(gen.pick(None, 'sum', 'pair')), seed=draw(gen.seeds()),
              n=draw(gen.pick(2, 3)))


def step_numpy(s):
  x, k, (f,) = s['x'], s['k'], s['t']
  return {'x': np.sin(1.3 * x) + 0.1 * f, 'k': k + 1, 't': (f * x[0] + k,)}


def step_jax(s):
  x, k, (f,) = s['x'], s['k'], s['t']
  return {'x': jnp.sin(1.3 * x) + 0.1 * f, 'k': k + 1, 't': (f * x[0] + k,)}


@P.facet(traj_case(), quick=150, shards=2,
         rule='repeated steps and trajectories vs a Python loop, with inner steps, '
         'initial frame, post-processing and cutting in pieces; non-trivial = at '
         'least two frames')
def trajectories(c, ctx):
  rng = np.random.default_rng(c['seed'])
  s0 = {'x': rng.standard_normal(c['n']), 'k': np.array(0),
        't': (np.array(0.5),)}
  j0 = jax.tree.map(jnp.asarray, s0)
  same = lambda a, b, msg: [
      ctx.close(p, q, msg, 1e-9, 1 + np.abs(np.asarray(q)).max(initial=0))
      for p, q in zip(jax.tree.leaves(a), jax.tree.leaves(b), strict=True)]
  inner = funcutils.repeated(step_jax, c['inner'])
  s, frames = s0, []
  post = {None: lambda v: v, 'sum': lambda v: v['x'].sum() + v['k'],
          'pair': lambda v: (v['t'], 2 * v['x'])}[c['post']]
  for _ in range(c['outer']):
    if c['start']:
      frames.append(post(s))
    for _ in range(c['inner']):
      s = step_numpy(s)
    if not c['start']:
      frames.append(post(s))
  kw = {} if c['post'] is None else dict(post_process=post)
  if c['start']:
    kw['start_with_input'] = True
  run = lambda n: funcutils.trajectory(inner, n, **kw)
  final, traj = run(c['outer'])(j0)
  same(final, s, 'final state')
  if frames:
    want = jax.tree.map(lambda *xs: np.stack(xs), *frames)
    ctx.true(jax.tree.structure(traj) == jax.tree.structure(want), 'frames')
    same(traj, want, 'frames')
  else:
    ctx.true(all(x.shape[0] == 0 for x in jax.tree.leaves(traj)), 'no frames')
  same(funcutils.repeated(inner, c['outer'])(j0), s, 'repeated')
  # in pieces
  k = min(c['cut'], c['outer'])
  mid, first = run(k)(j0)
  end, second = run(c['outer'] - k)(mid)
  same(end, s, 'final state in pieces')
  both = jax.tree.map(lambda a, b: np.concatenate([a, b]), first, second)
  same(both, traj, 'frames in pieces')
  return c['outer'] > 1


@P.facet(traj_case(), quick=40,
         rule='scan with inputs and the initialization context; non-trivial = at '
         'least one element')
def scanning(c, ctx):
  rng = np.random.default_rng(c['seed'])
  n = c['outer'] + 1
  xs = {'a': rng.standard_normal((n, 2)), 'b': np.arange(n) * 1.0}
  calls = []

  def f(carry, x):
    calls.append(1)
    return carry * 0.5 + x['a'].sum() + x['b'], (carry, x['a'] * 2)

  carry, ys = jnp.asarray(1.0), None
  want_c, want_y = 1.0, []
  for i in range(n):
    want_y.append((want_c, xs['a'][i] * 2))
    want_c = want_c * 0.5 + xs['a'][i].sum() + xs['b'][i]
  jxs = jax.tree.map(jnp.asarray, xs)
  got_c, got_y = funcutils.scan(f, carry, jxs)
  ctx.close(got_c, np.array(want_c), 'carry')
  ctx.close(got_y[0], np.array([y[0] for y in want_y]), 'outputs')
  ctx.close(got_y[1], np.array([y[1] for y in want_y]), 'outputs')
  calls.clear()
  with funcutils.init_context():
    with funcutils.init_context():
      pass
    got_c, got_y = funcutils.scan(f, carry, jxs)
    ctx.eq(len(calls), 1, 'calls while initializing')
    ctx.eq(got_y[1].shape, (n, 2), 'output shape while initializing')
    ctx.close(got_y[0], np.ones(n), 'outputs while initializing')
  got_c, _ = funcutils.scan(f, carry, jxs)
  ctx.close(got_c, np.array(want_c), 'carry after initializing')
  try:
    with funcutils.init_context():
      raise KeyError('interrupted')
  except KeyError:
    pass
  got_c, _ = funcutils.scan(f, carry, jxs)
  ctx.close(got_c, np.array(want_c), 'carry after an interrupted initialization')
  return True
