"""C21: implicit-explicit time steppers."""
import functools

import hypothesis.strategies as st
import jax
import jax.numpy as jnp
import numpy as np

from harness import core, gen
from jax_cfd.spectral import time_stepping as ts
from jax_cfd.spectral import utils

P = core.Property('C21')

RK3 = ([0, 1 / 3, 3 / 4, 1], [0, -5 / 9, -153 / 128], [1 / 3, 15 / 16, 8 / 15])
RK4 = ([0, 0.1496590219993, 0.3704009573644, 0.6222557631345, 0.9582821306748, 1],
       [0, -0.4178904745, -1.192151694643, -1.697784692471, -1.514183444257],
       [0.1496590219993, 0.3792103129999, 0.8229550293869, 0.6994504559488,
        0.1530572479681])
SIL3 = ([[1 / 3], [1 / 6, 1 / 2], [1 / 2, -1 / 2, 1]],
        [[1 / 6, 1 / 6], [1 / 3, 0, 1 / 3], [3 / 8, 0, 3 / 8, 1 / 4]],
        [1 / 2, -1 / 2, 1, 0], [3 / 8, 0, 3 / 8, 1 / 4])

STEPPERS = {
    'euler': ts.backward_forward_euler,
    'rk2': ts.crank_nicolson_rk2,
    'rk3': ts.crank_nicolson_rk3,
    'rk4': ts.crank_nicolson_rk4,
    'sil3': ts.imex_rk_sil3,
}
NAMES = tuple(STEPPERS)
# (order of the whole scheme, order of its explicit part)
ORDERS = {'euler': (1, 1), 'rk2': (2, 2), 'rk3': (2, 3), 'rk4': (2, 4), 'sil3': (2, 3)}


# Schemes written from their publications, for plain arrays.


def ref_low(F, G, S, u, dt, coef):
  a, b, g = coef
  h = 0 * u
  for k in range(len(b)):
    h = F(u) + b[k] * h
    half = dt * (a[k + 1] - a[k]) / 2
    u = S(u + g[k] * dt * h + half * G(u), half)
  return u


def ref_imex(F, G, S, u, dt, coef):
  ax, ai, bx, bi = coef
  n = len(bx)
  fs, gs = [F(u)], [G(u)]
  for i in range(1, n):
    star = u + dt * sum(ax[i - 1][j] * fs[j] + ai[i - 1][j] * gs[j] for j in range(i))
    y = S(star, dt * ai[i - 1][i])
    fs.append(F(y))
    gs.append(G(y))
  return u + dt * sum(bx[j] * fs[j] + bi[j] * gs[j] for j in range(n))


def ref_euler(F, G, S, u, dt):
  return S(u + dt * F(u), dt)


def ref_rk2(F, G, S, u, dt):
  base = u + dt / 2 * G(u)
  k1 = F(u)
  mid = S(base + dt * k1, dt / 2)
  return S(base + dt * (k1 + F(mid)) / 2, dt / 2)


REFS = {'euler': ref_euler, 'rk2': ref_rk2,
        'rk3': functools.partial(ref_low, coef=RK3),
        'rk4': functools.partial(ref_low, coef=RK4),
        'sil3': functools.partial(ref_imex, coef=SIL3)}


class Split(ts.ImplicitExplicitODE):
  """u' = F(u) + (B u + b), with F from a small family."""

  def __init__(self, c, xp):
    rng = np.random.default_rng(c['seed'])
    d = c['d']
    r = lambda *s: (rng.standard_normal(s) + 1j * rng.standard_normal(s)
                    if c.get('complex') else rng.standard_normal(s)) / np.sqrt(d)
    self.A, self.B, self.a, self.b = r(d, d), r(d, d), r(d), r(d)
    self.u0 = r(d)
    self.C = r(d, d)
    # keep the implicit solve well conditioned for every positive step
    self.B = self.B - 2.5 * np.eye(d)
    if c.get('ex') == 'zero':
      self.A, self.a, self.C = 0 * self.A, 0 * self.a, 0 * self.C
    if c.get('ex') == 'linear':
      self.C = 0 * self.C
    if c.get('im') == 'zero':
      self.B, self.b = 0 * self.B, 0 * self.b
    if c.get('im') == 'stiff':
      self.B = self.B * 1e4
    self.xp = xp

  def explicit_terms(self, u):
    xp = self.xp
    return (xp.dot(xp.asarray(self.A), u) + self.a + xp.dot(xp.asarray(self.C), u) ** 2
            - 0.3 * xp.dot(xp.asarray(self.C), u) ** 3)

  def implicit_terms(self, u):
    xp = self.xp
    return xp.dot(xp.asarray(self.B), u) + self.b

  def implicit_solve(self, u, step_size):
    xp = self.xp
    m = xp.eye(len(self.u0)) - step_size * xp.asarray(self.B)
    return xp.linalg.solve(m, u + step_size * self.b)


def parts(eq):
  return eq.explicit_terms, eq.implicit_terms, eq.implicit_solve


@st.composite
def split_case(draw):
  return dict(which=draw(gen.pick(*NAMES)), d=draw(gen.ints(1, 3)), seed=draw(gen.seeds()),
              complex=draw(st.booleans()), ex=draw(gen.pick('full', 'full', 'linear', 'zero')),
              im=draw(gen.pick('full', 'full', 'zero', 'stiff')),
              dt=draw(gen.pick(0.0, 1e-3, 0.05, 0.3, 1.0)), steps=draw(gen.ints(1, 4)))


@P.facet(split_case(), quick=120,
         rule='every stepper equals its published scheme on random split systems, '
         'over several steps; non-trivial = state moved')
def schemes(c, ctx):
  eq, ref = Split(c, jnp), Split(c, np)
  step = STEPPERS[c['which']](eq, c['dt'])
  u, w = jnp.asarray(eq.u0), ref.u0
  for i in range(c['steps']):
    u = step(u)
    w = REFS[c['which']](*parts(ref), w, c['dt'])
    size = np.abs(w).max() + 1
    if not np.isfinite(size) or size > 1e3:
      raise core.Discard
    ctx.close(u, w, f'step {i + 1}', 1e-8, size)
  if c['ex'] == 'zero' and c['which'] == 'euler':
    back = core.to_np(u) - c['dt'] * core.to_np(eq.implicit_terms(u))
    if c['steps'] == 1:
      ctx.close(back, eq.u0, 'backward Euler', 1e-8, size * (1 + np.abs(eq.B).max()))
  ctx.label(c['which'])
  return bool(np.abs(w - ref.u0).max() > 1e-9)


@st.composite
def table_case(draw):
  s = draw(gen.ints(1, 4))
  coef = gen.pick(0.0, 1.0, 0.5, -0.5, 1 / 3, 0.25, -1.0, 0.7)
  row = lambda n: [draw(coef) for _ in range(n)]
  return dict(kind=draw(gen.pick('low', 'imex')), alphas=row(s + 1), betas=row(s),
              gammas=row(s), ax=[row(i + 1) for i in range(s - 1)],
              ai=[row(i + 1) + [abs(draw(coef))] for i in range(s - 1)],
              bx=row(s), bi=row(s), d=draw(gen.ints(1, 2)), seed=draw(gen.seeds()),
              complex=False, ex='full', im='full', dt=draw(gen.pick(0.01, 0.1)),
              tuples=draw(st.booleans()), sorted=draw(st.booleans()))


@P.facet(table_case(), quick=120,
         rule='arbitrary coefficient tables with zeros in every place; non-trivial = '
         'two stages or more')
def tables(c, ctx):
  eq, ref = Split(c, jnp), Split(c, np)
  conv = (lambda x: tuple(tuple(r) if isinstance(r, list) else r for r in x)) if (
      c['tuples']) else (lambda x: x)
  if c['kind'] == 'low':
    alphas = sorted(c['alphas']) if c['sorted'] else c['alphas']
    coef = alphas, c['betas'], c['gammas']
    step = ts.low_storage_runge_kutta_crank_nicolson(*map(conv, coef), eq, c['dt'])
    want = ref_low(*parts(ref), ref.u0, c['dt'], coef)
  else:
    coef = c['ax'], c['ai'], c['bx'], c['bi']
    step = ts.imex_runge_kutta(ts.ImExButcherTableau(*map(conv, coef)), eq, c['dt'])
    want = ref_imex(*parts(ref), ref.u0, c['dt'], coef)
  got = step(jnp.asarray(eq.u0))
  ctx.close(got, want, 'step of the table', 1e-10, np.abs(want).max() + 1)
  ctx.label(c['kind'])
  return len(c['betas']) > 1


@st.composite
def bad_case(draw):
  s = draw(gen.ints(1, 4))
  kind = draw(gen.pick('low', 'imex'))
  sizes = [s + 1, s, s] if kind == 'low' else [s - 1, s - 1, s, s]
  which = draw(gen.ints(0, len(sizes) - 1))
  delta = draw(gen.pick(-1, 1, 2))
  return dict(kind=kind, sizes=sizes, which=which, delta=delta)


@P.facet(bad_case(), quick=80,
         rule='coefficient tables whose lengths do not match are rejected; '
         'non-trivial = lengths differ')
def malformed(c, ctx):
  sizes = list(c['sizes'])
  sizes[c['which']] = max(sizes[c['which']] + c['delta'], 0)
  eq = Split(dict(d=1, seed=0), jnp)
  if c['kind'] == 'low':
    vals = [[0.1 * (i + 1) for i in range(n)] for n in sizes]
    make = lambda: ts.low_storage_runge_kutta_crank_nicolson(*vals, eq, 0.1)
  else:
    rows = [[[0.1] * (i + 1) for i in range(sizes[0])],
            [[0.1] * (i + 2) for i in range(sizes[1])]]
    make = lambda: ts.ImExButcherTableau(*rows, *[[0.1] * n for n in sizes[2:]])
  if sizes == c['sizes']:
    make()
    return False
  ctx.raises(ValueError, make, f'lengths {sizes}')
  return True


def derivatives(fn, order):
  """fn(0), fn'(0), ..., for a function of one number."""
  out, f = [], fn
  for _ in range(order + 1):
    out.append(f)
    f = jax.jacfwd(f)
  return [core.to_np(g(0.0)) for g in out]


@P.facet(gen.dct(which=gen.pick(*NAMES), d=gen.ints(1, 2), seed=gen.seeds(),
                 ex=gen.pick('full', 'full', 'linear', 'zero'),
                 im=gen.pick('full', 'full', 'zero')), quick=30,
         rule='derivatives of a step with respect to its size agree with those of '
         'the exact flow up to the order of the scheme; all non-trivial')
def order(c, ctx):
  eq = Split(c, jnp)
  p = ORDERS[c['which']][1 if c['im'] == 'zero' else 0]
  if c['which'] == 'sil3' and c['ex'] == 'full':
    p = 2  # the published tableau is third order for linear terms only
  u0 = jnp.asarray(eq.u0)
  got = derivatives(lambda dt: STEPPERS[c['which']](eq, dt)(u0), p)
  rhs = lambda u: eq.explicit_terms(u) + eq.implicit_terms(u)
  # total derivatives along the flow
  want, f = [u0], rhs
  for _ in range(p):
    want.append(f(u0))
    f = (lambda g: lambda u: jax.jvp(g, (u,), (rhs(u),))[1])(f)
  for k in range(p + 1):
    size = max(np.abs(core.to_np(w)).max() for w in want[:k + 1]) + 1
    ctx.close(got[k], want[k], f'derivative {k} of {p}', 1e-9, size)
  ctx.label(f'{c["which"]}/{p}')
  return True


@P.facet(gen.dct(which=gen.pick(*NAMES), seed=gen.seeds(), d=gen.ints(1, 3),
                 dt=gen.pick(0.01, 0.5, 10.0)), quick=40,
         rule='steady states stay put for every step size; all non-trivial')
def steady(c, ctx):
  rng = np.random.default_rng(c['seed'])
  eq = Split(dict(c, ex='linear'), jnp)
  # choose the constant so that u0 is an equilibrium of the whole
  r = core.to_np(eq.explicit_terms(jnp.asarray(eq.u0))
                 + eq.implicit_terms(jnp.asarray(eq.u0)))
  eq.a = eq.a - r
  u = jnp.asarray(eq.u0)
  scale = (1 + np.abs(eq.A).max() + np.abs(eq.B).max()) * (1 + c['dt']) * (
      1 + np.abs(eq.u0).max()) * 100
  for s in (1, 2):
    u = STEPPERS[c['which']](eq, c['dt'])(u)
    ctx.close(u, eq.u0, f'after step {s}', 1e-11, scale * (1 + c['dt']) ** 6)
  del rng
  return True


@st.composite
def decay_case(draw):
  return dict(which=draw(gen.pick(*NAMES)), dt=draw(gen.pick(1e-3, 0.1, 1.0)),
              rates=[draw(gen.pick(0.0, 0.01, 1.0, 17.3, 1e3, 1e6, 1e9))
                     for _ in range(4)],
              freq=[draw(gen.pick(0.0, 0.0, 1.0, -30.0, 1e5)) for _ in range(4)],
              steps=draw(gen.ints(1, 8)), seed=draw(gen.seeds()))


class Decay(ts.ImplicitExplicitODE):
  """Independent modes, all of them implicit."""

  def __init__(self, lam):
    self.lam = jnp.asarray(lam)

  def explicit_terms(self, u):
    return 0 * u

  def implicit_terms(self, u):
    return self.lam * u

  def implicit_solve(self, u, step_size):
    return u / (1 - step_size * self.lam)


@P.facet(decay_case(), quick=80,
         rule='modes that decay never grow, however stiff, in any number of steps; '
         'non-trivial = a rate beyond the explicit limit')
def stiff(c, ctx):
  imag = c['which'] != 'sil3'
  lam = np.array([-r + 1j * f * imag for r, f in zip(c['rates'], c['freq'])])
  rng = np.random.default_rng(c['seed'])
  u0 = rng.standard_normal(4) + 1j * rng.standard_normal(4)
  u = jnp.asarray(u0)
  step = STEPPERS[c['which']](Decay(lam), c['dt'])
  prev = np.abs(u0)
  for _ in range(c['steps']):
    u = step(u)
    now = np.abs(core.to_np(u))
    ctx.finite(now, 'state')
    ctx.le(now, prev * (1 + 1e-6) + 1e-13, 'size of a decaying mode', 0.0)
    prev = now
  ctx.label(c['which'])
  return bool((np.array(c['rates']) * c['dt'] > 4).any())


class Tree(ts.ImplicitExplicitODE):
  """A nested state whose leaves interact."""

  def __init__(self, k):
    self.k = k

  def explicit_terms(self, s):
    return {'a': jnp.sin(s['b'][0]), 'b': (s['a'] * s['b'][0], 1.0)}

  def implicit_terms(self, s):
    return {'a': -self.k * s['a'], 'b': (-2 * self.k * s['b'][0], 0.0)}

  def implicit_solve(self, s, dt):
    return {'a': s['a'] / (1 + dt * self.k),
            'b': (s['b'][0] / (1 + 2 * dt * self.k), s['b'][1])}


@P.facet(gen.dct(which=gen.pick(*NAMES), seed=gen.seeds(), k=gen.pick(0.0, 1.0, 50.0),
                 dt=gen.pick(0.01, 0.2), n=gen.ints(1, 3), steps=gen.ints(1, 3)), quick=40,
         rule='nested states behave as the flat state made of their leaves; time '
         'carried in the state advances by the step; all non-trivial')
def nested(c, ctx):
  rng = np.random.default_rng(c['seed'])
  n, k = c['n'], c['k']
  a, b = rng.standard_normal((2, n))
  s = {'a': jnp.asarray(a), 'b': (jnp.asarray(b), 0.25)}
  F = lambda u: np.concatenate([np.sin(u[n:2 * n]), u[:n] * u[n:2 * n], [1.0]])
  d = np.concatenate([np.full(n, k), np.full(n, 2 * k), [0.0]])
  w = np.concatenate([a, b, [0.25]])
  step = STEPPERS[c['which']](Tree(k), c['dt'])
  for i in range(c['steps']):
    s = step(s)
    w = REFS[c['which']](F, lambda u: -d * u, lambda u, h: u / (1 + h * d), w, c['dt'])
    ctx.eq(sorted(s), ['a', 'b'], 'structure')
    got = np.concatenate([core.to_np(s['a']), core.to_np(s['b'][0]), [float(s['b'][1])]])
    ctx.close(got, w, f'step {i + 1}', 1e-10, np.abs(w).max() + 1)
  ctx.close(float(s['b'][1]), 0.25 + c['steps'] * c['dt'], 'time', 1e-8)
  return True


@P.facet(gen.dct(which=gen.pick(*NAMES), seed=gen.seeds(), steps=gen.ints(1, 4)), quick=30,
         rule='filtered steppers apply the mask to the result of every step; all '
         'non-trivial')
def filtered(c, ctx):
  cc = dict(d=3, seed=c['seed'], complex=False, ex='full', im='full')
  eq, ref = Split(cc, jnp), Split(cc, np)
  mask = np.random.default_rng(c['seed'] + 1).uniform(0, 1, 3)
  step = utils.filter_step(STEPPERS[c['which']](eq, 0.05), jnp.asarray(mask))
  u, w = jnp.asarray(eq.u0), ref.u0
  for _ in range(c['steps']):
    u = step(u)
    w = mask * REFS[c['which']](*parts(ref), w, 0.05)
  ctx.close(u, w, 'filtered steps', 1e-10, np.abs(w).max() + 1)
  return True
