"""C28: the same results in every execution mode, and sound derivatives."""
import functools
import importlib

import hypothesis.strategies as st
import jax
import jax.numpy as jnp
import numpy as np

from checks import c06
from harness import core, gen
from jax_cfd import collocated
from jax_cfd import spectral
from jax_cfd.base import advection as adv
from jax_cfd.base import boundaries
from jax_cfd.base import diffusion
from jax_cfd.base import equations
from jax_cfd.base import finite_differences as fd
from jax_cfd.base import forcings
from jax_cfd.base import funcutils
from jax_cfd.base import grids
from jax_cfd.base import interpolation
from jax_cfd.base import pressure
from jax_cfd.base import resize
from jax_cfd.base import subgrid_models
from jax_cfd.base import time_stepping

P = core.Property('C28')
POOL = {2: [(4, 3)], 3: [(3, 4, 2)]}
STEPS = (1.0, 0.7, 1.3)


# ---- programs: name -> (function of a pytree, example input) -----------------


def velocity(c, g):
  d = g.ndim
  bc = gen.periodic_bc(d)
  return tuple(gen.gvar(a, gen.face_offset(d, i), g, bc)
               for i, a in enumerate(fields(c, g, d)))


def fields(c, g, count):
  """Arrays of the kind of state asked for: noisy, flat or at rest."""
  rng = np.random.default_rng(c['seed'])
  out = []
  for i in range(count):
    if c['state'] == 'noise':
      a = rng.standard_normal(g.shape)
    elif c['state'] == 'flat':
      a = np.full(g.shape, [1.0, -0.5, 0.25, 2.0][i % 4])
    elif c['state'] == 'line':  # varies along one axis only
      ax = c['seed'] % g.ndim
      a = rng.standard_normal(g.shape[ax]).reshape(
          [-1 if k == ax else 1 for k in range(g.ndim)]) * np.ones(g.shape)
    else:
      a = np.zeros(g.shape)
    out.append(a)
  return out


def cg(c):
  if c.get('single'):
    return dict(rtol=1e-5, atol=1e-6, maxiter=100)
  return dict(rtol=1e-12, atol=1e-13, maxiter=200)


def step_fn(kind, c, g):
  kw = dict(density=c['rho'], viscosity=c['nu'], dt=c['dt'], grid=g)
  if c['force']:
    kw['forcing'] = forcings.simple_turbulence_forcing(
        g, constant_magnitude=0.5, constant_wavenumber=1, linear_coefficient=-0.2,
        forcing_type='kolmogorov') if g.ndim == 2 else forcings.linear_forcing(g, -0.3)
  if kind == 'explicit':
    return equations.semi_implicit_navier_stokes(**kw)
  if kind in ('linear', 'upwind', 'van_leer'):
    fn = {'linear': lambda c_, v, dt: adv.advect_linear(c_, v), 'upwind': adv.advect_upwind,
          'van_leer': adv.advect_van_leer}[kind]
    convect = lambda v: tuple(fn(u, v, c['dt']) for u in v)
    return equations.semi_implicit_navier_stokes(
        convect=convect, time_stepper=time_stepping.heun_rk2, **kw)
  if kind == 'rk4':
    return equations.semi_implicit_navier_stokes(
        time_stepper=time_stepping.classic_rk4, **kw)
  if kind == 'implicit':
    return equations.implicit_diffusion_navier_stokes(
        diffusion_solve=diffusion.solve_fast_diag, **kw)
  if kind == 'cg':
    return equations.semi_implicit_navier_stokes(
        pressure_solve=functools.partial(pressure.solve_cg, **cg(c)), **kw)
  force = kw.pop('forcing', None)
  if kind == 'smagorinsky':
    return subgrid_models.explicit_smagorinsky_navier_stokes(
        cs=0.2, forcing=force, **kw)
  if kind == 'smagorinsky_implicit':
    return subgrid_models.implicit_smagorinsky_navier_stokes(
        cs=0.2, forcing=force, **kw)
  raise ValueError(kind)


STEP_KINDS = ('explicit', 'linear', 'upwind', 'van_leer', 'rk4', 'implicit', 'cg',
              'smagorinsky', 'smagorinsky_implicit')


def build(c):
  """(function, input) of a program on a state."""
  name = c['program']
  if name in ('kdv', 'burgers', 'schrodinger'):
    n = 8
    g = grids.Grid((n,), domain=[(0.0, 2 * np.pi * c['step'][0])])
    a = fields(c, g, 2)
    if name == 'schrodinger':
      eq = spectral.equations.NonlinearSchrodinger(g)
      x = jnp.fft.fft(jnp.asarray(a[0] + 1j * a[1]))
    elif name == 'kdv':
      eq = spectral.equations.KuramotoSivashinsky(g, smooth=True)
      x = jnp.fft.rfft(jnp.asarray(a[0]))
    else:
      eq = spectral.equations.BurgersEquation(0.05, g)
      x = (jnp.fft.rfft(jnp.asarray(a[0])), 0.25)
    return spectral.time_stepping.crank_nicolson_rk4(eq, 0.1 * c['dt']), x
  if name == 'vorticity':
    g = grids.Grid((6, 4), domain=[(0.0, 2 * np.pi)] * 2)
    eq = spectral.equations.NavierStokes2D(0.01, g, drag=0.1, smooth=bool(c['seed'] % 2))
    x = jnp.fft.rfft2(jnp.asarray(fields(c, g, 1)[0]))
    return spectral.time_stepping.crank_nicolson_rk4(eq, 0.1 * c['dt']), x
  g = grids.Grid(tuple(c['shape']), domain=[(l, l + h * n) for l, h, n in
                                           zip(c['lower'], c['step'], c['shape'])])
  d = g.ndim
  if name == 'semilagrangian':  # only for domains that start at zero
    g = grids.Grid(g.shape, domain=[(0.0, h * n) for h, n in zip(c['step'], c['shape'])])
  if name in STEP_KINDS:
    return step_fn(name, c, g), velocity(c, g)
  per = gen.periodic_bc(d)
  if name == 'cavity':  # walls all around
    bcs = tuple(boundaries.dirichlet_boundary_conditions(
        d) for i in range(d))
    v = tuple(b.impose_bc(gen.garray(a, gen.face_offset(d, i), g))
              for i, (a, b) in enumerate(zip(fields(c, g, d), bcs)))
    return equations.semi_implicit_navier_stokes(
        density=c['rho'], viscosity=c['nu'], dt=c['dt'], grid=g,
        convect=lambda v: tuple(adv.advect_van_leer(u, v, c['dt']) for u in v),
        pressure_solve=functools.partial(pressure.solve_fast_diag, implementation='matmul')), v
  if name == 'collocated':
    v = tuple(gen.gvar(a, (0.5,) * d, g, per) for a in fields(c, g, d))
    return collocated.equations.semi_implicit_navier_stokes(
        density=c['rho'], viscosity=c['nu'], dt=c['dt'], grid=g), v
  if name in ('advect', 'advect_upwind', 'advect_van_leer', 'advect_limited', 'semilagrangian'):
    arrs = fields(c, g, d + 1)
    v = tuple(gen.gvar(a, gen.face_offset(d, i), g, per) for i, a in enumerate(arrs[:d]))
    u = gen.gvar(arrs[d], (0.5,) * d, g, per)
    fn = dict(advect=adv.advect_linear, advect_upwind=adv.advect_upwind,
              advect_van_leer=adv.advect_van_leer,
              advect_limited=adv.advect_van_leer_using_limiters,
              semilagrangian=adv.advect_step_semilagrangian)[name]
    return (lambda x: fn(x[0], x[1], c['dt'])), (u, v)
  b = c['bc']
  if name in ('diffuse_fast', 'diffuse_cg'):  # slopes at walls must vanish
    b = dict(types=b['types'], values=[
        [0.0, 0.0] if 'neumann' in t else p for t, p in zip(b['types'], b['values'])])
  b = gen.mk_bc(b)
  u = gen.gvar(fields(c, g, 1)[0], (0.5,) * d, g, b)
  if name == 'diffuse':
    return (lambda x: diffusion.diffuse(x, c['nu'])), u
  if name == 'diffuse_fast':
    return (lambda x: diffusion.solve_fast_diag((x,), c['nu'], c['dt'],
                                                implementation='matmul')), u
  if name == 'diffuse_cg':
    u = grids.GridVariable(u.array, per)
    return (lambda x: diffusion.solve_cg((x,), c['nu'], c['dt'], **cg(c))), u
  if name == 'operators':
    def fn(x):
      grad = tuple(gen_bc(q) for q in fd.forward_difference(x))
      return (fd.laplacian(x), fd.central_difference(x), fd.backward_difference(x),
              fd.divergence(grad), fd.gradient_tensor(x),
              interpolation.linear(x, (0.0,) * d))
    gen_bc = lambda q: grids.GridVariable(q, per)
    return fn, grids.GridVariable(u.array, per)
  if name == 'project':
    v = velocity(c, g)
    return pressure.projection, v
  if name == 'coarsen':
    fine = grids.Grid(tuple(2 * n for n in g.shape), domain=g.domain)
    coarse = g
    v = tuple(gen.gvar(a, gen.face_offset(d, i), fine, per)
              for i, a in enumerate(fields(c, fine, d)))
    return (lambda x: resize.downsample_staggered_velocity(fine, coarse, x)), v
  raise ValueError(name)


OPS = ('cavity', 'collocated', 'advect', 'advect_upwind', 'advect_van_leer', 'advect_limited',
       'semilagrangian', 'diffuse', 'diffuse_fast', 'diffuse_cg', 'operators', 'project',
       'coarsen', 'vorticity', 'kdv', 'burgers', 'schrodinger')
# Derivatives of implicit Smagorinsky steps are a known finding.
SMOOTH = tuple(k for k in STEP_KINDS if k != 'smagorinsky_implicit') + OPS
SPECTRAL = ('vorticity', 'kdv', 'burgers', 'schrodinger')


@st.composite
def case(draw, programs=STEP_KINDS + OPS, states=('noise', 'noise', 'flat', 'rest', 'line')):
  shape = draw(gen.shapes((2, 3), POOL))
  d = len(shape)
  return dict(program=draw(st.sampled_from(list(programs))), shape=shape,
              step=[draw(gen.pick(*STEPS)) for _ in shape],
              lower=[draw(gen.pick(0.0, -1.0)) for _ in shape], seed=draw(gen.seeds()),
              state=draw(gen.pick(*states)), rho=draw(gen.pick(1.0, 2.5)),
              nu=draw(gen.pick(0.0, 0.1, 0.02)), dt=draw(gen.pick(0.05, 0.1)),
              force=draw(st.booleans()), bc=draw(gen.bc(d)), seed2=draw(gen.seeds()),
              batch=draw(gen.ints(1, 3)))


def leaves(tree):
  return [core.to_np(x) for x in jax.tree.leaves(tree)]


def top(*trees):
  return max([np.abs(a).max() if a.size else 0.0 for t in trees for a in leaves(t)] + [1e-6])


def same(ctx, got, want, what, tol, scale):
  ctx.eq(jax.tree.structure(got), jax.tree.structure(want), f'{what}: structure')
  for a, b in zip(leaves(got), leaves(want)):
    ctx.eq((a.shape, a.dtype), (b.shape, b.dtype), f'{what}: shape and type')
    ctx.close(a, b, what, tol, scale)


def tolerance(c):
  return 1e-7 if c['program'] in ('cg', 'diffuse_cg', 'smagorinsky_implicit') else 1e-11


def other_state(c, x, seed):
  """Another state of the same structure."""
  c2 = dict(c, seed=seed, state='noise')
  return build(c2)[1]


@P.facet(case(), quick=10, shards=6,
         rule='eager, compiled, batched and repeated runs of a program agree; '
         'non-trivial = state not at rest')
def modes(c, ctx):
  fn, x = build(c)
  eager = fn(x)
  scale = 20 * top(x, eager)
  tol = tolerance(c)
  for a in leaves(eager):
    ctx.true(np.all(np.isfinite(a)), 'finite output')
  jitted = jax.jit(fn)
  same(ctx, jitted(x), eager, 'compiled', tol, scale)
  # something else runs in between, then the same again
  y = other_state(c, x, c['seed2'])
  out_y = fn(y)
  fn2, x2 = build(dict(c, seed=c['seed2'], state='noise', dt=c['dt'] * 1.5,
                       step=[s * 2 for s in c['step']]))
  fn2(x2)
  again = fn(x)
  for a, b in zip(leaves(again), leaves(eager)):
    ctx.true(np.array_equal(a, b), 'repeated run differs')
  fresh = build(c)[0](x)
  for a, b in zip(leaves(fresh), leaves(eager)):
    ctx.true(np.array_equal(a, b), 'rebuilt program differs')
  # batches
  members, outs = [x, y], [eager, out_y]
  if c['batch'] > 2:
    members.append(other_state(c, x, c['seed2'] + 1))
    outs.append(fn(members[-1]))
  stacked = jax.tree.map(lambda *a: jnp.stack([jnp.asarray(q) for q in a]), *members)
  batched = jax.vmap(fn)(stacked)
  ctx.eq(jax.tree.structure(batched), jax.tree.structure(eager), 'batched structure')
  scale = 20 * top(*members, *outs)
  for k, out in enumerate(outs):
    for a, b in zip(leaves(batched), leaves(out)):
      ctx.close(a[k], b, f'batch member {k}', tol, scale)
  ctx.label(c['program'])
  return c['state'] != 'rest'


def real_input(c, x):
  """Spectral states are transforms of real data, so differentiate in those."""
  name = c['program']
  if name == 'vorticity':
    return (lambda a: jnp.fft.rfft2(a)), jnp.fft.irfft2(x, s=(6, 4))
  if name == 'kdv':
    return (lambda a: jnp.fft.rfft(a)), jnp.fft.irfft(x, 8)
  if name == 'burgers':
    return (lambda a: (jnp.fft.rfft(a), 0.25)), jnp.fft.irfft(x[0], 8)
  if name == 'schrodinger':
    y = jnp.fft.ifft(x)
    return (lambda p: jnp.fft.fft(p[0] + 1j * p[1])), (y.real, y.imag)
  return (lambda a: a), x


def real_output(tree):
  out = []
  for a in jax.tree.leaves(tree):
    a = jnp.asarray(a)
    out.extend([a.real, a.imag] if jnp.iscomplexobj(a) else [a])
  return out


@P.facet(case(SMOOTH), quick=8, shards=6,
         rule='forward and reverse derivatives of a program against each other, against '
         'finite differences, and finite; non-trivial = state not at rest')
def derivatives(c, ctx):
  fn, x = build(c)
  pack, z = real_input(c, x)
  f = jax.jit(lambda a: real_output(fn(pack(a))))
  rng = np.random.default_rng(c['seed2'])
  tangent = jax.tree.map(lambda a: jnp.asarray(rng.standard_normal(a.shape)), z)
  if c['program'] == 'cavity':  # directions that respect the walls
    tangent = jax.tree.map(lambda a: a, tangent)
    tangent = tuple(gen.gvar(core.to_np(b.impose_bc(t.array).data) * (
        core.to_np(b.impose_bc(t.array).data) == core.to_np(t.data)), t.offset, t.grid, t.bc)
                    for t, b in ((t, u.bc) for t, u in zip(tangent, z)))
  y, dy = jax.jvp(f, (z,), (tangent,))
  y2, back = jax.vjp(f, z)
  cot = [jnp.asarray(rng.standard_normal(a.shape)) for a in y]
  grad, = back(cot)
  ctx.eq(jax.tree.structure(grad), jax.tree.structure(z), 'structure of gradient')
  ctx.label(f"{c['program']} {c['state']}")
  for a in leaves(grad) + leaves(dy):
    ctx.true(np.all(np.isfinite(a)), 'finite derivatives')
  size = 20 * top(dy, grad, tangent)
  tol = 1e-6 if tolerance(c) > 1e-9 else 1e-11
  left = sum(float(np.sum(a * b)) for a, b in zip(leaves(cot), leaves(dy)))
  right = sum(float(np.sum(a * b)) for a, b in zip(leaves(grad), leaves(tangent)))
  ctx.close(left, right, 'forward against reverse mode', tol,
            size * sum(a.size for a in leaves(cot)))
  if c['state'] == 'noise':
    eps = 1e-5
    move = lambda s: jax.tree.map(lambda a, t: a + s * t, z, tangent)
    plus, minus = f(move(eps)), f(move(-eps))
    plus2, minus2 = f(move(eps / 8)), f(move(-eps / 8))
    for a, b, p2, m2, want in zip(leaves(plus), leaves(minus), leaves(plus2),
                                  leaves(minus2), leaves(dy)):
      wide = (a - b) / (2 * eps)
      narrow = (p2 - m2) / (eps / 4)
      smooth = np.abs(wide - narrow) < 1e-5 * size  # no kink in between
      ctx.close(np.where(smooth, narrow, 0), np.where(smooth, want, 0),
                'derivative against finite differences', 1e-4, size)
  return c['state'] != 'rest'


@P.facet(case(programs=('upwind', 'implicit', 'collocated', 'vorticity'),
              states=('noise', 'noise', 'flat')), quick=3, shards=3,
         rule='gradients through trajectories with and without checkpointing, against '
         'the chain of single steps; non-trivial = more than a step')
def trajectories(c, ctx):
  fn, x = build(c)
  pack, z = real_input(c, x)
  steps = 2
  size_of = lambda tree: sum(jnp.sum(a ** 2) for a in real_output(tree))

  def loss(step, z):
    end, path = funcutils.trajectory(step, steps)(pack(z))
    return size_of(end) + 0.5 * size_of(path)

  def loop(z):
    s, total = pack(z), 0.0
    for _ in range(steps):
      s = fn(s)
      total = total + 0.5 * size_of(s)
    return size_of(s) + total

  v0, g0 = jax.jit(jax.value_and_grad(loop))(z)
  v1, g1 = jax.jit(jax.value_and_grad(functools.partial(loss, fn)))(z)
  v2, g2 = jax.jit(jax.value_and_grad(functools.partial(loss, jax.checkpoint(fn))))(z)
  scale = 20 * top(g0, z)
  for v, g, what in ((v1, g1, 'scan'), (v2, g2, 'checkpoint')):
    ctx.close(float(v), float(v0), f'{what}: value', 1e-10, abs(float(v0)) + 1.0)
    same(ctx, g, g0, f'{what}: gradient', 1e-9, scale)
  rep = jax.jit(funcutils.repeated(fn, steps))(x)
  s = x
  for _ in range(steps):
    s = fn(s)
  same(ctx, rep, s, 'repeated', 1e-10, 20 * top(s, x))
  ctx.label(c['program'])
  return True


@P.facet(case(), quick=8, shards=4,
         rule='single precision runs follow double precision runs; non-trivial = state '
         'not at rest')
def precision(c, ctx):
  fn, x = build(c)
  want = fn(x)
  with jax.enable_x64(False):
    low_fn, low = build(dict(c, single=True))
    got = jax.jit(low_fn)(low)
    for a in jax.tree.leaves(got):
      ctx.true(a.dtype in (np.float32, np.complex64, np.int32), 'single precision type')
  ctx.eq(jax.tree.structure(got), jax.tree.structure(want), 'structure')
  scale = 20 * top(x, want)
  for a, b in zip(leaves(got), leaves(want)):
    ctx.eq(a.shape, b.shape, 'shape')
    ctx.close(a, b, 'single precision', 1e-4, scale)
  ctx.label(c['program'])
  return c['state'] != 'rest'


# ---- compiled code must not be reused for other fields ------------------------


@st.composite
def history_case(draw):
  shape = draw(gen.shapes((1, 2), {1: [(5,)], 2: [(4, 3)]}))
  d = len(shape)
  variants = [dict(step=[draw(gen.pick(1.0, 0.5)) for _ in shape],
                   lower=[draw(gen.pick(0.0, 1.0)) for _ in shape],
                   bc=draw(gen.bc(d, values=(0.0, 1.0))),
                   off=draw(gen.pick(0.5, 0.5, 1.0)), f=draw(gen.field(['noise'])))
              for _ in range(draw(gen.ints(2, 4)))]
  # near-copies: differ from the first one in a single respect
  for _ in range(draw(gen.ints(1, 3))):
    v = dict(variants[0])
    key = draw(gen.pick('step', 'lower', 'bc', 'off', 'value'))
    if key == 'bc':
      v['bc'] = draw(gen.bc(d, values=(0.0, 1.0)))
    elif key == 'off':
      v['off'] = 1.0 if v['off'] == 0.5 else 0.5
    elif key == 'value':
      b = v['bc']
      v['bc'] = dict(types=b['types'], values=[
          [None if q is None else q + 2.5 for q in p] if t[0] != 'periodic' else p
          for t, p in zip(b['types'], b['values'])])
    else:
      v[key] = [q + 0.75 for q in v[key]]
    variants.append(v)
  order = draw(st.lists(gen.ints(0, len(variants) - 1), min_size=3, max_size=8))
  return dict(shape=shape, variants=variants, order=order)


@P.facet(history_case(), quick=20, shards=3,
         rule='one compiled function applied to a history of fields of equal shape on '
         'different grids, offsets and boundaries; non-trivial = several variants used')
def history(c, ctx):
  d = len(c['shape'])
  vs = []
  for v in c['variants']:
    if any('neumann' in t for t in v['bc']['types']):
      v = dict(v, off=0.5)
    g = grids.Grid(tuple(c['shape']), domain=[(l, l + h * n) for l, h, n in
                                             zip(v['lower'], v['step'], c['shape'])])
    off = (v['off'],) + (0.5,) * (d - 1)
    vs.append(gen.mk_bc(v['bc']).impose_bc(gen.garray(gen.arr(v['f'], c['shape']), off, g)))

  def fn(u):
    dest = tuple(0.5 for _ in range(d))
    return (fd.laplacian(u), fd.central_difference(u), interpolation.linear(u, dest),
            u.bc.shift(u.array, 1, 0), jnp.asarray(u.grid.step[0]),
            u.grid.mesh(u.offset)[0] * 1.0)
  once = [fn(u) for u in vs]  # plain calls
  jitted = jax.jit(fn)
  for k in c['order']:
    got, want = jitted(vs[k]), once[k]
    ctx.eq(jax.tree.structure(got), jax.tree.structure(want), 'structure')
    for a, b in zip(leaves(got), leaves(want)):
      ctx.close(a, b, f'variant {k}', 1e-12, 50.0)
  for i, u in enumerate(vs):
    for j, w in enumerate(vs):
      keys = [(x.grid.shape, x.grid.domain, tuple(x.offset), x.bc) for x in (u, w)]
      ctx.eq(jax.tree.structure(u) == jax.tree.structure(w), keys[0] == keys[1],
             'equal structure')
  ctx.label(f'{len(set(c["order"]))} variants')
  return len(set(c['order'])) > 1


# ---- initialization contexts leave no trace ------------------------------------


class _Fault(Exception):
  pass


@st.composite
def context_case(draw):
  def op(depth):
    kind = draw(gen.pick('run', 'run', 'grad', 'context', 'fault', 'context'))
    if kind in ('context', 'fault') and depth < 3:
      return [kind, [op(depth + 1) for _ in range(draw(gen.ints(0, 2)))]]
    return ['run' if kind != 'grad' else 'grad', []]
  return dict(ops=[op(0) for _ in range(draw(gen.ints(2, 6)))],
              steps=draw(gen.ints(2, 5)), factor=draw(gen.pick(0.5, 1.5, -1.0)),
              x=draw(gen.pick(1.0, -0.5)))


@P.facet(context_case(), quick=25, shards=1,
         rule='histories of nested initialization contexts, some left by an exception, '
         'and rollouts inside and after; non-trivial = a context is opened')
def contexts(c, ctx):
  importlib.reload(funcutils)  # each history starts from a fresh module
  n, a, x = c['steps'], c['factor'], c['x']
  opened = []

  def run(depth, grad):
    calls = []

    def f(s):
      calls.append(1)
      return a * s + 1.0
    rep = funcutils.repeated(f, n)
    if grad and not depth:
      ctx.close(float(jax.grad(rep)(x)), a ** n, 'derivative of the rollout', 1e-12, 10.0)
      return
    end, path = funcutils.trajectory(f, n)(jnp.asarray(x))
    want = [x]
    for _ in range(n):
      want.append(a * want[-1] + 1.0)
    if depth:  # a single evaluation, in outputs of the right shape
      ctx.eq(len(calls), 1, 'evaluations while initializing')
      ctx.close(float(end), want[1], 'state while initializing', 1e-12, 100.0)
    else:
      ctx.close(float(end), want[-1], 'end of the rollout', 1e-12, 100.0)
      ctx.close(core.to_np(path), np.array(want[1:]), 'rollout', 1e-12, 100.0)
      ctx.close(float(rep(jnp.asarray(x))), want[-1], 'repeated steps', 1e-12, 100.0)
    ctx.eq(path.shape, (n,), 'frames')

  def go(ops, depth):
    for kind, inner in ops:
      if kind in ('run', 'grad'):
        run(depth, kind == 'grad')
        continue
      opened.append(kind)
      try:
        with funcutils.init_context():
          go(inner, depth + 1)
          run(depth + 1, False)
          if kind == 'fault':
            raise _Fault()
      except _Fault:
        pass
      run(depth, False)
  go(c['ops'], 0)
  run(0, False)
  ctx.label(f'{len(opened)} contexts')
  if 'fault' in opened:
    ctx.label('fault')
  return bool(opened)
