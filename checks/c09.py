"""C09: fast diagonalization and 1-D Laplacian matrices."""
import functools

import hypothesis.strategies as st
import jax.numpy as jnp
import numpy as np
import scipy.linalg

from harness import core, gen
from jax_cfd.base import array_utils
from jax_cfd.base import fast_diagonalization as fdiag
from jax_cfd.base import finite_differences as fd
from jax_cfd.base import grids

P = core.Property('C09')
POOL = {1: [(5,), (2,), (8,), (1,)], 2: [(4, 3), (3, 5), (1, 4), (2, 6), (4, 4), (3, 3)],
        3: [(3, 4, 2), (2, 3, 5), (3, 3, 4)]}

FUNCS = {
    'identity': lambda x: x,
    'square': lambda x: x ** 2,
    'resolvent': lambda x: 1 / (40.0 + x ** 2),
    'exp': lambda x: np.exp(-0.05 * x ** 2),
}


def operator(n, kind, seed):
  rng = np.random.default_rng(seed)
  if kind == 'symmetric':
    a = rng.standard_normal((n, n))
    return (a + a.T) / 2
  if kind == 'low rank':
    a = rng.standard_normal((n, max(1, n // 2)))
    return a @ a.T
  if kind == 'zero':
    return np.zeros((n, n))
  col = rng.standard_normal(n)
  if kind == 'circulant':  # symmetric
    col = col + np.roll(col[::-1], 1)
  elif kind == 'laplacian':
    col = np.zeros(n)
    col[0] -= 2
    col[1 % n] += 1
    col[-1] += 1
  return scipy.linalg.circulant(col)  # 'advection': not symmetric


def operators(c):
  """One for each axis; the last may share its spectrum with the first."""
  ops = [operator(n, c['kind'], s) for n, s in zip(c['shape'], c['seeds'])]
  if c['shape'][-1] == c['shape'][0]:
    if c['rel'] == 'same':
      ops[-1] = ops[0].copy()
    elif c['rel'] == 'reversed':
      ops[-1] = ops[0][::-1, ::-1].copy()
    elif c['rel'] == 'negative':
      ops[-1] = -ops[0]
  return ops


def kron_sum(ops):
  shape = [o.shape[0] for o in ops]
  total = np.zeros((core.prod(shape),) * 2)
  for i, o in enumerate(ops):
    left = np.eye(core.prod(shape[:i]))
    right = np.eye(core.prod(shape[i + 1:]))
    total += np.kron(np.kron(left, o), right)
  return total


def matrix_function(fn, m):
  """fn of a normal matrix, by dense eigendecomposition."""
  if np.allclose(m, m.T):
    w, x = np.linalg.eigh((m + m.T) / 2)
    return (x * fn(w)) @ x.T
  t, z = scipy.linalg.schur(m, output='complex')
  return (z * fn(np.diag(t))) @ z.conj().T


@st.composite
def case(draw, kinds=('symmetric', 'circulant', 'laplacian', 'advection')):
  shape = draw(gen.shapes((1, 2, 3), POOL))
  kind = draw(st.sampled_from(list(kinds)))
  names = []
  if kind != 'advection':
    names.append('matmul')
  if kind not in ('symmetric', 'low rank'):
    names += ['fft']
    if shape[-1] % 2 == 0:
      names += ['rfft', None]
    elif kind != 'advection':
      names += [None]
  return dict(shape=shape, kind=kind, seeds=[draw(gen.seeds()) for _ in shape],
              rel=draw(gen.pick('own', 'own', 'same', 'reversed', 'negative')),
              impl=draw(st.sampled_from(names)), f=draw(gen.field()),
              fn=draw(st.sampled_from(sorted(FUNCS))),
              cplx=draw(gen.pick(False, False, True)))


@P.facet(case(), quick=110, shards=4,
         rule='function of a sum of per-axis operators vs dense matrix function, '
         'every implementation, symmetric and circulant operators; non-trivial = '
         'right-hand side non-constant, function not the identity')
def transform(c, ctx):
  ops = operators(c)
  fn = FUNCS[c['fn']]
  b = gen.arr(c['f'], c['shape'])
  dtype = np.float64
  if c['cplx'] and c['impl'] in ('fft', 'matmul'):
    b = b + 1j * b[tuple(slice(None, None, -1) for _ in b.shape)]
    dtype = np.complex128
  got = fdiag.transform(fn, ops, dtype, hermitian=c['kind'] != 'advection',
                        circulant=c['kind'] not in ('symmetric',),
                        implementation=c['impl'])(jnp.asarray(b))
  dense = kron_sum(ops)
  want = (matrix_function(fn, dense) @ b.ravel()).reshape(b.shape)
  if c['kind'] == 'advection' and not c['cplx']:
    want = want.real
  elif dtype == np.float64:
    want = want.real
  ctx.label(f'{c["impl"]}/{c["kind"]}')
  ctx.eq(np.asarray(got).dtype, np.dtype(dtype), 'dtype')
  gain = np.abs(fn(np.linalg.eigvals(dense))).max() + 1e-30
  ctx.close(got, want, f'{c["impl"]} on {c["kind"]} operators', 1e-10,
            gain * np.linalg.norm(b))
  return gen.nonconstant(b) and c['fn'] != 'identity'


@P.facet(case(kinds=('symmetric', 'circulant', 'laplacian', 'low rank', 'zero')),
         quick=80, shards=3,
         rule='Moore-Penrose conditions of the pseudo-inverse, singular operators '
         'included; non-trivial = operator not zero')
def pseudoinverse(c, ctx):
  ops = operators(c)
  dense = kron_sum(ops)
  w = np.linalg.eigvalsh((dense + dense.T) / 2)
  top = np.abs(w).max()
  cutoff = 1e-7 * (top or 1.0)
  if np.any((np.abs(w) > cutoff / 100) & (np.abs(w) < cutoff * 100)):
    raise core.Discard()
  b = gen.arr(c['f'], c['shape'])
  kw = dict(hermitian=True, circulant=c['kind'] not in ('symmetric', 'low rank'))
  pinv = fdiag.pseudoinverse(ops, np.float64, implementation=c['impl'],
                             cutoff=cutoff, **kw)
  got = np.asarray(pinv(jnp.asarray(b)))
  want = (np.linalg.pinv(dense, rcond=1e-7, hermitian=True) @ b.ravel()
          ).reshape(b.shape) if top else np.zeros_like(b)
  small = np.abs(w[np.abs(w) > cutoff]).min() if top else 1.0
  scale = np.linalg.norm(b) / small * (top / small if top else 1.0)
  ctx.close(got, want, 'pseudo-inverse', 1e-11, scale)
  back = (dense @ got.ravel()).reshape(b.shape)
  again = np.asarray(pinv(jnp.asarray(back)))
  ctx.close(again, got, 'P A P = P', 1e-10, scale)
  ctx.label('singular' if (np.abs(w) <= cutoff).any() else 'regular')
  if c['kind'] == 'laplacian' and all(n > 1 for n in c['shape']):
    auto = fdiag.pseudoinverse(ops, np.float64, implementation=c['impl'],
                               cutoff=1e-8, **kw)(jnp.asarray(b))
    ctx.close(auto, got, 'explicit cutoff', 1e-10, scale)
  return top > 0


@P.facet(case(kinds=('symmetric', 'circulant')), quick=40,
         rule='inverse of regular operators with the default cut-off; all '
         'non-trivial')
def default_cutoff(c, ctx):
  ops = operators(c)
  shift = 3 * max(np.abs(o).sum(axis=1).max() for o in ops) + 1
  ops = [o + shift * np.eye(len(o)) for o in ops]
  b = gen.arr(c['f'], c['shape'])
  got = fdiag.pseudoinverse(ops, np.float64, hermitian=True,
                            circulant=c['kind'] == 'circulant',
                            implementation=c['impl'])(jnp.asarray(b))
  want = np.linalg.solve(kron_sum(ops), b.ravel()).reshape(b.shape)
  ctx.close(got, want, 'inverse', 1e-11, np.abs(b).max())
  return True


@P.facet(gen.dct(c=gen.variable(pool={
    1: [(1,), (2,), (3,), (6,)], 2: [(4, 3), (2, 5)], 3: [(3, 4, 2)]},
    values=[0.0])), quick=110, shards=3,
         rule='1-D Laplacian matrices assembled on a grid vs the finite-difference '
         'Laplacian of random fields; non-trivial = some wall')
def matrices(case, ctx):
  c = case['c']
  for t, o, n in zip(c['bc']['types'], c['off'], c['g']['shape']):
    if o != 0.5 and (len(set(t)) > 1 or n == 1):
      raise core.Discard()
  g = gen.mk_grid(c['g'])
  bc = gen.mk_bc(c['bc'])
  lap = array_utils.laplacian_matrix_w_boundaries(g, tuple(c['off']), bc)
  a = gen.var_data(c)
  inner = []
  for t, o in zip(c['bc']['types'], c['off']):
    wall = t[0] == 'dirichlet' and o != 0.5
    inner.append(slice(0, -1) if wall and o == 1.0 else
                 slice(1, None) if wall else slice(None))
  inner = tuple(inner)
  x = a[inner]
  ctx.eq(len(lap), g.ndim, 'one matrix per axis')
  for m, n in zip(lap, x.shape):
    ctx.eq(np.asarray(m).shape, (n, n), 'matrix shape')
    ctx.close(m, np.asarray(m).T, 'symmetric')
  got = sum(np.moveaxis(np.tensordot(np.asarray(m), x, axes=(1, i)), 0, i)
            for i, m in enumerate(lap))
  hs = gen.steps_of(c['g'])
  want = np.zeros_like(a)
  for ax in range(g.ndim):
    want += (gen.ext_shift(a, c, ax, 1) - 2 * a + gen.ext_shift(a, c, ax, -1)
             ) / hs[ax] ** 2
  scale = np.abs(a).max() * sum(4 / h ** 2 for h in hs)
  ctx.close(got, want[inner], 'matrix Laplacian', 1e-12, scale)
  lib = fd.laplacian(gen.gvar(a, c['off'], g, bc))
  ctx.close(got, np.asarray(lib.data)[inner], 'finite-difference Laplacian',
            1e-12, scale)
  if all(t[0] == 'periodic' for t in c['bc']['types']):
    for n, h, m in zip(g.shape, g.step, lap):
      ctx.close(array_utils.laplacian_matrix(n, h), m, 'periodic matrix', 1e-13)
    return False
  return True


@P.facet(gen.dct(n=gen.ints(2, 4), m=gen.ints(2, 4), seed=gen.seeds()), quick=20,
         rule='invalid requests are refused; all non-trivial')
def refusals(c, ctx):
  sym = operator(c['n'], 'symmetric', c['seed'])
  circ = operator(2 * c['m'] - 1, 'laplacian', 0)
  fn = FUNCS['identity']
  bad = np.zeros((c['n'], c['n'] + 1))
  ctx.raises(ValueError, lambda: fdiag.transform(
      fn, [bad], np.float64, hermitian=True, circulant=True), 'rectangular')
  ctx.raises(ValueError, lambda: fdiag.transform(
      fn, [sym], np.float64, hermitian=False, implementation='matmul'),
             'non-symmetric with matmul')
  for impl in ('fft', 'rfft'):
    ctx.raises(ValueError, lambda: fdiag.transform(
        fn, [sym], np.float64, hermitian=True, implementation=impl),
               f'non-circulant with {impl}')
  ctx.raises(ValueError, lambda: fdiag.transform(
      fn, [circ], np.float64, circulant=True, implementation='rfft'), 'odd rfft')
  ctx.raises(ValueError, lambda: fdiag.transform(
      fn, [sym], np.float64, hermitian=True, implementation='magic'), 'unknown')
  for impl in ('matmul', 'fft'):
    op = fdiag.transform(fn, [circ, circ], np.float64, hermitian=True,
                         circulant=True, implementation=impl)
    n = circ.shape[0]
    ctx.raises(ValueError, lambda: op(jnp.zeros((n, n + 1))), 'wrong shape')
  op = fdiag.transform(fn, [sym], np.float64, hermitian=True,
                       implementation='matmul')
  ctx.raises(ValueError, lambda: op(jnp.zeros((c['n'],), np.float32)), 'wrong dtype')
  return True
