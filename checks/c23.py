"""C23: evaluation statistics and training losses."""
import functools
import itertools

import hypothesis.strategies as st
import jax
import jax.numpy as jnp
import numpy as np
import xarray

from harness import core, gen
from jax_cfd.data import evaluation as ev
from jax_cfd.data import xarray_utils as xu
from jax_cfd.ml import metrics

P = core.Property('C23')


@st.composite
def model_case(draw):
  nd = draw(gen.ints(1, 3))
  return dict(nd=nd, extra=draw(gen.pick([], ['time'], ['sample'], ['sample', 'time'])),
              n=[draw(gen.ints(1, 4)) for _ in range(nd)], ne=draw(gen.ints(1, 3)),
              parts=draw(gen.pick(0, 0, 1, 2)),
              models=draw(gen.pick(['learned', 'ground_truth'],
                                   ['ground_truth', 'other', 'learned'], ['a', 'b', 'c'])),
              f=draw(gen.field(['noise', 'ints', 'const'])), perm=draw(gen.ints(0, 719)),
              same=draw(st.booleans()), thr=draw(gen.pick(0.0, 0.5, 1.0, 2.0)),
              scale=draw(gen.pick(1.0, 2.0, 0.5)), ex=draw(gen.ints(0, 3)))


def values(array, dims):
  return core.to_np(array.transpose(*dims).values)


@P.facet(model_case(), quick=150,
         rule='errors, thresholds, averages and correlations between two models of '
         'a dataset, in any order of dimensions; non-trivial = models differ')
def comparisons(c, ctx):
  nd = c['nd']
  names = c['models']
  sp = ['x', 'y', 'z'][:nd]
  parts = ['part'] if c['parts'] else []  # another dimension of the state
  dims = ['model'] + c['extra'] + parts + sp
  shape = [len(names)] + [c['ne']] * len(c['extra']) + [c['parts']] * len(parts) + c['n']
  a = gen.arr(c['f'], shape)
  ev_name, tg = (('learned', 'ground_truth') if 'learned' in names else ('b', 'c'))
  i, j = names.index(ev_name), names.index(tg)
  if c['same']:
    a[i] = a[j]
  coords = {'model': names}
  coords.update({d: np.arange(n) * 0.5 for d, n in zip(sp, c['n'])})
  arr = xarray.DataArray(a, coords, dims, name='u')
  perms = list(itertools.permutations(dims))
  arr = arr.transpose(*perms[c['perm'] % len(perms)])
  kw = {} if 'learned' in names else dict(eval_model_name=ev_name, target_model_name=tg)
  err = ev.absolute_error(arr, **kw)
  ctx.eq(err.name, 'u_error', 'name of the error')
  out = dims[1:]
  ctx.close(values(err, out), np.abs(a[i] - a[j]), 'absolute error', 1e-15)
  below = ev.below_error_threshold(arr, xarray.DataArray(c['thr']), **kw)
  ctx.close(values(below, out), np.abs(a[i] - a[j]) <= c['thr'], 'within threshold')
  e = len(c['extra'])
  ax = tuple(range(e, e + len(parts) + nd))
  x, y = a[i], a[j]
  nx, ny = [np.sqrt((q ** 2).sum(ax, keepdims=True)) for q in (x, y)]
  if (nx > 0).all() and (ny > 0).all():
    corr = (x / nx * y / ny).sum(ax)
    average = [d for d in ('sample',) if d in c['extra']]
    left = [d for d in c['extra'] if d not in average]
    cw = dict(kw, non_state_dims=('sample', 'time'),
              non_state_dims_to_average=tuple(average))
    if average == ['sample'] and 'time' in c['extra']:
      cw = kw  # the defaults
    got = ev.state_correlation(arr, **cw)
    ctx.eq(got.name, 'u_correlation', 'name of the correlation')
    want = corr.mean(0) if average else corr
    ctx.close(values(got, left), want, 'correlation', 1e-12, 1.0)
    ctx.le(np.abs(values(got, left)), 1.0, 'within [-1, 1]', 1e-12)
    if c['same']:
      ctx.close(values(got, left), np.ones(want.shape), 'identical models', 1e-12, 1.0)
    again = ev.state_correlation(arr * c['scale'] * 3, **cw)
    ctx.close(values(again, left), want, 'scaled fields', 1e-12, 1.0)
    if c['extra'] == ['sample', 'time']:
      every = ev.state_correlation(arr, non_state_dims_to_average=('sample', 'time'), **kw)
      ctx.close(float(every), corr.mean(), 'averaged over time too', 1e-12, 1.0)
  mean = ev.average(arr, nd)
  kept = [d for d in dims if d not in ['sample'] + sp]
  gone = tuple(k for k, d in enumerate(dims) if d not in kept)
  ctx.close(values(mean, kept), a.mean(gone), 'average', 1e-13, np.abs(a).max())
  mean = ev.average(arr, c['ex'], ('time', 'model'))
  kept = [d for d in dims if d not in ['time', 'model'] + ['x', 'y', 'z'][:c['ex']]]
  gone = tuple(k for k, d in enumerate(dims) if d not in kept)
  ctx.close(values(mean, kept), a.mean(gone), 'average of chosen dimensions', 1e-13,
            np.abs(a).max())
  ctx.raises(ValueError, lambda: ev.average(arr + 1j, nd), 'complex values')
  return bool((x != y).any())


@P.facet(gen.dct(ns=gen.ints(1, 3), nt=gen.ints(1, 3), n=gen.ints(1, 5), seed=gen.seeds(),
                 which=gen.pick('energy', 'ux', 'ut'), thr=gen.pick(0.01, 0.5, 1.0),
                 same=st.booleans()), quick=80,
         rule='summary metrics of spectra and correlations against explicit loops; '
         'non-trivial = both branches of the threshold are met')
def curve_metrics(c, ctx):
  rng = np.random.default_rng(c['seed'])
  dim = 'kx' if c['which'] == 'energy' else 'dx'
  shape = (c['ns'], c['nt'], c['n'])
  a, b = np.exp(rng.standard_normal((2,) + shape) + np.log(c['thr']))
  if c['which'] != 'energy':
    a, b = a * rng.choice([-1, 1], shape), b * rng.choice([-1, 1], shape)
  if c['same']:
    a = b
  out = np.zeros(shape[:2])
  hits = set()
  for i in np.ndindex(*shape):
    p, q, t = a[i], b[i], c['thr']
    if c['which'] == 'energy':
      if q > t:
        out[i[:2]] += abs(np.log(p) - np.log(q))
        hits.add(0)
      elif p > t:
        out[i[:2]] += abs(np.log(p))
        hits.add(1)
    elif abs(q) > t:
      out[i[:2]] += abs(p - q)
      hits.add(0)
    elif abs(p) > t:
      out[i[:2]] += abs(p)
      hits.add(1)
  if c['which'] == 'ut':
    got = ev.u_t_correlation_metric(c['thr'])(jnp.asarray(a), jnp.asarray(b))
    ctx.close(float(got), out.mean(), 'metric', 1e-12)
  else:
    fn = (ev.energy_spectrum_metric if c['which'] == 'energy'
          else ev.u_x_correlation_metric)(c['thr'])
    da, db = [xarray.DataArray(v, dims=['sample', 'time', dim]) for v in (a, b)]
    got = fn(da, db.transpose(dim, 'time', 'sample'))
    ctx.eq(got.dims, ('time',), 'dimensions')
    ctx.close(core.to_np(got.values), out.mean(0), 'metric', 1e-12)
  ctx.label(c['which'])
  return len(hits) == 2


@P.facet(gen.dct(ns=gen.ints(1, 2), nt=gen.ints(2, 7), n=gen.ints(1, 3), seed=gen.seeds(),
                 dt=gen.pick(0.1, 0.25, 0.3, 0.5, 1.0, 2.0), perm=gen.ints(0, 23)), quick=60,
         rule='temporal autocorrelation at every sampled lag; all non-trivial')
def time_lags(c, ctx):
  rng = np.random.default_rng(c['seed'])
  a = rng.standard_normal((c['nt'], c['ns'], c['n'], 2))
  dims = ['time', 'sample', 'x', 'model']
  t = np.arange(c['nt']) * c['dt'] + 4.0
  perms = list(itertools.permutations(dims))
  ds = xarray.Dataset({'u': xarray.Variable(dims, a)},
                      {'time': t, 'sample': np.arange(c['ns']), 'x': np.arange(c['n']) * 0.5,
                       'model': ['a', 'b']}).transpose(*perms[c['perm']])
  got = ev.temporal_autocorrelation(ds).t_corr
  step = float(t[1] - t[0])
  skip = max(1, int(1.0 / step))
  lags = range(0, c['nt'], skip)
  want = np.stack([sum(a[s] * a[s - d] for s in range(d, c['nt'])) / c['nt']
                   for d in lags])
  ctx.close(values(got, dims), want, 'autocorrelation', 1e-12, (a ** 2).max())
  return True


@st.composite
def summary_case(draw):
  nd = draw(gen.pick(1, 1, 2, 2, 3))
  return dict(nd=nd, n=draw(gen.pick(6, 8)) if nd < 3 else 4, ns=draw(gen.ints(1, 2)),
              nt=draw(gen.ints(2, 3)), seed=draw(gen.seeds()),
              dt=draw(gen.pick(0.5, 1.0, 400.0)), same=draw(st.booleans()),
              q=draw(gen.pick([0.1, 1.0], [0.5])))


@P.facet(summary_case(), quick=16,
         rule='summary datasets hold the averages, errors, thresholds and '
         'correlations of every quantity, up to the time limit; non-trivial = '
         'models differ')
def summaries(c, ctx):
  rng = np.random.default_rng(c['seed'])
  nd = c['nd']
  shape = (c['ns'], c['nt']) + (c['n'],) * nd
  dims = ('sample', 'time') + ('x', 'y', 'z')[:nd]
  coords = {d: (np.arange(c['n']) + 0.5) / c['n'] for d in dims[2:]}
  coords.update(sample=np.arange(c['ns']), time=np.arange(c['nt']) * c['dt'])
  mk = lambda arrs: xarray.Dataset({k: xarray.Variable(dims, v) for k, v in
                                    zip('uvw', arrs)}, coords, {'ndim': nd})
  truth = rng.standard_normal((nd,) + shape)
  pred = truth if c['same'] else truth + rng.standard_normal(truth.shape)
  # dask is not installed here: keep the data in one piece
  chunk = xarray.Dataset.chunk
  xarray.Dataset.chunk = lambda self, *a, **k: self
  try:
    out = ev.compute_summary_dataset(mk(pred), mk(truth), c['q'])
  finally:
    xarray.Dataset.chunk = chunk
  live = np.arange(c['nt']) * c['dt'] <= 500
  truth, pred = truth[:, :, live], pred[:, :, live]
  sp = tuple(range(2, 2 + nd))
  pairs = {k: (p, t) for k, p, t in zip('uvw', pred, truth)}
  speed = [np.sqrt((v ** 2).sum(0)) for v in (pred, truth)]
  pairs['speed'] = tuple(speed)
  pairs['kinetic_energy'] = tuple(s ** 2 / 2 for s in speed)
  if nd == 2:
    curl = lambda v: ((np.roll(v[1], -1, 2) - v[1]) - (np.roll(v[0], -1, 3) - v[0])) * c['n']
    pairs['vorticity'] = curl(pred), curl(truth)
    pairs['enstrophy'] = tuple(w ** 2 / 2 for w in pairs['vorticity'])
  for name, (p, t) in pairs.items():
    mean = lambda v: v.mean((0,) + sp)
    size = np.abs(p).max() + np.abs(t).max()
    ctx.close(out[name + '_mean'].values, mean(p), f'mean {name}', 1e-11, size)
    ctx.close(out[name + '_error'].values, mean(np.abs(p - t)), f'error of {name}', 1e-11,
              size)
    both = np.stack([p, t])[:, :, 0]
    for q in c['q']:
      thr = np.quantile(both, q)
      d = np.abs(p - t)
      if c['same'] and thr >= 0 or np.abs(d - thr).min() > 1e-9 * size:
        ctx.close(out[f'{name}_within_q={q}'].values, mean((d <= thr) * 1.0),
                  f'{name} within threshold {q}', 1e-12)
    if name in ('u', 'v', 'w', 'vorticity'):
      norm = lambda v: v / np.sqrt((v ** 2).sum(sp, keepdims=True))
      ctx.close(out[name + '_correlation'].values,
                (norm(p) * norm(t)).sum(sp).mean(0), f'correlation of {name}', 1e-11, 1.0)
  for name in out.data_vars:
    if c['same'] and (name.endswith('_error')):
      bad = np.nan_to_num(core.to_np(out[name].values))
      ctx.close(bad, 0 * bad, f'{name} of identical models', 1e-15)
  if nd == 1:
    spectra = [np.abs(np.fft.fft(v[0], axis=-1)) ** 2 / 2 for v in (pred, truth)]
    for t in (0.001, 10):
      A, B = [s[..., :(c['n'] + 1) // 2] for s in spectra]
      m = np.where(B > t, np.abs(np.log(A) - np.log(B)),
                   np.where(A > t, np.abs(np.log(A)), 0)).sum(-1).mean(0)
      ctx.close(out['energy_spectrum_%f' % t].values, m, f'spectrum metric {t}', 1e-9,
                np.abs(m).max() + 1)
    if c['same']:
      ctx.close(out['u_x_correlation'].values, np.zeros(live.sum()), 'spatial', 1e-12, 1.0)
      ctx.close(out['autocorrelation'].values, np.zeros(live.sum()), 'temporal', 1e-12, 1.0)
  ctx.label(f'{nd}D')
  return not c['same']


@st.composite
def loss_case(draw):
  tax, bax = draw(gen.pick((0, 1), (1, 0), (2, 0), (0, 2), (2, 1)))
  return dict(shape=draw(gen.pick([2], [3, 2])), T=draw(gen.pick(3, 1)),
              B=draw(gen.pick(2, 3)), comps=draw(gen.pick(1, 2)), seed=draw(gen.seeds()),
              n=draw(gen.pick(None, 0, 1, 2, -1)), scale=draw(gen.pick(1.0, 0.5, 3.0)),
              tax=tax, bax=bax, same=draw(gen.pick(False, False, False, True)))


@P.facet(loss_case(), quick=80, shards=2,
         rule='losses and correlations for time and batch along any axis, reduced '
         'over local and distributed batches; non-trivial = two samples and frames')
def losses(c, ctx):
  rng = np.random.default_rng(c['seed'])
  T, B, shape = c['T'], c['B'], tuple(c['shape'])
  # canonical layout: component, batch, time, space
  x, y = rng.standard_normal((2, c['comps'], B, T) + shape)
  if c['same']:
    x = y
  nd = len(shape)
  tax, bax = c['tax'], c['bax']
  put = lambda a: tuple(jnp.asarray(np.moveaxis(q, (0, 1), (bax, tax))) for q in a)
  X, Y = put(x), put(y)
  n = c['n']
  d2 = (x - y) ** 2 * c['scale']
  got = metrics.l2_loss_cumulative(X, Y, n, c['scale'], tax)
  ctx.close(float(got), d2[:, :, :n].sum(), 'cumulative loss', 1e-12, d2.sum() + 1)
  ctx.true(float(got) >= 0 and (not c['same'] or float(got) == 0), 'loss of a match')
  m = 0 if n is None else n
  if -T <= m < T:
    got = metrics.l2_loss_single_step(X, Y, m, c['scale'], tax)
    ctx.close(float(got), d2[:, :, m].sum(), 'loss at one step', 1e-12, d2.sum() + 1)
    p, q = x[:, :, m], y[:, :, m]
    ax = (0,) + tuple(range(2, 2 + nd))
    norm = lambda a: np.sqrt((a ** 2).sum(ax))
    want = ((p * q).sum(ax) / norm(p) / norm(q)).mean()
    got = float(metrics.correlation_single_step(X, Y, m, tax, bax))
    ctx.close(got, want, 'correlation at one step', 1e-11, 1.0)
    ctx.le(abs(got), 1.0, 'within [-1, 1]', 1e-12)
    scaled = metrics.correlation_single_step(tuple(4 * a for a in X), Y, m, tax, bax)
    ctx.close(float(scaled), got, 'scaled prediction', 1e-11, 1.0)
  # quadratic in the error
  doubled = tuple(b + 2 * (a - b) for a, b in zip(X, Y))
  ctx.close(float(metrics.l2_loss_cumulative(doubled, Y, n, c['scale'], tax)),
            4 * d2[:, :, :n].sum(), 'doubled error', 1e-11, 4 * d2.sum() + 1)
  # reductions over the batch
  inner = tax - (tax > bax)
  each = d2[:, :, :n].sum((0,) + tuple(range(2, 3 + nd)))
  fn = functools.partial(metrics.l2_loss_cumulative, n=n, scale=c['scale'],
                         time_axis=inner)
  ctx.close(float(metrics.local_mean(fn, batch_axis=bax)(X, Y)), each.mean(),
            'mean over the batch', 1e-12, each.max() + 1)
  ctx.close(float(metrics.local_sum(fn, batch_axis=bax)(X, Y)), each.sum(),
            'sum over the batch', 1e-12, each.sum() + 1)
  for red, want in ((metrics.distributed_mean, each.mean()),
                    (metrics.distributed_sum, each.sum())):
    got = jax.vmap(red(fn, axis_name='b'), bax, axis_name='b')(X, Y)
    ctx.close(got, np.full(B, want), 'over a distributed batch', 1e-12, each.sum() + 1)
  return B > 1 and T > 1 and not c['same']
