"""C22: datasets, spectra and correlations."""
import itertools
import math

import hypothesis.strategies as st
import jax.numpy as jnp
import numpy as np
import xarray

from harness import core, gen
from jax_cfd.base import boundaries
from jax_cfd.base import grids
from jax_cfd.data import xarray_utils as xu

P = core.Property('C22')
LENGTHS = (1.0, 2 * np.pi, 0.37, 11.0)


@st.composite
def conv_case(draw):
  nd = draw(gen.ints(1, 3))
  square = draw(st.booleans())
  n = draw(gen.ints(1, 4))
  return dict(shape=[n] * nd if square else [draw(gen.ints(1, 4)) for _ in range(nd)],
              L=draw(gen.pick(*LENGTHS)), lo=draw(gen.pick(0.0, 2.5)), seed=draw(gen.seeds()),
              samples=draw(st.booleans()), scalar=draw(st.booleans()),
              grid=draw(st.booleans()), time=draw(st.booleans()),
              kind=draw(gen.pick('array', 'jax', 'garray', 'gvar')),
              prefix=draw(gen.pick('', 'p_')), nt=draw(gen.ints(1, 3)),
              ns=draw(gen.ints(1, 3)))


@P.facet(conv_case(), quick=120,
         rule='trajectories become datasets with the same values, coordinates, '
         'offsets and attributes, for every container; non-trivial = two or more '
         'points')
def conversion(c, ctx):
  nd, shape = len(c['shape']), tuple(c['shape'])
  g = grids.Grid(shape, domain=[(c['lo'], c['lo'] + c['L'])] * nd)
  lead = ((c['ns'],) if c['samples'] else ()) + (c['nt'],)
  scalar = c['scalar'] and c['grid']
  count = nd + scalar
  arrs = np.random.default_rng(c['seed']).standard_normal((count,) + lead + shape)
  offs = ([g.cell_center] if scalar else []) + list(g.cell_faces)
  traj = []
  for a, o in zip(arrs, offs):
    if c['kind'] == 'jax':
      a = jnp.asarray(a)
    elif c['kind'] != 'array':
      a = grids.GridArray(jnp.asarray(a), o, g)
      if c['kind'] == 'gvar':
        a = grids.GridVariable(a, boundaries.periodic_boundary_conditions(nd))
    traj.append(a)
  t = np.cumsum(np.linspace(0.3, 1, c['nt'])) if c['time'] else None
  attrs = {'note': 'x', 'ndim': nd}
  ds = xu.velocity_trajectory_to_xarray(
      tuple(traj), g if c['grid'] else None, t, attrs, samples=c['samples'],
      prefix_name=c['prefix'])
  names = (['c'] if scalar else []) + ['u', 'v', 'w'][:nd]
  ctx.eq(sorted(ds.data_vars), sorted(c['prefix'] + n for n in names), 'variables')
  dims = (('sample',) if c['samples'] else ()) + ('time',) + ('x', 'y', 'z')[:nd]
  for name, a, o in zip(names, arrs, offs):
    v = ds[c['prefix'] + name]
    ctx.eq(v.dims, dims, 'dimensions')
    ctx.true((core.to_np(v.values) == a).all(), f'values of {name}')
    if c['grid'] and (name != 'c' or c['kind'] in ('garray', 'gvar')):
      ctx.eq(tuple(v.attrs['offset']), tuple(o), f'offset of {name}')
  ctx.eq(dict(ds.attrs), attrs, 'attributes')
  if c['grid']:
    for d, n in zip('xyz', shape):
      want = c['lo'] + (np.arange(n) + 0.5) * c['L'] / n
      ctx.close(ds.coords[d].values, want, f'coordinate {d}', 1e-12, c['lo'] + c['L'])
  else:
    ctx.true(not any(d in ds.coords for d in 'xyz'), 'no spatial coordinates')
  ctx.eq('time' in ds.coords, c['time'], 'time coordinate')
  if c['time']:
    ctx.true((ds.coords['time'].values == t).all(), 'times')
  ctx.eq('sample' in ds.coords, c['samples'], 'sample coordinate')
  if c['samples']:
    ctx.eq(list(ds.coords['sample'].values), list(range(c['ns'])), 'samples')
  ctx.label(c['kind'])
  return core.prod(shape) > 1


@P.facet(gen.dct(ndim=gen.ints(1, 3), n=gen.ints(1, 64), m=gen.ints(1, 64),
                 L=gen.pick(*LENGTHS), how=gen.pick('size', 'multiple', 'rectangle', 'none'),
                 aspect=gen.pick(1.0, 2.0, 0.3), json=st.booleans()), quick=100,
         rule='grids rebuilt from attributes; non-trivial = a grid was rebuilt')
def attributes(c, ctx):
  attrs = {'ndim': c['ndim'], 'other': 'ignored'}
  want = None
  if c['how'] == 'size':
    attrs.update(save_grid_size=c['n'], domain_size=c['L'])
    want = grids.Grid((c['n'],) * c['ndim'], domain=[(0, c['L'])] * c['ndim'])
  elif c['how'] == 'multiple':
    attrs.update(save_grid_size=c['n'], domain_size_multiple=3)
    want = grids.Grid((c['n'],) * c['ndim'], domain=[(0, 6 * np.pi)] * c['ndim'])
  elif c['how'] == 'none':
    attrs.update(save_grid_size=c['n'])
  else:
    attrs.update(ndim=2, save_grid_size_x=c['n'], save_grid_size_y=c['m'],
                 aspect_ratio=c['aspect'])
    want = grids.Grid((c['n'], c['m']), domain=[(0, c['aspect']), (0, 1)])
  if want is None:
    ctx.raises(ValueError, lambda: xu.grid_from_attrs(attrs), 'no domain size')
    return False
  got = xu.grid_from_attrs(attrs)
  ctx.eq(got.shape, want.shape, 'shape')
  ctx.close(np.array(got.domain), np.array(want.domain), 'domain', 1e-12)
  # and through the attributes of a dataset
  ds = xarray.Dataset(attrs=attrs)
  ctx.eq(xu.grid_from_attrs(ds.attrs), got, 'grid of a dataset')
  ctx.label(c['how'])
  return True


@st.composite
def data_case(draw, nd=None, sizes=(2, 3, 4, 5, 6, 8)):
  nd = draw(gen.ints(1, 3)) if nd is None else nd
  extra = draw(gen.pick([], ['time'], ['sample', 'time'], ['time', 'model']))
  shape = [draw(gen.pick(*(sizes if nd < 3 else (2, 3, 4)))) for _ in range(nd)]
  return dict(nd=nd, extra=extra, shape=shape, n_extra=draw(gen.ints(1, 3)),
              L=[draw(gen.pick(*LENGTHS)) for _ in range(nd)], lo=draw(gen.pick(0.0, -3.0)),
              f=draw(gen.field(['noise', 'ints', 'spike', 'const'])),
              perm=draw(st.integers(0, 23)), roll=draw(gen.ints(-3, 3)))


def dataset(c):
  """Dataset of velocities, with dimensions in some order."""
  nd = c['nd']
  dims = tuple(c['extra']) + ('x', 'y', 'z')[:nd]
  shape = (c['n_extra'],) * len(c['extra']) + tuple(c['shape'])
  out = {}
  arrs = []
  for i in range(nd):
    a = gen.arr(dict(c['f'], seed=c['f']['seed'] + i), shape)
    arrs.append(a)
    out['uvw'[i]] = xarray.Variable(dims, a)
  coords = {d: c['lo'] + (np.arange(n) + 0.5) * L / n
            for d, n, L in zip('xyz', c['shape'], c['L'])}
  coords.update({d: np.arange(c['n_extra']) * 1.0 for d in c['extra']})
  ds = xarray.Dataset(out, coords)
  perms = list(itertools.permutations(dims))
  ds = ds.transpose(*perms[c['perm'] % len(perms)])
  return ds, arrs, dims


def values(array, dims):
  return core.to_np(array.transpose(*dims).values)


@P.facet(data_case(), quick=120,
         rule='vorticity, enstrophy, speed, energy and normalization point by '
         'point, whatever the order of the dimensions; non-trivial = non-constant')
def pointwise(c, ctx):
  ds, arrs, dims = dataset(c)
  e = len(c['extra'])
  sq = sum(a ** 2 for a in arrs)
  ctx.close(values(xu.speed(ds), dims), np.sqrt(sq), 'speed', 1e-13)
  ctx.close(values(xu.kinetic_energy(ds), dims), sq / 2, 'kinetic energy', 1e-13)
  ctx.eq((xu.speed(ds).name, xu.kinetic_energy(ds).name), ('speed', 'kinetic_energy'),
         'names')
  z = ds.u + 1j * (ds.v if c['nd'] > 1 else 2 * ds.u)
  other = arrs[1] if c['nd'] > 1 else 2 * arrs[0]
  ctx.close(values(xu.magnitude(z), dims), np.hypot(arrs[0], other), 'complex magnitude',
            1e-12)
  ctx.close(values(xu.magnitude(z, ds.u, ds.u), dims),
            np.sqrt(3 * arrs[0] ** 2 + other ** 2), 'magnitude of three', 1e-12)
  if c['nd'] == 2:
    u, v = arrs
    hx, hy = [L / n for L, n in zip(c['L'], c['shape'])]
    w = (np.roll(v, -1, e) - v) / hx - (np.roll(u, -1, e + 1) - u) / hy
    scale = np.abs(arrs).max() * (1 / hx + 1 / hy) + 1e-300
    got = xu.vorticity_2d(ds)
    ctx.close(values(got, dims), w, 'vorticity', 1e-11, scale)
    ctx.close(values(xu.enstrophy_2d(ds), dims), w ** 2 / 2, 'enstrophy', 1e-11, scale ** 2)
    for d in 'xy':
      ctx.true((got.coords[d].values == ds.coords[d].values).all(), 'coordinates')
    ctx.close(values(got, dims).sum((e, e + 1)), np.zeros(w.shape[:e]),
              'total circulation', 1e-11, scale * w.size)
  state = ('x', 'y', 'z')[:c['nd']]
  norm = np.sqrt((arrs[0] ** 2).sum(tuple(range(e, e + c['nd'])), keepdims=True))
  if (norm > 0).all():
    ctx.close(values(xu.normalize(ds.u, state), dims), arrs[0] / norm, 'normalized', 1e-13)
  if e:
    n0 = np.sqrt((arrs[0] ** 2).sum(0, keepdims=True))
    if (n0 > 0).all():
      ctx.close(values(xu.normalize(ds.u, (c['extra'][0],)), dims), arrs[0] / n0,
                'normalized along another dimension', 1e-13)
  return gen.nonconstant(arrs[0])


@P.facet(data_case(), quick=120,
         rule='Fourier transforms with ascending labelled wavenumbers, Parseval, '
         'energy spectra; non-trivial = non-constant')
def spectra(c, ctx):
  ds, arrs, dims = dataset(c)
  e, nd = len(c['extra']), c['nd']
  kd = ('kx', 'ky', 'kz')[:nd]
  axes = tuple(range(e, e + nd))
  total = core.prod(c['shape'])
  spec = xu.energy_spectrum(ds)
  want = 0.0
  for i, a in enumerate(arrs):
    hat = xu.fourier_transform(ds['uvw'[i]])
    ctx.eq(set(hat.dims), set(c['extra']) | set(kd), 'dimensions')
    for d, n, L in zip(kd, c['shape'], c['L']):
      k = hat.coords[d].values
      ctx.close(k, 2 * np.pi / L * (np.arange(n) - n // 2), f'wavenumbers {d}', 1e-9)
    ref = np.fft.fftshift(np.fft.fftn(a, axes=axes), axes=axes)
    size = np.abs(a).max() * total + 1e-300
    got = values(hat, tuple(c['extra']) + kd)
    ctx.close(got, ref, f'transform of {"uvw"[i]}', 1e-12, size)
    ctx.close((np.abs(got) ** 2).sum(axes), total * (a ** 2).sum(axes), 'Parseval', 1e-11,
              size ** 2)
    want = want + np.abs(ref) ** 2 / 2
  ctx.close(values(spec, tuple(c['extra']) + kd), want, 'energy spectrum', 1e-11,
            size ** 2 + 1e-300)
  # a single wave sits at its wavenumber
  p = [n // 3 for n in c['shape']]
  x = np.meshgrid(*[ds.coords[d].values for d in 'xyz'[:nd]], indexing='ij')
  wave = np.exp(1j * sum(2 * np.pi * q / L * xx for q, L, xx in zip(p, c['L'], x)))
  da = xarray.DataArray(wave, {d: ds.coords[d].values for d in 'xyz'[:nd]},
                        ('x', 'y', 'z')[:nd])
  f = np.abs(xu.fourier_transform(da))
  at = f.sel(**{d: 2 * np.pi * q / L for d, q, L in zip(kd, p, c['L'])}, method='nearest')
  ctx.close(float(at), total, 'amplitude of a wave', 1e-10)
  ctx.close(float(f.sum()), total, 'all other modes', 1e-8)
  return gen.nonconstant(arrs[0])


@P.facet(data_case(), quick=120,
         rule='periodic correlations equal direct sums, are bounded by zero lag and '
         'do not see translations; non-trivial = non-constant')
def correlations(c, ctx):
  ds, arrs, dims = dataset(c)
  e, nd = len(c['extra']), c['nd']
  ax = c['f']['seed'] % nd
  d, n, L = 'xyz'[ax], c['shape'][ax], c['L'][ax]
  out = xu.velocity_spatial_correlation(ds, d)
  ctx.eq(sorted(out.data_vars), sorted(f'{u}_{d}_correlation' for u in 'uvw'[:nd]), 'names')
  odims = tuple('d' + x if x == d else x for x in dims)
  for name, a in zip('uvw', arrs):
    direct = np.stack([(a * np.roll(a, -s, e + ax)).sum(e + ax) / n
                       for s in range(n // 2)], e + ax)
    v = out[f'{name}_{d}_correlation']
    size = np.abs(a).max() ** 2 + 1e-300
    got = values(v, odims)
    ctx.close(got, direct, f'correlation of {name}', 1e-11, size)
    ctx.close(v.coords['d' + d].values, np.arange(n // 2) * L / n, 'displacements', 1e-9,
              L)
    ctx.le(np.abs(got), np.take(got, [0], e + ax), 'largest at zero lag', 1e-11 * size)
    one = xu.spatial_autocorrelation(ds[name], d)
    ctx.close(values(one, odims), got, 'one variable at a time', 1e-12, size)
  a = arrs[0]
  moved = ds.roll({d: c['roll']}, roll_coords=False)
  ctx.close(values(xu.spatial_autocorrelation(moved.u, d), odims),
            values(xu.spatial_autocorrelation(ds.u, d), odims), 'translated field', 1e-11,
            np.abs(a).max() ** 2 + 1e-300)
  u, v = [x.reshape(-1)[:n] for x in (a, arrs[-1][..., ::-1])]
  m = len(u)
  want = [(u * np.roll(v, -s)).sum() for s in range(m)]
  ctx.close(xu.periodic_correlate(u, v), np.array(want), 'correlation of two signals', 1e-11,
            m * np.abs(arrs).max() ** 2 + 1e-300)
  return gen.nonconstant(a)


@st.composite
def bin_case(draw):
  nd = draw(gen.ints(1, 3))
  return dict(extra=draw(gen.ints(0, 2)), shape=[draw(gen.ints(1, 4)) for _ in range(nd)],
              bins=draw(gen.ints(1, 5)), seed=draw(gen.seeds()), perm=draw(gen.ints(0, 5)))


@P.facet(bin_case(), quick=100,
         rule='sums over bins equal explicit loops over right-closed bins, values '
         'outside all bins dropped; non-trivial = two bins are hit')
def binned_sums(c, ctx):
  rng = np.random.default_rng(c['seed'])
  nd = len(c['shape'])
  group = rng.integers(-1, 2 * c['bins'] + 2, c['shape']) / 2
  edges = np.arange(c['bins'] + 1) * 1.0
  labels = rng.standard_normal(c['bins'])
  lead = [2, 3][:c['extra']]
  a = rng.standard_normal(lead + c['shape'])
  dims = ['s', 't'][:c['extra']] + ['a', 'b', 'd'][:nd]
  array = xarray.DataArray(a, dims=dims)
  perms = list(itertools.permutations(dims))
  array = array.transpose(*perms[c['perm'] % len(perms)])
  g = xarray.DataArray(group, dims=['a', 'b', 'd'][:nd], name='r')
  out = xu.groupby_bins_sum(array, g, edges, labels)
  want = np.zeros(lead + [c['bins']])
  hit = set()
  for idx in np.ndindex(*c['shape']):
    for j in range(c['bins']):
      if edges[j] < group[idx] <= edges[j + 1]:
        want[..., j] += a[(Ellipsis,) + idx]
        hit.add(j)
  ctx.eq(set(out.dims), set(['s', 't'][:c['extra']] + ['r_bins']), 'dimensions')
  got = values(out, ['s', 't'][:c['extra']] + ['r_bins'])
  ctx.close(got, want, 'sum over bins', 1e-12, np.abs(a).sum())
  ctx.true((out.coords['r_bins'].values == labels).all(), 'labels')
  return len(hit) > 1


@st.composite
def iso_case(draw):
  c = draw(data_case(sizes=(6, 8, 9, 12)))
  if c['nd'] == 3:
    c['shape'] = [draw(gen.pick(4, 6, 5)) for _ in range(3)]
  if draw(st.booleans()):
    c['shape'] = [c['shape'][0]] * c['nd']
    c['L'] = [c['L'][0]] * c['nd']
  c['f'] = draw(gen.field(['noise']))
  c['method'] = draw(gen.pick('default', 'binsum', 'interpolation', 'bad'))
  c['quad'] = draw(gen.pick(100, 7, 16))
  c['interp'] = draw(gen.pick('linear', 'linear', 'nearest'))
  return c


def bilinear(table, kx, ky, x, y):
  i = np.clip(np.searchsorted(kx, x) - 1, 0, len(kx) - 2)
  j = np.clip(np.searchsorted(ky, y) - 1, 0, len(ky) - 2)
  s, t = (x - kx[i]) / (kx[i + 1] - kx[i]), (y - ky[j]) / (ky[j + 1] - ky[j])
  return ((1 - s) * (1 - t) * table[..., i, j] + s * (1 - t) * table[..., i + 1, j]
          + (1 - s) * t * table[..., i, j + 1] + s * t * table[..., i + 1, j + 1])


@P.facet(iso_case(), quick=150,
         rule='isotropic spectra: sums over shells of wavenumber magnitude, or the '
         'circumference times the mean on circles of the log-linear interpolant; '
         'non-trivial = two shells or more')
def isotropic(c, ctx):
  ds, arrs, dims = dataset(c)
  e, nd = len(c['extra']), c['nd']
  spec = xu.energy_spectrum(ds)
  kd = ('kx', 'ky', 'kz')[:nd]
  want_dims = tuple(c['extra']) + kd
  E = values(spec, want_dims)
  ks = [spec.coords[d].values for d in kd]
  dk = max(k[1] - k[0] for k in ks)
  if nd == 2 and min(k.max() for k in ks) < 1.1 * dk:
    raise core.Discard  # too coarse for a single circle
  if c['method'] == 'bad':
    ctx.raises(ValueError, lambda: xu.isotropize(spec, 'typo'), 'unknown method')
    ctx.raises(ValueError, lambda: xu.isotropize(ds.u), 'no wavenumbers')
    if nd != 2:
      ctx.raises(ValueError, lambda: xu.isotropize(spec, 'interpolation'), 'needs 2D')
    return False
  if c['method'] == 'default':
    out = xu.isotropic_energy_spectrum(ds, tuple(c['extra'][:1]))
    if e:
      E = E.mean(0)
      e -= 1
      want_dims = want_dims[1:]
    binsum = nd != 2
    quad, interp = 100, 'linear'
  else:
    binsum = c['method'] == 'binsum' or nd != 2
    quad, interp = c['quad'], c['interp']
    out = (xu.isotropize(spec, 'binsum') if binsum else
           xu.isotropize(spec, 'interpolation', interp, quad))
  k = out.coords['k'].values
  # shells that fit inside all axes
  reach = min(x.max() for x in ks)
  ctx.close(k, dk * np.arange(1, len(k) + 1), 'shells', 1e-12)
  # (half-way cases must not depend on rounding errors)
  ctx.eq(len(k), max(math.ceil(reach / dk - 1 - 1e-5), 0), f'shells up to {reach / dk}')
  if not len(k):
    return False
  got = values(out, want_dims[:e] + ('k',))
  ctx.finite(got, 'spectrum')
  mag = np.sqrt(sum(x ** 2 for x in np.meshgrid(*ks, indexing='ij')))
  axes = tuple(range(e, e + nd))
  if binsum:
    r = mag / dk - 0.5
    if (np.abs(r - np.rint(r)) < 1e-9).any():
      raise core.Discard  # on the edge of two shells
    shell = np.ceil(r)
    ref = np.stack([(E * (shell == j + 1)).sum(axes) for j in range(len(k))], -1)
    ctx.close(got, ref, 'sum over shells', 1e-11, E.sum())
    inside = (shell >= 1) & (shell <= len(k))
    ctx.close(got.sum(-1), (E * inside).sum(axes), 'total energy', 1e-11, E.sum())
  else:
    if interp == 'nearest' or (E <= 0).any():
      raise core.Discard
    a = 2 * np.pi * np.arange(quad) / quad
    x, y = k[:, None] * np.cos(a), k[:, None] * np.sin(a)
    dens = np.exp(bilinear(np.log(E), ks[0], ks[1], x, y))
    ref = 2 * np.pi * k * dens.mean(-1)
    ctx.close(got, ref, 'mean over circles', 1e-9, np.abs(ref).max())
  ctx.label('binsum' if binsum else 'interpolation')
  return len(k) > 1
