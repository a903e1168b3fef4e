"""C04: difference operators."""
import hypothesis.strategies as st
import numpy as np

from harness import core, gen
from jax_cfd.base import finite_differences as fd
from jax_cfd.base import grids

P = core.Property('C04')


def ref_diff(a, c, ax, kind):
  h = gen.steps_of(c['g'])[ax]
  up, dn = gen.ext_shift(a, c, ax, 1), gen.ext_shift(a, c, ax, -1)
  if kind == 'forward':
    return (up - a) / h
  if kind == 'backward':
    return (a - dn) / h
  return (up - dn) / (2 * h)


SHIFT = {'forward': 0.5, 'backward': -0.5, 'central': 0.0}
FNS = {'forward': fd.forward_difference, 'backward': fd.backward_difference,
       'central': fd.central_difference}


@P.facet(gen.variable(), quick=150, shards=3,
         rule='one variable of any alignment and boundary type; reference '
         'stencils; non-trivial = non-constant data or inhomogeneous wall')
def stencils(c, ctx):
  a = gen.var_data(c)
  g = gen.mk_grid(c['g'])
  u = gen.gvar(a, c['off'], g, gen.mk_bc(c['bc']))
  scale = np.abs(a).max() + 4
  hs = gen.steps_of(c['g'])
  lap = 0
  for ax in range(g.ndim):
    ctx.label(f'{c["bc"]["types"][ax][0]}@{c["off"][ax]}')
    for kind, fn in FNS.items():
      want = ref_diff(a, c, ax, kind)
      got = fn(u, ax)
      ctx.close(got, want, f'{kind} difference axis {ax}', 1e-11,
                scale / hs[ax])
      off = np.array(c['off'])
      off[ax] += SHIFT[kind]
      ctx.close(np.array(got.offset), off, f'{kind} offset', 1e-12, 2)
      ctx.true(got.grid == g, 'grid')
    lap = lap + (gen.ext_shift(a, c, ax, 1) + gen.ext_shift(a, c, ax, -1)
                 - 2 * a) / hs[ax] ** 2
  got = fd.laplacian(u)
  ctx.close(got, lap, 'laplacian', 1e-11, scale / min(hs) ** 2)
  ctx.close(np.array(got.offset), np.array(c['off']), 'laplacian offset', 1e-12, 2)
  for kind, fn in FNS.items():
    for axes in (None, tuple(range(g.ndim))[::-1]):
      res = fn(u) if axes is None else fn(u, axes)
      seq = tuple(range(g.ndim)) if axes is None else axes
      ctx.eq(len(res), len(seq), 'number of components')
      for ax, r in zip(seq, res):
        ctx.close(r, ref_diff(a, c, ax, kind), f'{kind} over axes', 1e-11,
                  scale / hs[ax])
  return gen.nonconstant(a) or any(v for vs in c['bc']['values'] for v in vs)


@st.composite
def vector(draw, ndims=(1, 2, 3), stagger=None,
           types=('dirichlet', 'periodic', 'neumann'), pool=None):
  g = draw(gen.grid(ndims, pool or {1: [(3,), (5,)], 2: [(4, 3), (3, 5)],
                                    3: [(3, 4, 2)]}))
  d = len(g['shape'])
  place = stagger or draw(gen.pick('faces', 'faces', 'center', 'any'))
  comps = []
  kinds = [draw(st.sampled_from(list(types))) for _ in range(d)]
  for i in range(d):
    b = dict(types=[], values=[])
    off = []
    for ax in range(d):
      t = kinds[ax]
      o = {'faces': 1.0 if ax == i else 0.5, 'center': 0.5}.get(place)
      if o is None:
        o = draw(gen.pick(0.0, 0.5, 1.0))
      if t == 'neumann' and o != 0.5:
        t = 'dirichlet'
      b['types'].append([t, t])
      b['values'].append([0.0, 0.0] if t == 'periodic' else
                         [draw(st.sampled_from(gen.BC_VALUES)),
                          draw(st.sampled_from(gen.BC_VALUES))])
      off.append(o)
    comps.append(dict(g=g, bc=b, off=off, f=draw(gen.field())))
  return dict(g=g, comps=comps, place=place)


def mk_vector(c):
  g = gen.mk_grid(c['g'])
  datas = [gen.var_data(k) for k in c['comps']]
  return g, datas, tuple(gen.gvar(a, k['off'], g, gen.mk_bc(k['bc']))
                         for a, k in zip(datas, c['comps']))


def k_wall(c, ax):
  return c['bc']['types'][ax][0] != 'periodic'


def ref_linear_center(a, c):
  """Linear interpolation of the variable to the cell centre."""
  off = list(c['off'])
  for ax in range(a.ndim):
    cc = dict(c, off=off)
    d = 0.5 - off[ax]
    if d == 0:
      continue
    lo, hi = (0, 1) if d > 0 else (-1, 0)
    if k_wall(cc, ax):  # wall values are the boundary condition's
      a = gen.imposed(a, cc, axes=[ax], sides=(1,))
    a = 0.5 * (gen.ext_shift(a, cc, ax, lo) + gen.ext_shift(a, cc, ax, hi))
    off = off[:ax] + [0.5] + off[ax + 1:]
  return a


@P.facet(vector(), quick=120, shards=3,
         rule='vector fields on faces, centres or mixed offsets; divergence, '
         'gradient and curl against references; non-trivial = some component '
         'is non-constant')
def vector_operators(c, ctx):
  g, data, v = mk_vector(c)
  d = g.ndim
  hs = gen.steps_of(c['g'])
  scale = sum(np.abs(a).max() + 4 for a in data) / min(hs)
  back = [ref_diff(a, k, i, 'backward')
          for i, (a, k) in enumerate(zip(data, c['comps']))]
  cent = [ref_diff(a, k, i, 'central')
          for i, (a, k) in enumerate(zip(data, c['comps']))]
  ctx.label(c['place'])
  offs = {'faces': None, 'center': None}
  del offs
  if c['place'] == 'faces':
    div = fd.divergence(v)
    ctx.close(div, sum(back), 'divergence', 1e-11, scale)
    ctx.eq(tuple(div.offset), (0.5,) * d, 'divergence offset')
    # the total of the divergence is the net flux through the walls
    total = float(np.sum(np.asarray(div.data)))
    flux = 0.0
    for i, (a, k) in enumerate(zip(data, c['comps'])):
      if k['bc']['types'][i][0] == 'periodic':
        continue
      lo, hi = k['bc']['values'][i]
      faces = np.take(a, 0, axis=i).size
      flux += (hi - lo) * faces / hs[i]
    ctx.close(np.array(total), np.array(flux), 'total divergence', 1e-11,
              scale * core.prod(g.shape))
  if c['place'] == 'center':
    div = fd.centered_divergence(v)
    ctx.close(div, sum(cent), 'centered divergence', 1e-11, scale)
    ctx.eq(tuple(div.offset), (0.5,) * d, 'centered divergence offset')
  # d v[j] / d x[i], all at the cell centre when the components are aligned so
  # that differences land there.
  rows = [fd.gradient_tensor(u) for u in v]
  for j, (row, a, k) in enumerate(zip(rows, data, c['comps'])):
    ctx.eq(row.shape, (d,), 'gradient shape')
    for i in range(d):
      o = k['off'][i]
      if o == 0.5:
        cc = dict(k, off=[0.5] * d)
        want = ref_diff(ref_linear_center(a, k), cc, i, 'central')
      else:
        want = ref_diff(a, k, i, 'forward' if o == 0.0 else 'backward')
      ctx.close(row[i], want, f'gradient d v{j}/dx{i}', 1e-11, scale)
  if c['place'] != 'any':
    t = fd.gradient_tensor(v)
    ctx.eq(t.shape, (d, d), 'gradient tensor shape')
    for i in range(d):
      for j in range(d):
        ctx.close(t[i, j], rows[j][i], f'gradient tensor [{i},{j}]', 1e-12,
                  scale)
  if d == 2 and c['place'] == 'faces':
    curl = fd.curl_2d(v)
    want = (ref_diff(data[1], c['comps'][1], 0, 'forward')
            - ref_diff(data[0], c['comps'][0], 1, 'forward'))
    ctx.close(curl, want, 'curl 2d', 1e-11, scale)
    ctx.eq(tuple(curl.offset), (1.0, 1.0), 'curl offset')
  if d == 3 and c['place'] == 'faces':
    curl = fd.curl_3d(v)
    f = lambda i, ax: ref_diff(data[i], c['comps'][i], ax, 'forward')
    for got, want, off in zip(
        curl, (f(2, 1) - f(1, 2), f(0, 2) - f(2, 0), f(1, 0) - f(0, 1)),
        ((0.5, 1, 1), (1, 0.5, 1), (1, 1, 0.5))):
      ctx.close(got, want, 'curl 3d', 1e-11, scale)
      ctx.close(np.array(got.offset), np.array(off), 'curl offset', 1e-12)
  wrong = v + (v[0],)
  for fn in (fd.divergence, fd.centered_divergence):
    ctx.raises(ValueError, lambda: fn(wrong), 'divergence of a wrong length')
  ctx.raises(ValueError, lambda: fd.curl_2d(wrong[:1] * 3), 'curl_2d of length 3')
  ctx.raises(ValueError, lambda: fd.curl_3d(v[:1] * 2), 'curl_3d of length 2')
  return any(gen.nonconstant(a) for a in data)


@P.facet(vector(stagger='faces', types=('periodic',), ndims=(2, 3),
                pool={2: [(4, 3), (3, 5), (1, 4)], 3: [(3, 4, 2), (4, 3, 5)]}),
         quick=120, shards=2,
         rule='periodic staggered vectors; exact discrete identities; '
         'non-trivial = non-constant')
def identities(c, ctx):
  g, data, v = mk_vector(c)
  d = g.ndim
  bc = gen.periodic_bc(d)
  hs = gen.steps_of(c['g'])
  h = min(hs)
  scale = max(np.abs(a).max() for a in data)
  p = gen.gvar(data[0], (0.5,) * d, g, bc)
  q = gen.gvar(data[1], (0.5,) * d, g, bc)
  wrap = lambda x: grids.GridVariable(x, bc)
  grad = tuple(wrap(x) for x in fd.forward_difference(p))
  # div grad = laplacian
  ctx.close(fd.divergence(grad), fd.laplacian(p), 'div grad = laplacian', 1e-11,
            scale / h ** 2)
  ctx.close(np.sum(np.asarray(fd.divergence(v).data)), 0.0,
            'periodic total divergence', 1e-11, scale / h * core.prod(g.shape))
  ctx.close(np.sum(np.asarray(fd.laplacian(p).data)), 0.0,
            'periodic total laplacian', 1e-11, scale / h ** 2 * core.prod(g.shape))
  # summation by parts
  for ax in range(d):
    f = np.asarray(fd.forward_difference(p, ax).data)
    b = np.asarray(fd.backward_difference(q, ax).data)
    cf = np.asarray(fd.central_difference(p, ax).data)
    cq = np.asarray(fd.central_difference(q, ax).data)
    tot = scale ** 2 / hs[ax] * core.prod(g.shape)
    ctx.close(np.sum(f * data[1]), -np.sum(data[0] * b), 'adjointness', 1e-11, tot)
    ctx.close(np.sum(cf * data[1]), -np.sum(data[0] * cq),
              'antisymmetry', 1e-11, tot)
  lp = np.sum(np.asarray(fd.laplacian(p).data) * data[1])
  lq = np.sum(np.asarray(fd.laplacian(q).data) * data[0])
  ctx.close(lp, lq, 'laplacian is self-adjoint', 1e-11,
            scale ** 2 / h ** 2 * core.prod(g.shape))
  ctx.le(np.sum(np.asarray(fd.laplacian(p).data) * data[0]), 0.0,
         'laplacian is negative', 1e-11 * scale ** 2 / h ** 2 * core.prod(g.shape))
  if d == 2:
    ctx.close(fd.curl_2d(grad), np.zeros(g.shape), 'curl grad = 0', 1e-11,
              scale / h ** 2)
    psi = gen.gvar(data[0], (1.0, 1.0), g, bc)
    w = (wrap(fd.backward_difference(psi, 1)),
         wrap(-fd.backward_difference(psi, 0)))
    ctx.close(fd.divergence(w), np.zeros(g.shape), 'div of a stream function',
              1e-11, scale / h ** 2)
  else:
    for comp in fd.curl_3d(grad):
      ctx.close(comp, np.zeros(g.shape), 'curl grad = 0', 1e-11, scale / h ** 2)
    curl = fd.curl_3d(v)
    tot = sum(np.asarray(fd.forward_difference(wrap(x), i).data)
              for i, x in enumerate(curl))
    ctx.close(tot, np.zeros(g.shape), 'forward div of curl = 0', 1e-11,
              scale / h ** 2)
  return any(gen.nonconstant(a) for a in data)


@P.facet(gen.dct(g=gen.grid((1, 2, 3), {1: [(5,), (8,)], 2: [(5, 4)],
                                        3: [(4, 4, 5)]}),
                 coef=st.lists(gen.floats(-2, 2), min_size=12, max_size=12),
                 off=st.lists(gen.pick(0.0, 0.5, 1.0), min_size=3, max_size=3)),
         quick=80, rule='random cubic polynomials; interior exactness up to the '
         'order of each stencil; non-trivial = some coefficient is non-zero')
def polynomials(c, ctx):
  g = gen.mk_grid(c['g'])
  d = g.ndim
  off = tuple(c['off'][:d])
  co = np.array(c['coef']).reshape(4, 3)[:, :d]
  mid = [(a + b) / 2 for a, b in g.domain]

  def poly(deg, xs, der=(0, None)):
    out = 0.0
    for i in range(d):
      x = xs[i] - mid[i]
      pcoef = np.where(np.arange(4) <= deg, co[:, i], 0.0)
      pp = np.polynomial.Polynomial(pcoef)
      if der[0] == 0:
        out = out + pp(x)
      elif der[1] is None or der[1] == i:
        out = out + pp.deriv(der[0])(x)
    return out + np.zeros(g.shape)

  xs = [np.asarray(m) for m in g.mesh(off)]
  ext = max(b - a for a, b in g.domain)
  mag = np.abs(co).max() * (1 + ext) ** 3 + 1e-9
  inner = tuple(slice(1, -1) for _ in range(d))
  h = gen.steps_of(c['g'])
  for ax in range(d):
    u1 = gen.gvar(poly(1, xs), off, g, gen.periodic_bc(d))
    u2 = gen.gvar(poly(2, xs), off, g, gen.periodic_bc(d))
    for name, fn in FNS.items():
      u = u2 if name == 'central' else u1
      deg = 2 if name == 'central' else 1
      ctx.close(np.asarray(fn(u, ax).data)[inner],
                poly(deg, xs, (1, ax))[inner], f'{name} exactness', 1e-10,
                mag / h[ax])
    # one-sided differences are centred half a cell away
    for name, s in (('forward', 0.5), ('backward', -0.5)):
      o2 = list(off)
      o2[ax] += s
      ys = [np.asarray(m) for m in g.mesh(tuple(o2))]
      ctx.close(np.asarray(FNS[name](u2, ax).data)[inner],
                poly(2, ys, (1, ax))[inner], f'{name} is second order at its '
                'own offset', 1e-10, mag / h[ax])
  u3 = gen.gvar(poly(3, xs), off, g, gen.periodic_bc(d))
  ctx.close(np.asarray(fd.laplacian(u3).data)[inner],
            poly(3, xs, (2, None))[inner], 'laplacian exactness', 1e-10,
            mag / min(h) ** 2)
  return bool(np.any(co))
