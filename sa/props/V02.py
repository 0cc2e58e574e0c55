"""The surface of a function is drawn from its own values."""
import terms as t
from drive import Ctx, S
from program import AnalysisError

LIMITS = ('x_low', 'x_high', 'y_low', 'y_high')
DRAW = ('plot_wireframe', 'plot_trisurf', 'contour', 'contourf', 'scatter', 'plot',
        'contour3D', 'contourf3D', 'scatter3D', 'plot3D', 'bar3d', 'imshow',
        'pcolormesh')


class Grid:
  """The cells of an array of known shape, in row-major order."""

  def __init__(self, shape, cells):
    self.shape, self.cells = tuple(shape), list(cells)

  def reshape(self, shape):
    shape, n = list(shape), 1
    for s in shape:
      n *= s if s != -1 else 1
    shape = [len(self.cells) // n if s == -1 else s for s in shape]
    size = 1
    for s in shape:
      size *= s
    if size != len(self.cells):
      raise Misfit(f'an array of shape {self.shape} does not have shape {shape}')
    return Grid(shape, self.cells)

  def transpose(self):
    if len(self.shape) < 2:
      return self
    if len(self.shape) > 2:
      raise AnalysisError('an array of three axes is transposed')
    n, m = self.shape
    return Grid((m, n), [self.cells[i * m + j] for j in range(m) for i in range(n)])

  def columns(self):
    """The columns, or the array as one column."""
    if len(self.shape) == 1:
      return [self.cells]
    if len(self.shape) > 2:
      raise AnalysisError('an array of three axes is a block of columns')
    g = self.transpose()
    n = g.shape[1]
    return [g.cells[k * n:(k + 1) * n] for k in range(g.shape[0])]


class Misfit(Exception):
  """The arrays do not fit."""


class Cells:
  """The cells of the arrays that a term stands for."""

  def __init__(self, f):
    self.f, self.memo = f, {}

  def __call__(self, x):
    if x not in self.memo:
      self.memo[x] = self.go(x)
    return self.memo[x]

  def go(self, x):
    if x.op == 'app':
      h = getattr(self, 'f_' + str(x.args[0]).rsplit('.', 1)[-1], None)
      if h is not None:
        return h(*x.args[1], **dict(x.args[2]))
    if x.op == 'hcat':
      cols = [c for b in x.args[0] for c in self(b).columns()]
      return stack(cols)
    if x.op == 'poly':
      parts = {a: self(a) for m, _ in x.args[0] for a, _ in m if not t.is_scalar(a)}
      if len({p.shape for p in parts.values()}) != 1:
        raise AnalysisError(f'cannot tell the cells of {t.show(x)[:200]}')
      keys = sorted(parts, key=t.show)
      return Grid(parts[keys[0]].shape, [
          ('of', x) + r for r in zip(*(parts[k].cells for k in keys))])
    if x.op == 'idx':
      return self.idx(*x.args)
    if x.op == 'callres' and x.args[1] is self.f:
      _, _, a, star, kw = x.args[:5]
      if star or kw or len(a) != 1:
        raise AnalysisError(f'what is f called with in {t.show(x)[:200]}')
      g = self(a[0])
      if len(g.shape) != 2 or g.shape[1] != 2:
        raise Misfit(f'f is called with an array of shape {g.shape}')
      return Grid(g.shape[:1], [('f',) + tuple(r) for r in zip(*g.columns())])
    if x.op == 'map' and x.args[2] is t.TRUE:
      n, k = self.number(x.args[1]), x.args[4]
      x = t.seq('list', [t.subst(x.args[3], {k: t.num(i)}) for i in range(n)])
    if x.op == 'seq':
      parts = [self(y) for y in x.args[1]]
      if parts and len({p.shape for p in parts}) == 1:
        return Grid((len(parts),) + parts[0].shape,
                    [c for p in parts for c in p.cells])
    raise AnalysisError(f'cannot tell the cells of {t.show(x)[:200]}')

  def idx(self, x, k):
    ks = list(k.args[1]) if k.op == 'seq' and k.args[0] == 'tuple' else [k]
    g = self(x)
    whole = lambda s: t.show(s) in ('0:', ':', '0::1') or s.op == 'slice' and (
        s.args[0] in (t.ZERO, t.NONE) and s.args[1] is t.NONE)
    if len(g.shape) == 1 and len(ks) == 2 and t.NONE in ks and any(map(whole, ks)):
      return g.reshape((-1, 1) if ks[1] is t.NONE else (1, -1))
    if len(g.shape) == 2 and len(ks) == 2 and whole(ks[0]):
      return Grid(g.shape[:1], g.columns()[integer(ks[1])])
    n = len(g.cells) // g.shape[0]
    if len(ks) == 1 and k.op == 'slice':
      part = range(g.shape[0])[slice(*(
          None if s is t.NONE else self.number(s) for s in k.args))]
      return Grid((len(part),) + g.shape[1:],
                  [c for i in part for c in g.cells[i * n:(i + 1) * n]])
    if len(ks) == 1 and ks[0].op == 'num':
      i = integer(k)
      return Grid(g.shape[1:], g.cells[i * n:(i + 1) * n])
    raise AnalysisError(f'cannot tell the cells of {t.show(k)[:100]} of an array')

  def f_mesh(self, k, x, y, indexing=None):
    k, x, y = integer(k), self(x), self(y)
    n, m = len(x.cells), len(y.cells)
    if indexing is not None and indexing.args[0] == 'ij':
      return Grid((n, m), [(a, b)[k] for a in x.cells for b in y.cells])
    return Grid((m, n), [(a, b)[k] for b in y.cells for a in x.cells])

  def f_linspace(self, a, b, num=t.num(50), endpoint=t.TRUE):
    n = integer(num)
    if endpoint not in (t.TRUE, t.FALSE):
      raise AnalysisError('is the upper limit included')
    all_ = n if endpoint is t.TRUE else n + 1
    return Grid((n,), [('lin', a, b, all_, i) for i in range(n)])

  def f_flatten(self, x):
    return self(x).reshape((-1,))

  def f_T(self, x):
    return self(x).transpose()

  def f_reshape(self, x, *shape, order=None, newshape=None):
    if newshape is not None:
      shape = (newshape,)
    g, dims = self(x), []
    for s in shape:
      if s.op == 'app' and s.args[0] == 'shape':
        dims += self(s.args[1][0]).shape
      elif s.op == 'seq':
        dims += [self.number(y) for y in s.args[1]]
      else:
        dims.append(self.number(s))
    if order is None or order.args[0] == 'C':
      return g.reshape(dims)
    if order.args[0] == 'F' and len(dims) == 2:
      return g.transpose().reshape(()) if not dims else Grid(
          g.shape, g.cells).transpose().reshape(dims[::-1]).transpose()
    raise AnalysisError('in which order are the cells of an array')

  def f_array(self, x):
    return self(x)

  def f_vstack(self, xs):
    parts = [self(y) for y in self.items(xs)]
    parts = [p.reshape((1, -1)) if len(p.shape) == 1 else p for p in parts]
    if len({p.shape[1:] for p in parts}) != 1:
      raise Misfit('arrays of different widths are stacked')
    return Grid((sum(p.shape[0] for p in parts),) + parts[0].shape[1:],
                [c for p in parts for c in p.cells])

  def items(self, xs):
    if xs.op == 'map' and xs.args[2] is t.TRUE:
      return [t.subst(xs.args[3], {xs.args[4]: t.num(i)})
              for i in range(self.number(xs.args[1]))]
    if xs.op != 'seq':
      raise AnalysisError(f'which arrays are {t.show(xs)[:200]}')
    return xs.args[1]

  def f_concatenate(self, xs, axis=t.ZERO):
    parts = [self(y) for y in self.items(xs)]
    if axis is t.ZERO and all(len(p.shape) == 1 for p in parts):
      return Grid((sum(p.shape[0] for p in parts),), [c for p in parts for c in p.cells])
    if axis is t.ZERO:
      return self.f_vstack(xs)
    raise AnalysisError('on which axis are arrays joined')

  def f_tile(self, x, reps):
    g = self(x)
    reps = [self.number(r) for r in (
        reps.args[1] if reps.op == 'seq' else [reps])]
    if len(g.shape) == 1 and len(reps) == 2 and reps[1] == 1:
      return Grid((reps[0],) + g.shape, g.cells * reps[0])
    if len(g.shape) == 1 and len(reps) == 1:
      return Grid((reps[0] * g.shape[0],), g.cells * reps[0])
    raise AnalysisError('how is an array tiled')

  def f_repeat(self, x, n, axis=None):
    g = self(x)
    if len(g.shape) == 1 and axis in (None, t.ZERO):
      n = self.number(n)
      return Grid((n * g.shape[0],), [c for c in g.cells for _ in range(n)])
    raise AnalysisError('how is an array repeated')

  def f_column_stack(self, xs):
    return stack([c for b in self.items(xs) for c in self(b).columns()])

  def f_dstack(self, xs):
    parts = [self(y) for y in xs.args[1]]
    if len({p.shape for p in parts}) != 1 or len(parts[0].shape) != 2:
      raise AnalysisError('arrays of other shapes are stacked')
    return Grid(parts[0].shape + (len(parts),),
                [c for r in zip(*(p.cells for p in parts)) for c in r])

  def f_stack(self, xs, axis=t.ZERO):
    g = self(xs)
    if axis is t.ZERO:
      return g
    if axis in (t.num(-1), t.num(len(g.shape) - 1)):
      n = len(g.cells) // g.shape[0]
      return Grid(g.shape[1:] + g.shape[:1], [
          g.cells[p * n + i] for i in range(n) for p in range(g.shape[0])])
    raise AnalysisError('on which axis are arrays stacked')

  def number(self, x):
    if x.op == 'num':
      return integer(x)
    if x.op == 'app' and x.args[0] in ('len', 'size', 'shape0', 'shape1'):
      g = self(x.args[1][0])
      return {'len': g.shape[0], 'shape0': g.shape[0], 'size': len(g.cells),
              'shape1': g.shape[-1]}[x.args[0]]
    if x.op == 'len':
      return self(x.args[0]).shape[0]
    if x.op == 'idx' and x.args[0].op == 'app' and x.args[0].args[0] == 'shape':
      return self(x.args[0].args[1][0]).shape[integer(x.args[1])]
    raise AnalysisError(f'cannot tell the number {t.show(x)[:200]}')


def stack(cols):
  if len({len(c) for c in cols}) != 1:
    raise Misfit('columns of different lengths are stacked')
  return Grid((len(cols[0]), len(cols)), [c for r in zip(*cols) for c in r])


def integer(x):
  if x.op != 'num' or x.args[0] != int(x.args[0]):
    raise AnalysisError(f'which number is {t.show(x)[:200]}')
  return int(x.args[0])


def check(rep, prog):
  rep.rule('surface', 'exactly one surface is drawn', 1)
  rep.rule('grid', 'its points are all pairs of evenly spaced values from the lower '
           'to the upper limit of each axis', 2)
  rep.rule('value', 'its height at every point is what f returns for that point', 1)
  c = Ctx(prog)
  f = S('f', 'fn')
  lim = {k: S(k, 'num') for k in LIMITS}
  c.func('plotting_utils', 'plot_3d_function', f=f, **lim)
  rep.fn(*sorted(c.I.analysed))
  at = 'plotting_utils.plot_3d_function'
  drawn = []
  for e, path in c.events('call'):
    if e.d['name'] in DRAW or e.d['name'] == 'plot_surface' and path:
      raise AnalysisError(f'{at}: cannot tell what {e.d["name"]} draws')
    if e.d['name'] == 'plot_surface':
      kw = dict(e.d['kw'])
      drawn.append(tuple(e.d['args']) + tuple(
          kw.pop(k) for k in ('X', 'Y', 'Z') if k in kw))
  rep.check('surface', at, len(drawn) == 1, f'draws {len(drawn)} surfaces')
  cells = Cells(f)
  for args in drawn:
    if len(args) < 3:
      raise AnalysisError(f'{at}: what does plot_surface draw')
    try:
      x, y, z = (cells(a) for a in args[:3])
    except Misfit as e:
      rep.bad('value', at, str(e))
      continue
    if any(p[0] == 'of' for p in x.cells + y.cells):
      raise AnalysisError(f'{at}: cannot tell the points of the surface')
    for g, (lo, hi) in ((x, LIMITS[:2]), (y, LIMITS[2:])):
      rep.check('grid', at, all(
          p[:1] == ('lin',) and p[1] is lim[lo] and p[2] is lim[hi]
          for p in g.cells), f'an axis is not from {lo} to {hi}')
    pairs = set(zip(x.cells, y.cells))
    rep.check('grid', at, x.shape == y.shape and len(pairs) == len(x.cells) == len(
        set(x.cells)) * len(set(y.cells)) and all(
            {p[4] for p in set(g.cells)} == set(range(p[3]))
            for g in (x, y) for p in g.cells[:1] if p[0] == 'lin'),
              'its points are not all pairs of the values of the axes')
    wrong = [(a, b, v) for a, b, v in zip(x.cells, y.cells, z.cells)
             if v != ('f', a, b)]
    rep.check('value', at, z.shape == x.shape and not wrong,
              f'the height at {len(wrong)} of {len(x.cells)} points is not what f '
              f'returns there' + ''.join(
                  f', as at {say(a)}, {say(b)}: {say(v)}' for a, b, v in wrong[:1]))


def say(p):
  if not isinstance(p, tuple):
    return t.show(p)[:50]
  if p[0] == 'lin':
    return f'point {p[4]} of {t.show(p[1])}..{t.show(p[2])}'
  return f'{p[0]}({", ".join(map(say, p[1:]))})'
