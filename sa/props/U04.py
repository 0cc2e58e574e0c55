"""The seed of a Section 5 example determines its mechanisms."""
import terms as t
from drive import Ctx, S
from program import AnalysisError
from props.paperlib import SEED, Example, names
from props.scmlib import lit
from props.inplace import storage

SECTIONS = ('get_section_5_1_cpds', 'get_section_5_2_cpds')
WRITES = ('setattr', 'write', 'append', 'dictset', 'arrayset', 'pop')
N = S('n', 'int')
EXPOSURE = S('sample_X', 'arr1')


def check(rep, prog):
  storage(rep, prog, ['paper_utils', 'nonlinear_utils'], 10)
  rep.rule('seeded', 'every draw that a mechanism is made with is from a generator '
           'that the given seed determines', 40)
  rep.rule('unseeded', 'without a seed, no draw is from a generator of a fixed seed', 40)
  rep.rule('global', 'the state of the global generator is left alone, and sampling '
           'draws from it only', 20)
  rep.rule('kept', 'sampling changes nothing that a later sample uses', 20)
  dims = [([2, 1, 3], [0, 2, 1]), ([1, 2], [0, 3])]
  if rep.depth(0, 1):
    dims += [([2, 3, 3, 3], [0, 2, 2, 2]), ([3, 1, 2, 4, 1], [0, 5, 1, 2, 1])]
  for fn in SECTIONS:
    for z_dim, v_dim in dims:
      one(rep, prog, fn, z_dim, v_dim, SEED)
      one(rep, prog, fn, z_dim, v_dim, t.NONE)


def has(x, s):
  return any(y is s for y in t.subterms(x))


def origin(d):
  """What determines a draw: the generator, or the random_state of a sample_y."""
  if d.args[1] == 'sample_y':
    k = dict(d.args[3]).get('random_state')
    if k is None:
      k = d.args[2][3] if len(d.args[2]) > 3 else t.ZERO
    return k
  if d.args[1].startswith('numpy.random.'):
    return None
  return d.args[2][0] if d.args[2] else None


def maybe_none(x):
  """Whether a generator may be made without a seed."""
  def leaves(y):
    return leaves(y.args[1]) | leaves(y.args[2]) if y.op == 'ite' else {y}
  return any(y.op == 'app' and y.args[0].startswith('new:numpy.random.') and (
      not y.args[1] and not y.args[2] or
      any(t.NONE in leaves(a) for a in y.args[1]) or
      any(t.NONE in leaves(a) for _, a in y.args[2])) for y in t.subterms(x))


def fixed(x):
  """Whether the origin of a draw is the same in every evaluation."""
  for y in t.subterms(x):
    if y.op == 'draw' and not y.args[1].startswith('rng.'):
      return False
    if y.op == 'app' and y.args[0] in ('new:numpy.random.default_rng',
                                       'new:numpy.random.RandomState') and \
        y.args[1] in ((), (t.NONE,)):
      return False
  return x is not t.NONE


def one(rep, prog, fn, z_dim, v_dim, seed):
  parents = Example(rep, prog, z_dim, v_dim).parents
  at = f'paper_utils.{fn} [z_dim={z_dim}, v_dim={v_dim}' + \
      ', no seed' * (seed is t.NONE) + ']'
  c = Ctx(prog)
  v = c.func('paper_utils', fn, z_dim=lit(c, z_dim), v_dim=lit(c, v_dim),
             num_back_door_paths=t.num(len(z_dim) - 1), seed=seed)
  rep.fn(*sorted(c.I.analysed))
  if c.st.pc is t.FALSE:
    raise AnalysisError(f'{at} always raises')
  made = [e.d['result'] for e, _ in c.events('draw')]
  if not made:
    raise AnalysisError(f'{at} draws nothing')
  for d in made:
    k = origin(d)
    if seed is SEED:
      rep.check('seeded', at, k is not None and (has(k, SEED) or k.op == 'num') and
                not maybe_none(k),
                f'does not depend on the seed: {t.show(d)[:300]}')
    else:
      rep.check('unseeded', at, k is None or not fixed(k),
                f'is the same every time: {t.show(d)[:300]}')
  if seed is t.NONE:
    return
  for e, _ in c.events('newrng'):
    rep.check('seeded', at, has(e.d['seed'], SEED) or e.d['seed'].op == 'num',
              f'a generator with seed {t.show(e.d["seed"])[:300]}')
  n = len(list(c.events('seed')))
  rep.check('global', at, n == 0, 'reseeds the global generator')
  old = max(c.st.heap)
  keys = names(c, c.I.getc(c.st, v, 'keys'))
  for k in keys:
    ps = [S('sample_' + p, 'arr1' if p in 'XY' else 'arr2') for p in parents[k]]
    for p in ps:
      t.LENGTH[p] = N
    if ps == [EXPOSURE]:
      ps = [t.seq('array', [t.ZERO, t.ONE, t.ONE, t.ZERO])]
    f = c.I.getitem(c.st, v, t.string(k))
    before = len(c.events())
    r = c.pure(c.I.call(c.st, f, [N, lit(c, ps)], {}))
    rep.fn(*sorted(c.I.analysed))
    es = [e for e, _ in c.events()[before:]]
    ds = {e.d['result'] for e in es if e.kind == 'draw'}
    ds |= {y for y in t.subterms(r) if y.op == 'draw'} - set(made)
    bad = [d for d in ds if not d.args[1].startswith('numpy.random.')]
    rep.check('global', f'{at} [{k}]', ds and not bad,
              f'draws from {[t.show(d)[:200] for d in bad] or "nothing"}')
    rep.check('global', f'{at} [{k}]', not any(
        e.kind in ('seed', 'newrng') for e in es),
              'sampling makes or seeds a generator')
    ws = [e for e in es if e.kind in WRITES and e.d['obj'].op == 'ref' and
          e.d['obj'].args[0] <= old]
    rep.check('kept', f'{at} [{k}]', not ws, 'changes ' + ', '.join(
        t.show(e.d['obj'])[:100] for e in ws))
