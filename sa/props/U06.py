"""A random function predicts each component with its own Gaussian process."""
import terms as t
from drive import Ctx, S
from props.banditlib import Spec
from props.funclib import Fn
from props.scmlib import lit
from props.inplace import storage

ARGS = dict(kernel=S('kernel', 'fn'), min_x=S('min_x', 'num'), max_x=S('max_x', 'num'),
            n_points=S('n_points', 'int'), alpha=S('alpha', 'num'))


def check(rep, prog):
  storage(rep, prog, ['nonlinear_utils'], 2)
  rep.rule('value', 'every component is the prediction of its own process, fitted to '
           'its own sample on the grid, which is that of the seed', 4)
  rep.rule('again', 'evaluating the function again changes nothing', 4)
  rep.rule('random', 'without a seed, the seed is drawn', 2)
  rep.rule('default', 'a kernel need not be given', 1)
  seed = S('seed', 'int')
  top = rep.depth(4, 6)
  for dim in range(1, top):
    for out in range(1, top):
      one(rep, prog, dim, out, seed)
  one(rep, prog, 1, 2, None)
  one(rep, prog, 2, 1, None)
  c = Ctx(prog)
  f = Fn(rep, c, 'nonlinear_utils.generate_random_nd_function', 'default kernel')
  f.func('nonlinear_utils', 'generate_random_nd_function', **{
      **ARGS, 'dim': t.ONE, 'out_dim': t.ONE, 'seed': seed, 'kernel': t.NONE})
  rep.hold('default', f.at, f.pc, 'raises an exception')


def one(rep, prog, dim, out, seed):
  c = Ctx(prog)
  f = Fn(rep, c, 'nonlinear_utils.generate_random_nd_function',
         f'dim={dim}, out_dim={out}' + ', no seed' * (seed is None))
  f.func('nonlinear_utils', 'generate_random_nd_function', **{
      **ARGS, 'dim': t.num(dim), 'out_dim': t.num(out),
      'seed': t.NONE if seed is None else seed})
  at = f.at
  x = S('x', 'arr2')
  given = seed
  if seed is None:
    made = [e for e, _ in c.events('newrng')]
    if len(made) != 1:
      return rep.bad('random', at, f'{len(made)} random generators')
    given = made[0].d['seed']
    rep.check('random', at, given.op == 'draw' and given.args[1].startswith(
        'numpy.random.'), f'the seed is {t.show(given)[:200]}')
  want = Spec(Ctx(prog))('random_function', t.num(dim), t.num(out), ARGS['kernel'],
                         ARGS['min_x'], ARGS['max_x'], ARGS['n_points'], given,
                         ARGS['alpha'], x)
  g = Fn(rep, c, 'nonlinear_utils.generate_random_nd_function', f.label)
  g.apply(f.value, x)
  rep.equal('value', at, g.result, want, 'the value', g.pc)
  h = Fn(rep, c, at)
  h.apply(f.value, x)
  rep.equal('again', at, h.result, want, 'the value', h.pc)
