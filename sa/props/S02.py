"""An SCM that is not a model of its variables is rejected."""
import itertools
import terms as t
from drive import Ctx, S
from props.scmlib import NAMES, graphs, model, mechanism
from props.funclib import Fn, unchanged
from props.inplace import storage

CHAIN = {'u': [], 'z': ['u'], 'x': ['z'], 'y': ['x', 'u']}


def check(rep, prog):
  storage(rep, prog, ['scm.SCM'], 3)
  rep.rule('built', 'variables without parents or mechanism, and a treatment, '
           'response or covariate that is not a variable, raise ValueError', 20)
  rep.rule('accepted', 'every model of its variables is accepted, with whatever '
           'more parents and mechanisms are given', 70)
  rep.rule('order', 'generate raises ValueError if a variable comes before one of '
           'its parents, and only then', 20)
  rep.rule('kept', 'a rejected generate changes nothing of the model', 20)
  rep.rule('shown', 'the attributes are those of the constructor', 5)
  for v in NAMES:
    drop = {k: p for k, p in CHAIN.items() if k != v}
    build(rep, prog, True, f'no parents of {v}', parents=drop)
    build(rep, prog, True, f'no mechanism of {v}', cpds={
        k: mechanism(k) for k in NAMES if k != v})
    others = {f'{w} of another': w for w in NAMES}
    build(rep, prog, True, f'no parents of {v}, but of others', parents={
        **drop, **{k: [] for k in others}})
    build(rep, prog, True, f'no mechanism of {v}, but of others', cpds={
        **{k: mechanism(k) for k in NAMES if k != v},
        **{k: mechanism(w) for k, w in others.items()}})
    build(rep, prog, False, f'parents of others than {v}', parents={
        **CHAIN, **{k: [v] for k in others}})
    build(rep, prog, False, f'roles of {v}', cov=[v, 'u', v], treatment=v, response=v)
    build(rep, prog, False, f'covariates {v} and all others', cov=[v, *NAMES])
    extra = {k: mechanism(k) for k in NAMES}
    left = {k: [q for q in p if q != v] for k, p in drop.items()}
    names = [k for k in NAMES if k != v]
    rest = names[:]
    ok = dict(parents=left, names=names)
    for role in ('treatment', 'response'):
      for more, kw in (('', ok), (' but has parents and a mechanism', dict(
          names=names, parents={**left, v: []}, cpds=extra))):
        build(rep, prog, True, f'{role} {v} is not a variable' + more, **kw,
              cov=names[:1], treatment=v if role == 'treatment' else names[1],
              response=v if role == 'response' else names[2])
    for cov in ([names[0], v], [v, names[0]]):
      build(rep, prog, True, f'covariate {v} is not a variable {cov}', names=names,
            parents={**left, v: []}, cov=cov, treatment=names[1],
            response=names[2], cpds=extra)
    build(rep, prog, False, f'without {v}', **ok, cov=names[:1],
          treatment=names[1], response=names[2])
    more = {**{k: mechanism(k) for k in NAMES}, 'other': mechanism('other')}
    build(rep, prog, False, f'without {v}, mechanisms of others', **ok,
          cov=names[:1], treatment=names[1], response=names[2], cpds=more)
  for parents in graphs(list(NAMES)):
    build(rep, prog, False, str(parents), parents=parents)
  for names in itertools.permutations(NAMES):
    order(rep, prog, list(names))
  for v in NAMES:
    for q in ('first', 'last'):
      stranger(rep, prog, v, q)
  c = Ctx(prog)
  a = model(c, CHAIN, ['z', 'u'], 'x', 'y')
  f = Fn(rep, c, 'scm.SCM.__init__')
  f.build('SCM', **a)
  for k in ('cov_variables', 'treatment_variable', 'response_variable', 'parents',
            'cpds'):
    x, y = c.pure(c.attr(f.value, k)), c.pure(a[k])
    rep.equal('shown', f'{f.at} [{k}]', x, y, k, f.pc)


def build(rep, prog, bad, label, parents=CHAIN, cov=('z', 'u'), treatment='x',
          response='y', names=None, cpds=None):
  c = Ctx(prog)
  f = Fn(rep, c, 'scm.SCM.__init__', label)
  f.build('SCM', **model(c, parents, cov, treatment, response,
                         names or list(NAMES), cpds))
  if bad:
    rep.hold('built', f.at, f.raised('ValueError'), 'is accepted')
  else:
    rep.hold('accepted', f.at, t.Not(f.raised()), 'is rejected')


def stranger(rep, prog, v, where):
  """A parent that is no variable never comes before."""
  c = Ctx(prog)
  ps = {k: list(p) for k, p in CHAIN.items()}
  ps[v].insert(0 if where == 'first' else len(ps[v]), 'other')
  ps['other'] = []
  a = model(c, ps, ['z', 'u'], 'x', 'y', list(NAMES), {
      k: mechanism(k) for k in [*NAMES, 'other']})
  scm = c.construct('SCM', **a)
  f = Fn(rep, c, 'scm.SCM.generate', f'{v} has a parent that is no variable, {where}')
  f.method(scm, 'generate', n_samples=S('n_samples', 'int'))
  rep.hold('order', f.at, f.raised('ValueError'), 'is accepted')


def order(rep, prog, names):
  c = Ctx(prog)
  scm = c.construct('SCM', **model(c, CHAIN, ['z', 'u'], 'x', 'y', names))
  f = Fn(rep, c, 'scm.SCM.generate', 'order ' + ' '.join(names))
  f.method(scm, 'generate', n_samples=S('n_samples', 'int'))
  bad = any(names.index(p) > names.index(v) for v in names for p in CHAIN[v])
  if not bad:
    early = [(s, n) for s, n, _ in f.excs if not c.events('callf', s.log)]
    rep.check('order', f.at, f.pc is not t.FALSE and not any(
        s.pc is t.TRUE for s, n in early), 'a valid order is rejected')
    return
  early = t.Or(*[s.pc for s, n, _ in c.excs if n == 'ValueError'])
  rep.hold('order', f.at, t.Or(early, f.raised('ValueError')), 'the wrong order is accepted')
  for s, n, _ in f.excs:
    unchanged(rep, 'kept', f'{f.at} [{n}]', c, f.before, s, scm, s.pc, 'the model')
