"""Any number of further calls: what counts them gets that much larger."""
import terms as t
from drive import S
from interp import UNDEF, assigned, filled
from terms import And

LATER = S('further_updates', 'int')  # one or more


def grown(u, v):
  """What was added to the number u to get v, or None if it is no counter."""
  if u is None or u is v:
    return None
  # what was not there before counts from zero, what is still not there does not
  missing = t.ITE(assigned(v), t.ZERO, v)
  u = filled(u, lambda: missing)
  if any(l is UNDEF for _, l in t.leaves(v)):
    d = grown(*(t.restrict(x, assigned(v)) for x in (u, v)))
    return None if d is None else t.ITE(assigned(v), d, t.ZERO)
  if t.is_scalar(u) and t.is_scalar(v) and all(
      x.op == 'num' for y in (u, v) for _, x in t.leaves(y)):
    return t.sub(v, u)
  if any(x.op not in ('num', 'poly', 'sym', 'len') for x in (u, v)):
    return None
  if not (u.ty == 'int' or u.op == 'num') and u.op != 'poly':
    return None
  a, b = t.to_poly(u), t.to_poly(v)
  if a and all(b.get(m) == k for m, k in a.items()) and t.is_scalar(v):
    return t.sub(v, u)
  return None


def jump(old, new, lists=True):
  """The state after the call from old to new was made LATER times in all.

  Numbers that the call added something to get it added as often; lists get
  arbitrary elements between the old and the new ones.  Returns the state, or
  None if there is nothing that counts (or, without lists, a list has grown).
  Without lists, numbers that more than a constant is added to are left alone.
  """
  j = t.sub(LATER, t.ONE)
  st, found = new.copy(), 0
  for r, o in list(new.heap.items()):
    was = old.heap.get(r)
    if was is None or was.kind != o.kind:
      continue
    for name, v in o.comps.items():
      u = was.comps.get(name)
      if u is None or u is v:
        continue
      if o.kind in ('list', 'dict', 'set'):
        if t.length(u) is t.length(v):
          continue
        if not lists:
          return None
        w = longer(u, v, j) if o.kind == 'list' else None
      elif o.kind == 'inst':
        d = grown(u, v)
        if d is not None and not lists and any(
            x.op != 'num' for _, x in t.leaves(d)):
          continue  # it counts what was given, and that is not made larger
        w = None if d is None else more(v, t.mul(d, j))
      else:
        w = None
      if w is not None:
        found += 1
        st.heap[r] = st.heap[r].put(name, w)
  for fid, vs in new.frames.items():
    for name, v in vs.items():
      u = old.frames.get(fid, {}).get(name)
      d = isinstance(u, t.T) and isinstance(v, t.T) and grown(u, v)
      if d and (lists or all(x.op == 'num' for _, x in t.leaves(d))):
        found += 1
        st.frames[fid][name] = more(v, t.mul(d, j))
  if not found:
    return None
  st.pc = And(st.pc, t.le(t.ONE, LATER))
  return st


def more(v, d):
  return t.ITE(assigned(v), t.add(t.restrict(v, assigned(v)), d), UNDEF)


def longer(u, v, j):
  """The list v, with any elements between those of u and the rest."""
  if u.op != 'seq' or v.op != 'seq' or v.args[1][:len(u.args[1])] != u.args[1]:
    return None
  more = S(f'more_{v.id}', 'list')
  t.LENGTH[more] = t.mul(t.num(len(v.args[1]) - len(u.args[1])), j)
  return t.cat('list', [u, more, t.seq('list', v.args[1][len(u.args[1]):])])
