"""Loops over sequences of unknown length.

A loop is executed once for a generic iteration K, along every path of its body.
What the body changes is found by comparing the reachable heap and the local
variables before and after.  The changed locations are replaced by a description
of their state after K iterations and the body is run again, until the set of
changed locations and the form of the changes are stable:

- a list (or an array rebound to itself plus rows) that grows by one element in
  every iteration, or by one element in some iterations (ghost selection);
- elements of a list or rows of an array written, or changed in place, at an
  index linear in K;
- numbers: v + c and v + a + b K (closed forms), v + d(K) (a sum), anything else
  (any value);
- variables with an invariant "its value after k iterations is f(k)" stated by
  the lemma: shown at the start and preserved by the body.

The description is inductive by construction: the state after K + 1 iterations
is what the body makes of the state after K.  An element of the result is the
outcome of the generic iteration at the index asked for (its decisions are taken
again there).  Iterations that leave the loop (break, return, exception) end it
at some iteration m: the body is run once more at m, from the state after m
ordinary iterations.

Whether a while loop ends is not shown (partial correctness).
"""
import ast
import collections
from fractions import Fraction

import numpy as np

from pyvc import terms as tm
from pyvc import solve
from pyvc.engine import (ENG, Sym, Unsupported, PathEnd, Enough, as_bool_term, mkbool, term, num0,
                         is_number)
from pyvc.npshim import exact
from pyvc.seq import (PList, SymArr, SymRange, SymIter, Store, Seq, FnSeq, AliasSeq, ConcatSeq, ListSeq,
                      HavocSeq, Poison, Node, is_symseq, is_obj, as_seq, seq_len, seq_get, linnorm,
                      lin_parts, subst_value, deep_copy, same_value, arrays_in, build_trie, walk,
                      silently, I0, I1, iterm)

NORMAL = ('normal', None)


def same_num(a, b):
  return a is b or (is_number(a) and is_number(b) and type(a) is type(b) and
                    (a.t is b.t if isinstance(a, Sym) else a == b))


# ---------------------------------------------------------------------------
# the reachable heap

class Heap(object):
  """Everything reachable from the roots, with its contents."""

  def __init__(self, roots):
    self.items = {}
    self.order = []
    for r in roots:
      self.visit(r)

  def add(self, v, kind, state):
    self.items[id(v)] = (v, kind, state)
    self.order.append(id(v))

  def visit(self, v):
    stack = [v]
    while stack:
      v = stack.pop()
      if v is None or isinstance(v, (Sym, tm.T, bool, int, float, str, bytes, type, Poison, Fraction,
                                     np.generic)):
        continue
      if id(v) in self.items:
        continue
      if isinstance(v, np.ndarray):
        self.add(v, 'array', v.copy())
        if isinstance(v.base, np.ndarray):
          stack.append(v.base)
        if v.dtype == object:
          stack.extend(x for x in v.ravel() if not isinstance(x, Sym))
      elif isinstance(v, PList):
        self.add(v, 'list', (list(list.__iter__(v)), v.sym))
        stack.extend(list.__iter__(v))
        if v.sym is not None:
          stack.append(v.sym)
      elif isinstance(v, SymArr):
        self.add(v, 'symarr', None)
        stack.append(v.store)
      elif isinstance(v, Store):
        self.add(v, 'store', v.state())
        stack.extend(v.tail)
        stack.extend(o[1] for o in v.overlay)
        stack.append(v.base)
      elif isinstance(v, (Seq, SymIter, SymRange)):
        self.add(v, 'fixed', None)
        stack.extend(v.__dict__.values())
      elif isinstance(v, (tuple, list, set, frozenset)):
        self.add(v, 'pylist' if isinstance(v, list) else 'fixed', list(v) if isinstance(v, list) else None)
        stack.extend(v)
      elif isinstance(v, dict):
        self.add(v, 'dict', dict(v))
        stack.extend(v.values())
      elif isinstance(v, collections.ChainMap):
        self.add(v, 'fixed', None)
        stack.extend(v.maps)
      elif is_obj(v):
        self.add(v, 'obj', dict(v.__dict__))
        stack.extend(v.__dict__.values())
      elif hasattr(v, '__closure__') and v.__closure__:
        self.add(v, 'fixed', None)
        for c in v.__closure__:
          try:
            stack.append(c.cell_contents)
          except ValueError:
            pass
      elif hasattr(v, '__self__') and hasattr(v, '__func__'):
        self.add(v, 'fixed', None)
        stack.append(v.__self__)

  def restore(self):
    for i in self.order:
      v, kind, st = self.items[i]
      if kind == 'array':
        if v.flags.writeable:
          v[...] = st
      elif kind == 'list':
        if v.sym is not None or not _same_items(list(list.__iter__(v)), st[0]):
          list.clear(v)
          list.extend(v, st[0])
        v.sym = st[1]
      elif kind == 'store':
        v.restore(st)
      elif kind == 'pylist':
        v[:] = st
      elif kind == 'dict':
        if not _same_attrs(v, st):
          dict.clear(v)
          dict.update(v, st)
      elif kind == 'obj':
        v.__dict__.clear()
        v.__dict__.update(st)

  def changed(self):
    """Has anything reachable changed?"""
    for i in self.order:
      v, kind, st = self.items[i]
      if kind == 'array':
        ok = same_value(v, st)
      elif kind == 'list':
        ok = v.sym is st[1] and _same_items(list(list.__iter__(v)), st[0])
      elif kind == 'store':
        old = set(id(o[1]) for o in st[2])
        pre = Store(st[0], st[1])
        a, b = v.flat(), pre.flat()
        ok = a[0] is b[0] and _same_items(a[1], b[1]) and all(id(o[1]) in old for o in a[2])
      elif kind == 'pylist':
        ok = _same_items(v, st)
      elif kind in ('dict', 'obj'):
        d = v if kind == 'dict' else v.__dict__
        ok = d.keys() == st.keys() and all(d[k] is st[k] or same_num(d[k], st[k]) for k in st)
      else:
        ok = True
      if not ok:
        return True
    return False

  def stores(self):
    return [v for v, k, _ in self.items.values() if k == 'store']


def _same_items(a, b):
  return len(a) == len(b) and all(x is y for x, y in zip(a, b))


# ---------------------------------------------------------------------------
# locations a loop changes

class Loc(object):
  """A location with a description of its state after k iterations."""


class Number(Loc):
  """A number: local variable, attribute or array cell."""

  def __init__(self, label, get, put, pre):
    self.label, self.get, self.put, self.pre = label, get, put, pre
    self.sort = None
    self.form = None          # None: any value; ('step', d); ('sum',)
    self.name = None
    self.bad = False

  def join(self, v):
    s = term(v).sort
    if self.sort is None:
      self.sort = s
    elif self.sort != s:
      self.sort = 'R' if 'B' not in (self.sort, s) else None
    return self.sort

  def symbol(self, k):
    return tm.app(self.name, tuple(ENG.loop_ctx[:self.depth]) + (k,), self.sort)

  def at(self, k, loop, inside):
    if self.form is not None and self.form[0] == 'step':
      d = self.form[1]
      p = term(self.pre)
      if self.sort == 'R':
        return Sym(tm.add(tm.real(p), tm.mul(tm.real(d), tm.real(k))))
      return Sym(linnorm(tm.add(p, tm.mul(d, k)))) if tm.is_num(d) else Sym(tm.add(p, tm.mul(d, k)))
    if self.form is not None and self.form[0] == 'linear':
      t = self.symbol(k)
      a, b = self.form[1:]
      two = tm.num(2, 'I')
      s = tm.add(tm.mul(two, tm.mul(a, k)), tm.mul(b, tm.mul(k, tm.sub(k, I1))))
      ENG.assume(tm.eq(tm.mul(two, t), tm.add(tm.mul(two, term(self.pre)), s)))
      return Sym(t)
    if self.form is not None and self.form[0] == 'sum' and not inside:
      return self.pre + loop.owner.sum_fn(k, lambda i: loop.increment(self, i))
    t = self.symbol(k)
    z = num0(term(self.pre)) if self.sort != 'B' else as_bool_term(self.pre)
    if self.sort == 'R':
      z = tm.real(z)
    first = tm.iff(t, z) if self.sort == 'B' else tm.eq(t, z)
    ENG.assume(tm.implies(tm.eq(k, I0), first))
    return Sym(t)


class Content(Loc):
  """Contents of a store: appended elements, indexed writes."""

  def __init__(self, label, store, plist=None):
    self.label = label
    self.store = store
    self.plist = plist        # concrete list turned symbolic
    self.forms = []           # [(a, b, key)] indices written: a * K + b
    self.grows = None         # None, 'one', 'some'
    self.pattern = None
    self.pre = None           # store with the state before the loop

  def prepare(self):
    st = self.store.state()
    self.pre = Store(st[0], st[1])
    self.pre.overlay = st[2]
    self.pre_state = self.pre.state()
    return self.pre


class Described(Loc):
  """A local variable with a stated value after k iterations (a loop invariant)."""

  def __init__(self, name, about):
    self.label = self.name = name
    self.about = about


class Growing(Loc):
  """A local variable rebound to its old value plus new rows or elements."""

  def __init__(self, name, pre):
    self.label = self.name = name
    self.pre = pre
    self.grows = self.pattern = None
    if isinstance(pre, PList):
      self.seq = AliasSeq(pre.sym) if pre.sym is not None else ListSeq(list.__iter__(pre))
      self.make = PList.of
    elif isinstance(pre, SymArr):
      self.seq = pre.seq()
      self.make = lambda s: SymArr.of(s, pre.ncols)
    else:
      self.seq = ListSeq([r.copy() if isinstance(r, np.ndarray) else r for r in pre])
      self.cols = None if pre.ndim == 1 else pre.shape[1]
      self.make = lambda s: SymArr.of(s, self.cols)
    self.broken = False


class UpdateSeq(Seq):
  """State of indexed contents after k iterations."""

  def __init__(self, loc, k, loop=None, sub=None):
    self.loc, self.k, self.loop = loc, k, loop
    self.pre = AliasSeq(loc.pre)
    self.length = self.pre.length

  def elem(self, i):
    for a, b, key in self.loc.forms:
      c = linnorm(tm.sub(i, b) if a > 0 else tm.sub(b, i))
      m = abs(a)
      if m == 1:
        q = c
      else:
        co, k0 = lin_parts(c)
        if all(v % m == 0 for v in co.values()):
          if k0 % m:
            continue
          q = linnorm(_scaled(co, k0, m))
        else:
          if not ENG.decide(tm.eq(tm.imod(c, tm.num(m, 'I')), I0)):
            continue
          q = tm.idiv(c, tm.num(m, 'I'))
      if not ENG.decide(tm.and_(tm.le(I0, q), tm.lt(q, self.k))):
        continue
      if self.loop is None:
        raise Unsupported('reading an element of %s an earlier iteration wrote' % self.loc.label)
      v = self.loop.effect(self.loc, q, ('write', key))
      if v is not None:
        return v[0]
    return self.pre.elem(i)

  def mapped(self, f, memo):
    if f.submap:
      raise Unsupported('nested summarised loops')
    memo2 = memo
    k = id(self.loc.pre)
    if k not in memo2:
      memo2[k] = (self.loc.pre.mapped(f, memo2), self.loc.pre)
    r = UpdateSeq.__new__(UpdateSeq)
    r.loc, r.k, r.loop = self.loc, self.k, self.loop
    r.pre, r.length = AliasSeq(memo2[k][0]), self.length
    return r


def _scaled(co, k0, m):
  t = tm.num(k0 / m, 'I')
  for x, v in co.items():
    t = tm.add(t, tm.mul(tm.num(v / m, 'I'), x))
  return t


class GrownSeq(Seq):
  """Elements appended by k iterations."""

  def __init__(self, loc, k, loop, count, sub=None):
    self.loc, self.k, self.loop = loc, k, loop
    self.sub = sub or {}
    self.length = tm.subst(k, self.sub) if count is None else count
    self.count = count

  def elem(self, i):
    if self.loop is None:
      raise Unsupported('reading an element of %s inside the loop that builds it' % self.loc.label)
    if self.count is None:
      return self.loop.effect(self.loc, i, ('append', 0), self.sub)[0]
    j = self.loop.selected(self.loc, i, self.k)
    v = self.loop.effect(self.loc, j, ('append', 0), self.sub)
    if v is None:
      raise PathEnd()
    return v[0]

  def mapped(self, f, memo):
    if not f.submap:
      return self
    if self.count is not None or self.loop is None:
      raise Unsupported('nested summarised loops')
    m = {x: tm.subst(y, f.submap) for x, y in self.sub.items()}
    for x, y in f.submap.items():
      m.setdefault(x, y)
    return GrownSeq(self.loc, self.k, self.loop, None, m)


class Leaf(object):

  def __init__(self, kind):
    self.kind = kind          # 'normal' or 'exit'
    self.effects = {}         # loc -> {('append', j) | ('write', key) | 'post': value}


# ---------------------------------------------------------------------------

class Loop(object):
  """One summarised loop."""

  def __init__(self, owner, it, s, env, g, n, get, test):
    self.owner, self.it, self.s, self.env, self.g = owner, it, s, env, g
    self.n, self.get, self.test = n, get, test
    self.depth = len(ENG.loop_ctx)
    self.K = tm.var(ENG.fresh_name('K'), 'I')
    self.top = env.maps[0] if isinstance(env, collections.ChainMap) else env
    self.names = dict(self.top)
    self.heap = Heap([env, get] if get is not None else [env])
    self.locs = {}            # key -> Loc
    self.dead = set()         # names without a description
    self.trie = None
    self.ghost = {}
    self.closed = self.repattern = False

  # -- state ------------------------------------------------------------------
  def restore(self):
    self.heap.restore()
    dict.clear(self.top)
    dict.update(self.top, self.names)
    for l in self.locs.values():
      if isinstance(l, Content):
        l.pre.restore(l.pre_state)

  def install(self, k, loop, inside):
    """The state after k iterations (loop: for reading elements)."""
    for key, l in self.locs.items():
      if isinstance(l, Number):
        l.put(l.at(k, self, inside))
      elif isinstance(l, Content):
        st = l.store
        if l.plist is not None:
          l.plist.sym = st
          list.clear(l.plist)
        if l.grows:
          st.base = ConcatSeq(AliasSeq(l.pre), self.grown(l, k, loop))
          if tm.is_num(l.pre.length) and tm.val(l.pre.length) == 0:
            st.base = self.grown(l, k, loop)
        else:
          st.base = UpdateSeq(l, k, loop)
        st.tail, st.overlay = [], []
      elif isinstance(l, Described):
        self.top[l.name] = l.about.at(k)
      elif isinstance(l, Growing) and not l.broken:
        q = self.grown(l, k, loop)
        if not (tm.is_num(l.seq.length) and tm.val(l.seq.length) == 0):
          q = ConcatSeq(l.seq, q)
        v = l.make(q)
        l.current = v
        self.top[l.name] = v
    for nm in self.dead:
      self.top[nm] = Poison(nm)

  def grown(self, l, k, loop):
    if l.grows == 'one':
      return GrownSeq(l, k, loop, None)
    name = self.ghost_name(l)
    cnt = tm.app(name + '.count', tuple(ENG.loop_ctx[:self.depth]) + (k,), 'I')
    ENG.assume(tm.and_(tm.le(I0, cnt), tm.le(cnt, k)))
    return GrownSeq(l, k, loop, cnt)

  def ghost_name(self, l):
    """Lists that grow in the same iterations share their selection."""
    key = l.pattern
    if key is None:
      key = ('loc', id(l))
    if key not in self.ghost:
      self.ghost[key] = ENG.fresh_name('sel')
    return self.ghost[key]

  def selected(self, l, j, k):
    """Iteration that appended element j."""
    name = self.ghost_name(l)
    ctx = tuple(ENG.loop_ctx[:self.depth])
    t = tm.app(name, ctx + (j,), 'I')
    ENG.assume(tm.and_(tm.le(j, t), tm.lt(t, k)))
    seen = ENG.reg.setdefault(('sel', name), [])
    if not any(x is j for x, _ in seen):
      for x, y in seen:
        ENG.assume(tm.iff(tm.lt(x, j), tm.lt(y, t)))
      seen.append((j, t))
    return t

  # -- the generic iteration -----------------------------------------------------
  def run(self):
    """Executes the body at K along every path."""
    def go():
      self.restore()
      ENG.assume(tm.le(I0, self.K))
      if self.n is not None:
        ENG.assume(tm.lt(self.K, self.n))
      self.install(self.K, None, True)
      self.start = dict(self.top)
      entry = {id(l.store): l.store.state() for l in self.locs.values() if isinstance(l, Content)}
      try:
        if self.test is not None:
          if not self.it.truth(self.it.eval(self.test, self.env, self.g)):
            raise PathEnd()
        else:
          self.it.assign(self.s.target, self.get(self.K), self.env, self.g)
        r = self.it.block(self.s.body, self.env, self.g)
      except (Unsupported, PathEnd, Enough):
        raise
      except Exception:
        return Leaf('exit')
      if r[0] in ('break', 'return'):
        return Leaf('exit')
      leaf = Leaf('normal')
      for l in list(self.locs.values()):
        if isinstance(l, Described):
          l.about.check_step(l.name, self.top.get(l.name), self.K)
      self.compare(leaf)
      return leaf
    site = list(ENG.site)
    depth = self.it.depth
    ENG.loop_ctx.append(self.K)
    try:
      out = []
      for ev, leaf in ENG.explore(go):
        out.append((ev, leaf))
      return out
    finally:
      ENG.loop_ctx.pop()
      ENG.site[:] = site
      self.it.depth = depth
      self.restore()

  def compare(self, leaf):
    """Records what the iteration changed."""
    new = []
    content = {id(l.store): l for l in self.locs.values() if isinstance(l, Content)}
    touched = {}              # id(value) -> [(store, entry)]
    stores = [l.store for l in content.values()] + [l.pre for l in content.values()]
    seen = set(id(s) for s in stores)
    for st in self.heap.stores():
      if id(st) not in seen:
        stores.append(st)
        seen.add(id(st))
    for st in stores:
      for o in st.overlay:
        touched.setdefault(id(o[1]), []).append((st, o))
    owned = lambda st, o: self.owner_of(st, o, touched)
    pres = {id(l.pre): l for l in content.values()}
    # local variables
    for nm, v in self.top.items():
      if nm.startswith('__pyvc_') and nm not in self.start:
        continue
      if nm in self.start and (self.start[nm] is v or same_num(self.start[nm], v)):
        continue
      key = ('name', nm)
      l = self.locs.get(key)
      if l is None:
        if nm not in self.dead:
          new.append((key, nm, v))
        continue
      if isinstance(l, Number):
        if is_number(v):
          leaf.effects.setdefault(key, {})['post'] = v
        else:
          l.bad = True
      elif isinstance(l, Growing):
        self.growth(l, key, v, leaf)
    # heap
    for i in self.heap.order:
      v, kind, st = self.heap.items[i]
      if kind == 'array':
        if v.shape == st.shape and not all(same_num(x, y) or x is y for x, y in zip(v.ravel(), st.ravel())):
          if self.is_element(v, touched):
            raise Unsupported('a loop changes an object that is held elsewhere')
          for ix in np.ndindex(v.shape):
            key = ('cell', i, ix)
            if key in self.locs:
              continue
            if not same_num(v[ix], st[ix]):
              if not is_number(v[ix]) or not is_number(st[ix]) or isinstance(v.base, np.ndarray) and \
                  id(v.base) in self.heap.items:
                raise Unsupported('a loop changes an array')
              new.append((key, v, ix))
      elif kind == 'list':
        if id(v.sym) in content:
          continue
        if v.sym is not st[1]:
          if st[1] is None and v.sym is not None or True:
            raise Unsupported('a loop restructures a list')
        if st[1] is None and not _same_items(list(list.__iter__(v)), st[0]):
          key = ('list', i)
          if key not in self.locs:
            new.append((key, v, st[0]))
      elif kind == 'store':
        l = content.get(i)
        if l is not None or i in pres:
          continue
        if v.base is not st[0]:
          if not isinstance(v.base, AliasSeq) or v.base.store.base is not st[0]:
            raise Unsupported('a loop replaces the contents of a sequence')
          # the elements moved to a store of their own: look at that
          chk = v.base.store
          if len(chk.tail) != len(st[1]) or v.tail or any(o[2] is None for o in v.overlay):
            raise Unsupported('a loop changes a list it shares')
          for o in chk.overlay:
            if o[2] is not None and not same_value(o[1], o[2]) and not _pre_entry(o, st[2]):
              raise Unsupported('a loop changes elements of a list it shares')
          continue
        grow = len(v.tail) != len(st[1])
        ch = [o for o in v.overlay if (o[2] is None or not same_value(o[1], o[2])) and
              not _pre_entry(o, st[2]) and owned(v, o)]
        if grow or ch:
          key = ('store', i)
          new.append((key, v, None))
      elif kind == 'obj':
        if v.__dict__ is not None and not _same_attrs(v.__dict__, st):
          if self.is_element(v, touched):
            raise Unsupported('a loop changes an object that is held elsewhere')
          for a in set(v.__dict__) | set(st):
            if v.__dict__.get(a, self) is st.get(a, self) or \
                same_num(v.__dict__.get(a), st.get(a)):
              continue
            key = ('attr', i, a)
            if key in self.locs:
              continue
            if not is_number(v.__dict__.get(a)) or not is_number(st.get(a)):
              raise Unsupported('a loop changes the attribute %s' % a)
            new.append((key, v, a))
      elif kind == 'pylist':
        if not _same_items(v, st):
          raise Unsupported('a loop changes a list')
      elif kind == 'dict':
        if v is self.top or v is self.env:
          continue
        if not _same_attrs(v, st):
          raise Unsupported('a loop changes a dictionary')
    # effects on known locations
    for key, l in self.locs.items():
      if isinstance(l, Number) and key[0] in ('cell', 'attr'):
        v = l.get()
        if not is_number(v):
          raise Unsupported('a number becomes something else in a loop')
        leaf.effects.setdefault(key, {})['post'] = v
      elif isinstance(l, Content):
        self.content_effect(l, key, leaf, touched)
    leaf.new = new
    self.classify_values(leaf, touched)

  def owner_of(self, st, o, touched):
    """Is this store where the element lives (rather than a list sharing it)?"""
    if o[2] is None:
      return True
    others = [s for s, e in touched[id(o[1])] if s is not st]
    if not others:
      return True
    reach = Heap([st.base])
    return not any(id(s) in reach.items for s in others)

  def is_element(self, v, touched):
    return id(v) in touched

  def content_effect(self, l, key, leaf, touched):
    st = l.store
    eff = leaf.effects.setdefault(key, {})
    if st.tail:
      for j, v in enumerate(st.tail):
        eff[('append', j)] = v
    done = set()
    for o in reversed(st.overlay):
      if o[2] is not None and (same_value(o[1], o[2]) or not self.owner_of2(l, st, o, touched)):
        continue
      co, k0 = lin_parts(o[0])
      a = co.pop(self.K, Fraction(0))
      if any(tm.free_in(x, self.K) for x in co):
        raise Unsupported('a loop writes %s at an index that is not linear' % l.label)
      b = linnorm(_scaled(co, k0, 1))
      if a == 0 or a.denominator != 1:
        raise Unsupported('a loop writes the same element of %s again' % l.label)
      f = (int(a), b.id)
      if f in done:
        continue
      done.add(f)
      eff[('write', f)] = o[1]
      leaf.forms = getattr(leaf, 'forms', [])
      leaf.forms.append((key, int(a), b, f))

  def owner_of2(self, l, st, o, touched):
    others = [s for s, e in touched[id(o[1])] if s is not st and s is not l.pre]
    if not others:
      return True
    reach = Heap([l.pre.base])
    return not any(id(s) in reach.items for s in others)

  def growth(self, l, key, v, leaf):
    cur = l.current
    if isinstance(cur, PList) and isinstance(v, PList) and v.sym is not None:
      a, b = cur.sym, v.sym
    elif isinstance(cur, SymArr) and isinstance(v, SymArr) and v.sel is None and v._length is None \
        and v.cols == cur.cols:
      a, b = cur.store, v.store
    else:
      l.broken = True
      return
    if b.base is not a.base or b.overlay or a.tail:
      l.broken = True
      return
    for j, x in enumerate(b.tail):
      leaf.effects.setdefault(key, {})[('append', j)] = x

  def classify_values(self, leaf, touched):
    """Which stored values share memory with anything that outlives the iteration?"""
    mem = []
    for v, kind, st in self.heap.items.values():
      if kind in ('array', 'list', 'symarr', 'obj', 'dict', 'pylist'):
        mem.append(v)
    ids = set(id(v) for v in mem)
    arrays = [v for v in mem if isinstance(v, np.ndarray)]
    elems = {}
    for vid, es in touched.items():
      for st, o in es:
        elems.setdefault(vid, (st, o))
        for a in arrays_in(o[1]):
          if isinstance(a, np.ndarray):
            arrays.append(a)
    kept = []
    for key, eff in leaf.effects.items():
      for what, v in list(eff.items()):
        if what == 'post' or v is None or isinstance(v, (Sym, bool, int, float, str, np.generic)):
          eff[what] = ('new', v)
          continue
        if what[0] == 'write' and id(v) in touched and any(
            o[2] is not None and o[1] is v for st, o in touched[id(v)]):
          # changed in place: stays where it is
          own = [a for a in arrays_in(v)]
          eff[what] = ('new', v)
          self.check_parts(v, own, mem, arrays, touched, kept)
          continue
        if id(v) in touched and what[0] != 'write' or \
            id(v) in touched and any(o[2] is not None for st, o in touched[id(v)]):
          st, o = elems[id(v)]
          eff[what] = ('elem', st, o[0], v)
          continue
        if id(v) in ids:
          eff[what] = ('same', v)
          continue
        own = arrays_in(v)
        self.check_parts(v, own, mem, arrays, touched, kept)
        eff[what] = ('new', v)

  def check_parts(self, v, own, mem, arrays, touched, kept):
    mine = set(id(a) for a in own)
    ids = set(id(m) for m in mem)
    for a in own:
      if id(a) in ids and id(a) not in touched:
        raise Unsupported('a loop stores part of another object')
      if isinstance(a, np.ndarray):
        for b in arrays:
          if b is not a and id(b) not in mine and np.may_share_memory(a, b) and np.shares_memory(a, b):
            raise Unsupported('a loop stores a view of another object')
        for b in kept:
          if b is a or np.may_share_memory(a, b) and np.shares_memory(a, b):
            raise Unsupported('a loop stores the same object twice')
    kept.extend(a for a in own if isinstance(a, np.ndarray))

  # -- iteration to a stable description -------------------------------------------
  def analyse(self):
    for rnd in range(8):
      leaves = silently_run(self)
      if not self.update(leaves):
        break
    else:
      raise Unsupported('the effect of a loop has no stable description')
    leaves = self.run()
    if self.update(leaves):
      raise Unsupported('the effect of a loop has no stable description')
    normal = [(e, l) for e, l in leaves if l.kind == 'normal']
    self.exits = any(l.kind == 'exit' for _, l in leaves)
    self.trie = build_trie(leaves) if leaves else None
    self.normal = bool(normal)

  def update(self, leaves):
    """Extends the description by what the leaves show; True if it changed."""
    changed = False
    normal = [l for _, l in leaves if l.kind == 'normal']
    for leaf in normal:
      for key, a, b in leaf.new:
        if key in self.locs:
          continue
        if key[0] == 'name':
          pre = self.names.get(a, None)
          if a in self.names and is_number(pre) and is_number(b):
            l = Number(a, None, self.putter(a), pre)
            l.depth = self.depth
            l.name = ENG.fresh_name(a)
            l.bad = l.join(pre) is None or l.join(b) is None
            if l.bad:
              self.dead.add(a)
            else:
              self.locs[key] = l
            changed = True
          elif a in self.names and self.described(a, pre):
            changed = True
          elif a in self.names and isinstance(pre, (np.ndarray, SymArr, PList)) and \
              isinstance(b, (np.ndarray, SymArr, PList)) and not self.is_target(a) and \
              (not isinstance(pre, np.ndarray) or pre.ndim in (1, 2)):
            self.locs[key] = Growing(a, pre)
            self.locs[key].grows = 'one'
            changed = True
          else:
            if a not in self.dead:
              self.dead.add(a)
              changed = True
          continue
        if key[0] == 'cell':
          arr, ix = a, b
          l = Number('array cell', (lambda arr=arr, ix=ix: arr[ix]),
                     (lambda v, arr=arr, ix=ix: arr.__setitem__(ix, v)), self.heap.items[key[1]][2][ix])
          l.depth = self.depth
          l.name = ENG.fresh_name('cell')
          if l.join(l.pre) is None:
            raise Unsupported('a loop changes an array')
          l.sort = 'R' if arr.dtype == object else l.sort
        elif key[0] == 'attr':
          obj, at = a, b
          l = Number(at, (lambda obj=obj, at=at: obj.__dict__[at]),
                     (lambda v, obj=obj, at=at: obj.__dict__.__setitem__(at, v)),
                     self.heap.items[key[1]][2][at])
          l.depth = self.depth
          l.name = ENG.fresh_name(at)
          if l.join(l.pre) is None:
            raise Unsupported('a loop changes an attribute')
        elif key[0] == 'list':
          st = Store(ListSeq(b))
          l = Content('a list', st, a)
          l.prepare()
          l.grows = 'one'
        else:
          l = Content('a list', a)
          self.restore()
          l.prepare()
        self.locs[key] = l
        changed = True
    # forms of the known locations
    for key, l in list(self.locs.items()):
      effs = [leaf.effects.get(key, {}) for leaf in normal]
      if isinstance(l, Described):
        continue
      if isinstance(l, Number):
        changed |= self.number_sort(key, l, effs)
        continue
      apps = [sum(1 for w in e if isinstance(w, tuple) and w[0] == 'append') for e in effs]
      if isinstance(l, Growing) and l.broken and l.name not in self.dead:
        del self.locs[key]
        self.dead.add(l.name)
        changed = True
        continue
      if isinstance(l, Content):
        forms = {}
        for leaf in normal:
          for k2, a, b, f in getattr(leaf, 'forms', []):
            if k2 == key:
              forms[f] = (a, b, f)
        for f in forms.values():
          if not any(x[2] == f[2] for x in l.forms):
            l.forms.append(f)
            changed = True
        self.check_forms(l)
      if not any(apps):
        continue
      if max(apps) > 1:
        raise Unsupported('a loop appends several elements at once')
      if isinstance(l, Content) and l.forms:
        raise Unsupported('a loop appends to a list and writes its elements')
      g = 'one' if min(apps) == 1 else 'some'
      pat = tuple(apps) if g == 'some' else None
      if l.grows != g or l.pattern != pat:
        changed |= l.grows != g
        l.grows, l.pattern = g, pat
        self.repattern = True
    if changed and self.closed:
      raise Unsupported('the effect of a loop has no stable description')
    if not changed and not self.closed:
      # closed forms restrict the paths further: once they are in, nothing new may show up
      self.closed = True
      more = True
      while more:
        more = False
        for key, l in self.locs.items():
          if isinstance(l, Number) and l.form is None:
            more |= self.number_form(l, [leaf.effects.get(key, {}) for leaf in normal])
        changed |= more
    if self.repattern:
      self.repattern = False
      changed = True
    return changed

  def described(self, name, pre):
    for d in ENG.reg.get('invariants', ()):
      if d.match(pre):
        self.locs[('name', name)] = Described(name, d)
        return True
    return False

  def check_forms(self, l):
    fs = l.forms
    for i, (a, b, _) in enumerate(fs):
      for a2, b2, _ in fs[:i]:
        d = linnorm(tm.sub(b, b2))
        if a != a2 or not tm.is_num(d) or tm.val(d) % abs(a) == 0:
          raise Unsupported('a loop writes an element of %s in several iterations' % l.label)

  def is_target(self, nm):
    return self.test is None and any(isinstance(x, ast.Name) and x.id == nm for x in ast.walk(self.s.target))

  def putter(self, nm):
    def put(v):
      self.top[nm] = v
    return put

  def number_sort(self, key, l, effs):
    if l.bad:
      if key[0] != 'name':
        raise Unsupported('a number becomes something else in a loop')
      del self.locs[key]
      self.dead.add(key[1])
      return True
    sort = l.sort
    for e in effs:
      if 'post' in e and l.join(e['post'][1]) is None:
        if key[0] != 'name':
          raise Unsupported('a number becomes a condition in a loop')
        l.bad = True
        return True
    return l.sort != sort

  def number_form(self, l, effs):
    if l.sort not in ('I', 'R') or not effs:
      return False
    sym = tm.app(l.name, tuple(ENG.loop_ctx[:self.depth]) + (self.K,), l.sort)
    ds = [_difference(num0(term(e['post'][1])), sym) if 'post' in e else tm.num(0, l.sort) for e in effs]
    steps = {tm.app(x.name, sym.args[1:], x.sort): x.at(self.K, self, True).t for x in self.locs.values()
             if isinstance(x, Number) and x.form is not None and x.form[0] == 'step'}
    ds = [d if d is None or not steps else linnorm(tm.subst(d, steps)) if d.sort == 'I' else tm.subst(d, steps)
          for d in ds]
    names = [x.name for x in self.locs.values() if isinstance(x, Number)]
    if any(d is None or _mentions(d, names) for d in ds):
      return False
    line = _line(ds[0], self.K) if all(d is ds[0] for d in ds) else None
    if line is not None and line[1] is I0:
      l.form = ('step', ds[0])
    elif line is not None and l.sort == 'I':
      l.form = ('linear',) + line
    else:
      l.form = ('sum',)
    return True

  def increment(self, l, i):
    key = [k for k, x in self.locs.items() if x is l][0]
    leaf, sub, memo = self.leaf_at(i)
    p = leaf.effects.get(key, {}).get('post')
    if p is None:
      return Sym(tm.num(0, l.sort))
    sym = tm.app(l.name, tuple(ENG.loop_ctx[:self.depth]) + (self.K,), l.sort)
    return Sym(tm.subst(_difference(num0(term(p[1])), sym), sub, memo))

  # -- instances -----------------------------------------------------------------
  def leaf_at(self, i, sub=None):
    m = dict(sub or {})
    m[self.K] = i
    memo = {}
    leaf = walk(self.trie, m, memo)
    if leaf.kind == 'exit':
      raise PathEnd()         # an ordinary iteration
    return leaf, m, memo

  def effect(self, l, i, what, sub=None):
    """(value,) of the effect at iteration i, None if that iteration has none."""
    key = [k for k, x in self.locs.items() if x is l][0]
    leaf, m, memo = self.leaf_at(i, sub)
    e = leaf.effects.get(key, {}).get(what)
    if e is None:
      return None
    if e[0] == 'new':
      return (subst_value(e[1], m),)
    if e[0] == 'same':
      return (e[1],)
    if sub:
      raise Unsupported('nested summarised loops')
    return (e[1].read(linnorm(tm.subst(e[2], m, memo))),)

  # -- after the loop ---------------------------------------------------------------
  def export(self):
    """Elements kept in several places move to stores nobody writes to."""
    def visit(node):
      if node.leaf is not None:
        for eff in node.leaf.effects.values():
          for what, v in list(eff.items()):
            if v[0] == 'elem':
              eff[what] = ('elem', v[1].share().store, v[2], v[3])
      for k in node.kids.values():
        visit(k)
    if self.trie is not None:
      visit(self.trie)

  def finish(self):
    self.restore()
    for l in self.locs.values():
      if isinstance(l, Described):
        l.about.check_start(l.name, self.names[l.name])
    self.export()
    self.check_iterated()
    if self.exits and ENG.decide(ENG.fresh('leaves', 'B').t):
      m = ENG.fresh('m', 'I').t
      ENG.assume(tm.le(I0, m))
      if self.n is not None:
        ENG.assume(tm.lt(m, self.n))
      self.install(m, self, False)
      if self.test is not None:
        if not self.it.truth(self.it.eval(self.test, self.env, self.g)):
          raise PathEnd()
      else:
        self.it.assign(self.s.target, self.get(m), self.env, self.g)
      r = self.it.block(self.s.body, self.env, self.g)
      if r[0] in ('normal', 'continue'):
        raise PathEnd()
      return NORMAL if r[0] == 'break' else r
    n = self.n
    if n is None:
      n = ENG.fresh('n', 'I').t
      ENG.assume(tm.le(I0, n))
    if not self.normal:
      ENG.assume(tm.eq(n, I0))
    if self.exits and not ENG.loop_ctx:
      for w in ENG.reg.get('watch', ()):
        if ENG.decide(tm.and_(tm.le(I0, w), tm.lt(w, n))):
          self.leaf_at(w)
    if self.test is not None:
      self.held_before(n)
    self.install(n, self, False)
    if self.test is not None:
      ENG.assumed.add('while loops end (partial correctness)')
      if self.it.truth(self.it.eval(self.test, self.env, self.g)):
        raise PathEnd()
    if self.s.orelse:
      return self.it.block(self.s.orelse, self.env, self.g)
    return NORMAL

  def held_before(self, n):
    """The last iteration, if there was one, began with the test true."""
    if not ENG.decide(tm.lt(I0, n)):
      return
    self.install(tm.sub(n, tm.num(1, 'I')), self, False)
    if not self.it.truth(self.it.eval(self.test, self.env, self.g)):
      raise PathEnd()

  def check_iterated(self):
    if self.get is None:
      return
    reach = Heap([self.get, self.iterated]).items
    for l in self.locs.values():
      if isinstance(l, Content) and l.grows and (id(l.store) in reach or id(l.plist) in reach):
        raise Unsupported('a loop changes the length of the list it goes through')


def silently_run(loop):
  mode = ENG.mode
  ENG.mode = 'silent'
  try:
    return loop.run()
  finally:
    ENG.mode = mode


def _pre_entry(o, entries):
  return any(o[1] is e[1] for e in entries)


def _same_attrs(a, b):
  return list(dict.keys(a)) == list(dict.keys(b)) and all(
      x is y for x, y in zip(dict.values(a), dict.values(b)))


def _difference(p, sym):
  """p - sym if p is sym plus something without sym."""
  if p.sort == 'R' and sym.sort == 'I':
    return None
  if p is sym:
    return tm.num(0, p.sort)
  parts = []

  def flat(t):
    if t.op == 'add':
      flat(t.args[0])
      flat(t.args[1])
    else:
      parts.append(t)
  flat(p)
  hits = [t for t in parts if t is sym or t.op == 'toreal' and t.args[0] is sym]
  if len(hits) != 1:
    return None
  r = tm.num(0, p.sort)
  for t in parts:
    if t is not hits[0]:
      r = tm.add(r, t)
  return r


def _line(t, K):
  """(a, b) if t is a + b K, a and b without K."""
  if not tm.free_in(t, K):
    return t, I0
  if t.sort != 'I':
    return None
  a, b = I0, Fraction(0)
  co, k0 = lin_parts(t)
  b = co.pop(K, Fraction(0))
  if any(tm.free_in(x, K) for x in co) or b.denominator != 1:
    return None
  return linnorm(_scaled(co, k0, 1)), tm.num(b, 'I')


def _mentions(t, names):
  return any(s.op == 'app' and s.args[0] in names for s in tm.subterms([t]))


def _depends(t, K):
  return any(s is K for s in tm.subterms([t]))


# ---------------------------------------------------------------------------

class Loops(object):
  PList = PList

  def __init__(self, interp, rt):
    self.interp = interp
    self.rt = rt
    self.contracts = {}       # stated contracts of loops, by function
    self.always = set()       # contents sorted on every path

  def is_symbolic(self, v):
    return is_symseq(v)

  def for_loop(self, it, s, v, env, g):
    n = linnorm(seq_len(v))
    q = as_seq(v) if not isinstance(v, SymArr) else None
    get = (lambda i: v.row(i)) if q is None else (lambda i: q.elem(i))
    if tm.is_num(n):
      for i in range(int(tm.val(n))):
        it.assign(s.target, get(tm.num(i, 'I')), env, g)
        r = it.block(s.body, env, g)
        if r[0] == 'break':
          return NORMAL
        if r[0] == 'return':
          return r
      return it.block(s.orelse, env, g)
    lp = Loop(self, it, s, env, g, n, get, None)
    lp.iterated = v
    lp.analyse()
    return lp.finish()

  def while_loop(self, it, s, env, g):
    lp = Loop(self, it, s, env, g, None, None, s.test)
    lp.analyse()
    return lp.finish()

  def invariant_for(self, it, s, env):
    """The stated contract of the outermost loop of a function, if there is one."""
    c = self.contracts.get(env.get('__pyvc_fid__'))
    if c is None or c.running or ENG.loop_ctx or not set(c.names) <= self.assigned(s):
      return None
    return lambda it, s, env, g, v=None: self.by_contract(c, it, s, env, g, v)

  def assigned(self, s):
    target = [s.target] if isinstance(s, ast.For) else []
    nodes = [n for b in s.body + target for n in ast.walk(b)]
    return set(n.id for n in nodes if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del))) | \
        set(n.name for n in nodes if isinstance(n, ast.ExceptHandler) and n.name)

  def by_contract(self, c, it, s, env, g, v):
    """The invariant holds before the loop and is preserved by one run of the body from an
    arbitrary state that satisfies it; the code after the loop runs from such a state."""
    names = sorted(self.assigned(s))
    own = set(n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)) if isinstance(s, ast.For) else ()
    old = {nm: env[nm] for nm in names if nm in env and nm not in own and not isinstance(env.get(nm), Poison)}
    c.start(env)
    state = c.arbitrary(old)
    for nm in names:
      env[nm] = state[nm] if nm in state and nm in old else Poison('a value of an earlier iteration')
    if isinstance(s, ast.For):
      n = linnorm(seq_len(v))
      k = ENG.fresh('k', 'I')
      ENG.assume(tm.and_(tm.le(I0, k.t), tm.le(k.t, n)))
      c.counter(k, Sym(n))
      more = ENG.decide(tm.lt(k.t, n))
      if more:
        it.assign(s.target, v.row(k.t) if isinstance(v, SymArr) else as_seq(v).elem(k.t), env, g)
    else:
      more = it.truth(it.eval(s.test, env, g))
    if not more:
      return it.block(s.orelse, env, g)
    before = {nm: env[nm] for nm in old}
    heap = Heap([v for k, v in env.items() if not k.startswith('__pyvc_') and not isinstance(v, Poison)])
    c.running = True
    try:
      r = it.block(s.body, env, g)
    finally:
      c.running = False
    if r[0] == 'return':
      return r
    if heap.changed():
      raise Unsupported('a loop with a stated invariant changes an object in place')
    c.step(before, env, r[0] == 'break')
    if r[0] == 'break':
      return NORMAL
    raise PathEnd()

  def probe(self, f):
    """(does the condition depend on unknowns?, its value)"""
    out = silently(f)
    vals = set(r for _, r in out)
    if len(vals) != 1:
      return True, None
    return False, f()

  # -- whole sequences -----------------------------------------------------------
  def generic(self, n, fn, name=None):
    """[(facts, value)] of fn at a generic index below n."""
    j = tm.var(name or ENG.fresh_name('j'), 'I')

    def go():
      ENG.assume(tm.and_(tm.le(I0, j), tm.lt(j, n)))
      heap.restore()
      v = fn(j)
      return list(ENG.facts), v
    heap = Heap([fn])
    try:
      return j, [r for _, r in silently(go)]
    finally:
      heap.restore()

  def require_all(self, label, n, fn):
    """Obligation: the condition fn(j) holds for every index below n."""
    j = tm.var(ENG.fresh_name('j'), 'I')

    def go():
      ENG.assume(tm.and_(tm.le(I0, j), tm.lt(j, n)))
      heap.restore()
      ENG.oblige(label, as_bool_term(fn(j)), False)
    heap = Heap([fn])
    try:
      ENG.explore(go)
    finally:
      heap.restore()

  def for_all(self, n, fn, timeout=4.0):
    """Is the condition fn(j) provable for every index below n?"""
    def f(j):
      return as_bool_term(fn(j))
    _, out = self.generic(n, f)
    return all(solve.prove(facts, t, timeout, want_model=False).status == 'proved' for facts, t in out)

  def sum_fn(self, n, fn):
    """Sum of fn(0..n-1), a named value; equal sums get equal names."""
    def val(j):
      v = fn(j)
      if isinstance(v, np.ndarray):
        if v.size != 1:
          raise Unsupported('sum of rows')
        v = v.reshape(-1)[0]
      return Sym(tm.real(num0(term(exact(v)))))
    j, vs = self.generic(n, val)
    ts = set(v.t for _, v in vs)
    if not ts:
      return Sym(tm.ZERO)
    if len(ts) == 1:
      t = next(iter(ts))
      if not _depends(t, j):
        return Sym(tm.mul(tm.real(n), t))
      first = tm.subst(t, {j: I0}, {})
      if solve.entails_eq([], t, first):
        return Sym(tm.mul(tm.real(n), first))
    for n2, fn2, s2 in ENG.reg.setdefault('sum', []):
      if n2 is n and self.for_all(n, lambda i: mkbool(tm.eq(val(i).t, fn2(i).t))):
        return s2
    s = ENG.fresh('sum')
    if all(solve.prove(f, tm.le(tm.ZERO, v.t), 2.0, want_model=False).status == 'proved' for f, v in vs):
      ENG.assume(tm.le(tm.ZERO, s.t))
    ENG.assume(tm.implies(tm.eq(n, I0), tm.eq(s.t, tm.ZERO)))
    ENG.reg['sum'].append((n, val, s))
    return s

  def sum_of(self, x):
    if isinstance(x, SymArr) and x.ndim == 2 and x.ncols != 1:
      raise Unsupported('sum of rows')
    if isinstance(x, SymArr) and x.ndim == 1 and x.start is I0 and x._length is None:
      total = getattr(x.store.freeze(), 'total', None)
      if total is not None:           # the sum of differences
        return total()
    q = x.seq() if isinstance(x, (PList, SymArr)) else as_seq(x)
    return self.sum_fn(linnorm(q.length), q.elem)

  def symbol(self, hint, x, args, sort):
    """A value determined by the contents of a sequence and args."""
    q = x.seq() if isinstance(x, (PList, SymArr)) else as_seq(x)
    n = linnorm(q.length)
    j, vs = self.generic(n, q.elem, '#')
    if len(vs) != 1:
      t = ENG.fresh_name(hint)
      ctx = tuple(ENG.loop_ctx)
      return tm.app(t, ctx + tuple(args), sort)
    v = vs[0][1]
    ts = [num0(term(exact(y))) for y in (v.ravel() if isinstance(v, np.ndarray) else [v])]
    ctx = tuple(k for k in ENG.loop_ctx if tm.free_in(n, k) or any(tm.free_in(t, k) for t in ts))
    name = '%s#%s' % (hint, '.'.join(str(t.id) for t in [n] + ts))
    return tm.app(name, ctx + tuple(args), sort)

  def increasing(self, t):
    """The function applied in t increases strictly: facts about t and the other applications."""
    i = t.args[-1]
    seen = ENG.reg.setdefault(('increasing', t.args[0]), [])
    if any(u is t for u in seen):
      return
    for u in seen:
      j = u.args[-1]
      d = linnorm(tm.sub(i, j))
      if tm.is_num(d):
        ENG.assume(tm.lt(u, t) if tm.val(d) > 0 else tm.lt(t, u))
      else:
        ENG.assume(tm.iff(tm.lt(j, i), tm.lt(u, t)))
        ENG.assume(tm.iff(tm.lt(i, j), tm.lt(t, u)))
        ENG.assume(tm.implies(tm.eq(j, i), tm.eq(u, t)))
    seen.append(t)

  def notice(self, t):
    """Monotonicity facts for applications that came up by substitution."""
    names = set(k[1] for k in ENG.reg if isinstance(k, tuple) and k[0] == 'increasing')
    for s in list(tm.subterms([t])):
      if s.op == 'app' and s.args[0] in names:
        self.increasing(s)

  def stat(self, name, x, extra):
    return Sym(self.symbol(name, x, extra, 'R'))

  def bracket(self, xs, x, left=True):
    """Insertion point of x in the sorted sequence xs."""
    q = xs.seq() if isinstance(xs, (PList, SymArr)) else as_seq(xs)
    n = linnorm(q.length)
    x = Sym(tm.real(num0(term(exact(x)))))
    self.notice(x.t)
    i = self.symbol('bisect' if left else 'bisect_right', xs, (x.t,), 'I')
    known = ENG.reg.setdefault('sorted', [])
    if i.args[0] not in known and i.args[0] not in self.always:
      if self.always_sorted(xs):
        self.always.add(i.args[0])
      elif not self.is_sorted(xs):
        raise Unsupported('search in a sequence not known to be sorted')
      known.append(i.args[0])
    ENG.assume(tm.and_(tm.le(I0, i), tm.le(i, n)))
    j, vs = self.generic(n, q.elem, '#')
    if len(vs) == 1:
      # both neighbours without a case distinction on whether they exist
      v = num0(term(exact(vs[0][1])))
      b = tm.subst(v, {j: i}, {})
      a = tm.subst(v, {j: linnorm(tm.sub(i, I1))}, {})
      self.notice(b)
      self.notice(a)
      ENG.assume(tm.implies(tm.lt(i, n), tm.le(x.t, b) if left else tm.lt(x.t, b)))
      ENG.assume(tm.implies(tm.lt(I0, i), tm.lt(a, x.t) if left else tm.le(a, x.t)))
      return i
    if ENG.decide(tm.lt(i, n)):
      v = seq_get(xs, i)
      ENG.assume(as_bool_term(x <= v if left else x < v))
    if ENG.decide(tm.lt(I0, i)):
      v = seq_get(xs, linnorm(tm.sub(i, I1)))
      ENG.assume(as_bool_term(v < x if left else v <= x))
    return i

  def interpolate(self, x, xp, fp):
    n = linnorm(seq_len(xp))
    if not ENG.decide(tm.eq(n, linnorm(seq_len(fp)))):
      raise ValueError('fp and xp are not of the same length.')
    if ENG.decide(tm.eq(n, I0)):
      raise ValueError('array of sample points is empty')
    xp, fp = xp.copy(), fp.copy()

    def value(v):
      i = self.bracket(xp, v)
      if not ENG.decide(tm.lt(i, n)):
        return seq_get(fp, linnorm(tm.sub(n, I1)))
      if not ENG.decide(tm.lt(I0, i)):
        return seq_get(fp, I0)
      h = linnorm(tm.sub(i, I1))
      a, b, fa, fb = seq_get(xp, h), seq_get(xp, i), seq_get(fp, h), seq_get(fp, i)
      from pyvc.runtime import h_div
      return fa + h_div((fb - fa) * (v - a), b - a)
    if is_symseq(x):
      q = x.seq()
      return SymArr.of(FnSeq(q.length, lambda i: value(q.elem(i))))
    if isinstance(x, np.ndarray) and x.ndim == 1:
      r = np.empty(x.shape, dtype=object)
      for i, v in enumerate(x):
        r[i] = value(v)
      return r
    return value(x)

  def extremum(self, x, mx):
    raise Unsupported('maximum')

  def content(self, x):
    """A name for the contents of a sequence; provably equal contents get the same name."""
    if ENG.loop_ctx:
      raise Unsupported('named contents inside a loop')
    q = deep_copy(x)
    q = q.seq() if isinstance(q, (PList, SymArr)) else as_seq(q)
    n = linnorm(q.length)

    def row(v):
      if isinstance(v, np.ndarray):
        v = list(v.ravel())
      elif is_obj(v):
        v = [getattr(v, k) for k in sorted(vars(v))]
      elif not isinstance(v, (list, tuple)):
        return [tm.real(num0(term(exact(v))))]
      return [t for y in v for t in row(y)]

    def same(i):
      a, b = row(q.elem(i)), row(q2.elem(i))
      if len(a) != len(b) or any(y.op == z.op == 'app' and y.args[0] != z.args[0] for y, z in zip(a, b)):
        return False
      return mkbool(tm.and_(*[tm.eq(y, z) for y, z in zip(a, b)]))
    for n2, q2, name in ENG.reg.setdefault('contents', []):
      if (n2 is n or solve.entails_eq(ENG.facts, n2, n)) and self.for_all(n, same):
        return name
    name = ENG.fresh_name('content')
    ENG.reg['contents'].append((n, q, name))
    return name

  def cross(self, a, b, l):
    """Sum of a[i + l] b[i] over all i where both exist."""
    x, y = self.content(a), self.content(b)
    if x > y:
      x, y, l = y, x, tm.neg(l)
    return Sym(tm.app('cross#%s|%s' % (x, y), (linnorm(l),), 'R'))

  def correlate(self, a, b, mode):
    a, b = [self.rt.as_array(x) if isinstance(x, PList) else x for x in (a, b)]
    if not all(isinstance(x, SymArr) for x in (a, b)):
      raise Unsupported('correlation of arrays of fixed length')
    na, nb = linnorm(a.length), linnorm(b.length)
    if ENG.decide(tm.eq(na, I0)) or ENG.decide(tm.eq(nb, I0)):
      raise Unsupported('correlation of an empty array')
    if a.ndim == b.ndim == 1 and mode == 'full':
      ENG.assumed.add('scipy.signal.correlate, full: element k is the sum of a[i + k - len(b) + 1] b[i]')
      self.cross(a, b, I0)
      x, y = deep_copy(a), deep_copy(b)
      k0 = linnorm(tm.sub(nb, I1))
      return SymArr.of(FnSeq(linnorm(tm.add(na, k0)), lambda i: self.cross(x, y, tm.sub(i, k0))))
    if a.ndim == b.ndim == 2 and mode == 'same':
      ENG.assumed.add('scipy.signal.correlate, same: as many rows as the signal, '
                      'determined by the signal and the kernel')
      name = 'smooth#%s|%s' % (self.content(a), self.content(b))
      m = a.ncols

      def elem(i):
        r = np.empty(m, dtype=object)
        for j in range(m):
          r[j] = Sym(tm.app(name, (i, tm.num(j, 'I')), 'R'))
        return r
      return SymArr.of(FnSeq(na, elem), m)
    raise Unsupported('correlation')

  def argmax(self, x, mx):
    if isinstance(x, SymArr) and x.ndim != 1:
      raise Unsupported('argmax of rows')
    ENG.assumed.add('numpy.argmax/argmin: the first index of an extreme value')
    q = deep_copy(x)
    q = q.seq() if isinstance(q, (PList, SymArr)) else as_seq(q)
    n = linnorm(q.length)
    if ENG.decide(tm.eq(n, I0)):
      raise ValueError('attempt to get argmax of an empty sequence')
    k = tm.app('%s#%s' % ('argmax' if mx else 'argmin', self.content(x)), (), 'I')
    ENG.assume(tm.and_(tm.le(I0, k), tm.lt(k, n)))
    v = num0(term(q.elem(k)))
    for i in ENG.reg.get('consider', ()):
      u = num0(term(q.elem(i)))
      if not mx:
        u, v = v, u
      inside = tm.and_(tm.le(I0, i), tm.lt(i, n))
      ENG.assume(tm.implies(inside, tm.le(u, v)))
      ENG.assume(tm.implies(tm.and_(inside, tm.lt(i, k)), tm.lt(u, v)))
    return Sym(k)

  def quant(self, x, every):
    q = x.seq() if isinstance(x, (PList, SymArr)) else as_seq(x)
    if every and self.for_all(q.length, q.elem):
      return True
    if not every and self.for_all(q.length, lambda i: mkbool(tm.not_(as_bool_term(q.elem(i))))):
      return False
    raise Unsupported('condition on all elements')

  def allclose(self, a, b, rtol, atol):
    from pyvc.npshim import isclose1
    qa = a.seq() if isinstance(a, (PList, SymArr)) else None
    qb = b.seq() if isinstance(b, (PList, SymArr)) else None
    if qa is None or qb is None:
      raise Unsupported('allclose')
    if not ENG.decide(tm.eq(qa.length, qb.length)):
      raise ValueError('operands could not be broadcast together')

    def cond(i):
      x, y = qa.elem(i), qb.elem(i)
      if isinstance(x, np.ndarray) or isinstance(y, np.ndarray):
        raise Unsupported('allclose')
      return mkbool(tm.eq(num0(term(x)), num0(term(y))))
    if self.for_all(qa.length, cond):
      return True
    raise Unsupported('allclose')

  def is_sorted(self, a):
    q = as_seq(a) if not isinstance(a, SymArr) else a.seq()
    n = linnorm(tm.sub(q.length, I1))
    return self.for_all(n, lambda i: q.elem(i) <= q.elem(linnorm(tm.add(i, I1))))

  def always_sorted(self, xs):
    """Sorted whatever else is known on this path?"""
    q = xs.seq() if isinstance(xs, (PList, SymArr)) else as_seq(xs)
    _, vs = self.generic(linnorm(q.length), q.elem)
    if len(vs) != 1 or any('!' in s.args[0] for s in tm.subterms([term(exact(vs[0][1]))])
                           if s.op in ('var', 'app') and not s.args[0].startswith('j!')):
      return False            # names that mean something else on another path
    facts, reg = list(ENG.facts), ENG.reg
    ENG.set_facts([])
    ENG.reg = {}
    try:
      return self.is_sorted(xs)
    finally:
      ENG.set_facts(facts)
      ENG.reg = reg

  def compress(self, data, sel):
    """The items whose flag holds, in their order."""
    n, k = linnorm(seq_len(data)), linnorm(seq_len(sel))
    if not (n is k or solve.prove(ENG.facts, tm.eq(n, k), 4.0).status == 'proved'):
      raise Unsupported('compress')
    nm = 'kept#' + self.content(sel)
    m = tm.app(nm + '.n', (), 'I')
    ENG.assume(tm.and_(tm.le(I0, m), tm.le(m, n)))

    def el(j):
      t = tm.app(nm, (j,), 'I')
      ENG.assume(tm.and_(tm.le(I0, t), tm.lt(t, n)))
      ENG.assume(as_bool_term(self.rt_get(sel, t)))
      return self.rt_get(data, t)
    return PList.of(FnSeq(m, el))

  def rt_get(self, x, i):
    return x.row(i) if isinstance(x, SymArr) else as_seq(x).elem(i)
