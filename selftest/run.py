"""Self-test of the loop rule: statements that hold must be proved, false ones must not.

usage: python3-vt selftest/run.py [case...]
"""
import multiprocessing
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
os.environ['PYVC_REPO'] = os.path.join(HERE, 'repo')
sys.path.insert(0, os.path.dirname(HERE))
sys.setrecursionlimit(20000)

CASES = []


def case(want):
  def deco(f):
    CASES.append((f.__name__, want, f))
    return f
  return deco


true, false, reach = case('proved'), case('not'), case('any')


def nums(c, name='x', n=None, lo=0):
  n = c.length('n', lo, 6) if n is None else n
  return n, c.seq(name, n, lambda e: e.real('v'))


def boxes(c, n=None):
  B = c.mod('loopcases').Box
  n = c.length('n', 0, 6) if n is None else n
  return n, c.seq('b', n, lambda e: B(e.real('v')))


def M(c):
  return c.mod('loopcases')


@true
def build(c):
  n, xs = nums(c)
  out = M(c).build(xs)
  c.eq('length', c.len(out), n)
  for i in c.each('i', n):
    c.eq('element', c.at(out, i), 2 * c.at(xs, i))


@false
def build_wrong(c):
  n, xs = nums(c)
  out = M(c).build(xs)
  for i in c.each('i', n):
    c.eq('element', c.at(out, i), 3 * c.at(xs, i))


@false
def build_length(c):
  n, xs = nums(c)
  c.eq('length', c.len(M(c).build(xs)), n + 1)


@true
def comp(c):
  n, xs = nums(c)
  out = M(c).build_comp(xs)
  c.eq('length', c.len(out), n)
  for i in c.each('i', n):
    c.eq('element', c.at(out, i), c.at(xs, i) + 1)


@true
def select(c):
  n, xs = nums(c)
  out = M(c).select(xs)
  c.le('length', c.len(out), n)
  for i in c.each('i', c.len(out)):
    c.lt('positive', 0, c.at(out, i))


@false
def select_length(c):
  n, xs = nums(c)
  c.eq('length', c.len(M(c).select(xs)), n)


@false
def select_first(c):
  n, xs = nums(c, lo=1)
  out = M(c).select(xs)
  for i in c.each('i', c.len(out)):
    c.eq('element', c.at(out, i), c.at(xs, i))


@false
def select_bound(c):
  n, xs = nums(c)
  out = M(c).select(xs)
  for i in c.each('i', c.len(out)):
    c.lt('above one', 1, c.at(out, i))


@true
def select_two(c):
  n, xs = nums(c)
  a, b = M(c).select_two(xs)
  c.eq('lengths', c.len(a), c.len(b))
  for i in c.each('i', c.len(a)):
    c.eq('same element', c.at(a, i), -c.at(b, i))


@false
def partition_lengths(c):
  n, xs = nums(c)
  a, b = M(c).partition(xs)
  c.eq('lengths', c.len(a), c.len(b))


@true
def partition(c):
  n, xs = nums(c)
  a, b = M(c).partition(xs)
  for i in c.each('i', c.len(b)):
    c.le('rest', c.at(b, i), 0)


@true
def fill(c):
  n, xs = nums(c)
  out = M(c).fill(xs)
  c.eq('length', c.len(out), n)
  for i in c.each('i', n):
    c.eq('element', c.at(out, i), c.at(xs, i) + i)


@false
def fill_wrong(c):
  n, xs = nums(c)
  out = M(c).fill(xs)
  for i in c.each('i', n):
    c.eq('element', c.at(out, i), c.at(xs, i))


@true
def reverse(c):
  n, xs = nums(c)
  out = M(c).reverse(xs)
  for i in c.each('i', n):
    c.eq('element', c.at(out, i), c.at(xs, n - 1 - i))


@false
def reverse_wrong(c):
  n, xs = nums(c)
  out = M(c).reverse(xs)
  for i in c.each('i', n):
    c.eq('element', c.at(out, i), c.at(xs, i))


@true
def fill_some(c):
  n, xs = nums(c)
  out = M(c).fill_some(xs)
  for i in c.each('i', n):
    x = c.at(xs, i)
    c.eq('element', c.at(out, i), x if c.is_true(x > 1) else 0)


@false
def fill_some_wrong(c):
  n, xs = nums(c)
  out = M(c).fill_some(xs)
  for i in c.each('i', n):
    c.eq('element', c.at(out, i), c.at(xs, i))


@reach
def shift(c):
  n, xs = nums(c, lo=1)
  s = c.snap(xs)
  out = M(c).shift_in_place(xs)
  for i in c.each('i', n - 1):
    c.eq('element', c.at(out, i), c.at(s[0], i + 1))


@false
def shift_wrong(c):
  n, xs = nums(c, lo=1)
  s = c.snap(xs)
  out = M(c).shift_in_place(xs)
  for i in c.each('i', n - 1):
    c.eq('element', c.at(out, i), c.at(s[0], i))


@false
def prefix_wrong(c):
  n, xs = nums(c, lo=3)
  s = c.snap(xs)
  out = M(c).prefix(xs)
  c.eq('element', c.at(out, 2), c.at(s[0], 2) + c.at(s[0], 1))


@true
def count(c):
  n, xs = nums(c)
  c.eq('count', M(c).count(xs), n)


@false
def count_wrong(c):
  n, xs = nums(c)
  c.eq('count', M(c).count(xs), n + 1)


@false
def count_some(c):
  n, xs = nums(c)
  c.eq('count', M(c).count_some(xs), n)


@false
def total_zero(c):
  n, xs = nums(c)
  c.eq('sum', M(c).total(xs), 0)


@true
def total(c):
  n, xs = nums(c)
  c.eq('sums agree', M(c).total(xs), M(c).total_np(xs))


@false
def total_other(c):
  n, xs = nums(c)
  n, ys = nums(c, 'y', n)
  c.eq('sums agree', M(c).total(xs), M(c).total(ys))


@false
def last(c):
  n, xs = nums(c)
  c.eq('last', M(c).last(xs), 0)


@true
def find(c):
  n, xs = nums(c)
  y = c.real('y')
  i = M(c).find(xs, y)
  if c.is_true(i >= 0):
    c.lt('in range', i, n)
    c.eq('found', c.at(xs, i), y)


@false
def find_never(c):
  n, xs = nums(c)
  c.eq('found', M(c).find(xs, c.real('y')), -1)


@false
def find_always(c):
  n, xs = nums(c)
  c.le('found', 0, M(c).find(xs, c.real('y')))


@false
def asserts(c):
  n, xs = nums(c)
  M(c).all_positive(xs)


@true
def asserts_ok(c):
  n = c.length('n', 0, 6)
  xs = c.seq('x', n, lambda e: e.real('v', lo=1))
  c.check('true', M(c).all_positive(xs))


@true
def early(c):
  n, xs = nums(c)
  out = M(c).early(xs)
  c.le('length', c.len(out), n)
  for i in c.each('i', c.len(out)):
    c.eq('prefix', c.at(out, i), c.at(xs, i))
    c.le('not negative', 0, c.at(out, i))


@false
def early_all(c):
  n, xs = nums(c)
  c.eq('length', c.len(M(c).early(xs)), n)


@false
def else_clause(c):
  n, xs = nums(c)
  c.eq('else', M(c).else_clause(xs), 1)


@false
def else_clause_never(c):
  n, xs = nums(c)
  c.eq('else', M(c).else_clause(xs), 0)


@true
def made_boxes(c):
  n, xs = nums(c, lo=2)
  out = M(c).boxes(xs)
  i, j = c.index('i', n), c.index('j', n)
  c.assume(i < j)
  a, b = c.at(out, i), c.at(out, j)
  c.disjoint('separate', a, b)
  a.v = 3
  c.eq('other', b.v, c.at(xs, j))


@true
def mutate(c):
  n, bs = boxes(c)
  s = c.snap(bs)
  M(c).mutate(bs)
  for i in c.each('i', n):
    c.eq('changed', c.at(bs, i).v, c.at(s[0], i).v + 1)


@false
def mutate_wrong(c):
  n, bs = boxes(c)
  s = c.snap(bs)
  M(c).mutate(bs)
  for i in c.each('i', n):
    c.eq('changed', c.at(bs, i).v, c.at(s[0], i).v)


@false
def mutate_frame(c):
  n, bs = boxes(c)
  s = c.snap(bs)
  M(c).mutate(bs)
  c.unchanged('unchanged', s, bs)


@true
def mutate_array(c):
  n, bs = boxes(c)
  M(c).mutate_array(bs)
  for i in c.each('i', n):
    c.eq('changed', list(c.at(bs, i).a), [5, c.at(bs, i).v])


@false
def same_object(c):
  n = c.length('n', 2, 6)
  out = M(c).same_object(n)
  i, j = c.index('i', n), c.index('j', n)
  c.assume(i < j)
  c.disjoint('separate', c.at(out, i), c.at(out, j))


@false
def same_object_value(c):
  n = c.length('n', 2, 6)
  out = M(c).same_object(n)
  c.at(out, 0).v = 4
  c.eq('untouched', c.at(out, 1).v, 0)


@reach
def shared(c):
  n, bs = boxes(c)
  out = M(c).shared_then_changed(bs)
  for i in c.each('i', n):
    c.eq('changed', c.at(bs, i).v, 7)


@false
def shared_wrong(c):
  n, bs = boxes(c)
  s = c.snap(bs)
  M(c).shared_then_changed(bs)
  for i in c.each('i', n):
    c.eq('kept', c.at(bs, i).v, c.at(s[0], i).v)


@reach
def alias(c):
  n, bs = boxes(c)
  out = M(c).alias_copy(bs)
  for i in c.each('i', n):
    c.eq('changed', c.at(bs, i).v, 7)


@false
def alias_wrong(c):
  n, bs = boxes(c)
  s = c.snap(bs)
  M(c).alias_copy(bs)
  for i in c.each('i', n):
    c.eq('kept', c.at(bs, i).v, c.at(s[0], i).v)


@true
def deep(c):
  n, bs = boxes(c)
  s = c.snap(bs)
  out = M(c).deep(bs)
  for i in c.each('i', n):
    c.eq('kept', c.at(bs, i).v, c.at(s[0], i).v)
    c.eq('changed', c.at(out, i).v, 7)


@true
def rotate(c):
  n, xs = nums(c, lo=1)
  k = c.index('k', n)
  out = M(c).rotate(xs, k)
  for i in c.each('i', n):
    j = k + i - n if c.is_true(k + i >= n) else k + i
    c.eq('element', c.at(out, i), c.at(xs, j))


@true
def rows(c):
  n, xs = nums(c, lo=1)
  m = M(c).rows(xs)
  for i in c.each('i', n):
    c.eq('first', list(c.at(m, 2 * i)), [c.at(xs, i), 0, 1])
    c.eq('second', list(c.at(m, 2 * i + 1)), [0, c.at(xs, i), 2])


@false
def rows_wrong(c):
  n, xs = nums(c, lo=1)
  m = M(c).rows(xs)
  for i in c.each('i', n):
    c.eq('first', list(c.at(m, i)), [c.at(xs, i), 0, 1])


@true
def append_rows(c):
  n, xs = nums(c, lo=2)
  m = M(c).append_rows(xs)
  c.eq('length', c.len(m), n)
  for i in c.each('i', n):
    c.eq('first', c.at(m, i)[0], c.at(xs, i))


@false
def append_rows_wrong(c):
  n, xs = nums(c, lo=2)
  m = M(c).append_rows(xs)
  for i in c.each('i', n):
    c.eq('second', c.at(m, i)[1], 1)


@true
def attr_counter(c):
  n, xs = nums(c)
  b = M(c).Box(c.real('v'))
  v = b.v
  M(c).attr_counter(b, xs)
  c.eq('counted', b.v, v + 2 * n)


@false
def attr_counter_wrong(c):
  n, xs = nums(c)
  b = M(c).Box(c.real('v'))
  v = b.v
  M(c).attr_counter(b, xs)
  c.eq('counted', b.v, v + 2)


@true
def cell_counter(c):
  n, xs = nums(c)
  a = M(c).cell_counter(xs)
  c.eq('counted', a[0], n)


@false
def cell_counter_wrong(c):
  n, xs = nums(c)
  a = M(c).cell_counter(xs)
  c.eq('summed', a[1], 0)


@false
def fib(c):
  n = c.length('n', 0, 6)
  c.eq('fib', M(c).fib(n), n)


@false
def clamp(c):
  n, xs = nums(c)
  c.eq('max', M(c).clamp(xs), 0)


@true
def flip(c):
  n, bs = boxes(c)
  out = M(c).flip(bs)
  for i in c.each('i', n):
    c.le('non-negative', 0, c.at(bs, i).v)


@false
def flip_wrong(c):
  n, bs = boxes(c)
  s = c.snap(bs)
  out = M(c).flip(bs)
  for i in c.each('i', n):
    c.eq('negated', c.at(bs, i).v, -c.at(s[0], i).v)


@true
def two_passes(c):
  n, xs = nums(c)
  out = M(c).two_passes(xs)
  for i in c.each('i', n):
    c.eq('tripled', c.at(out, i), 3 * c.at(xs, i))


@false
def two_passes_wrong(c):
  n, xs = nums(c)
  out = M(c).two_passes(xs)
  for i in c.each('i', n):
    c.eq('tripled', c.at(out, i), c.at(xs, i))


@false
def store_twice(c):
  n, xs = nums(c, lo=1)
  a, b = M(c).store_twice(xs)
  c.disjoint('separate', c.at(a, 0), c.at(b, 0))


@false
def store_twice_value(c):
  n, xs = nums(c, lo=1)
  a, b = M(c).store_twice(xs)
  c.at(a, 0).v = c.at(a, 0).v + 1
  c.eq('kept', c.at(b, 0).v, c.at(xs, 0))


@false
def loop_variable(c):
  n, xs = nums(c, lo=0)
  c.eq('last index', M(c).loop_variable_after(xs), -5)


@false
def loop_variable_two(c):
  n, xs = nums(c, lo=0)
  c.eq('last index', M(c).loop_variable_after(xs), n - 1)


@false
def drop(c):
  n, xs = nums(c, lo=1)
  c.eq('zero', M(c).drop(xs), 0)


@false
def pops(c):
  n, xs = nums(c, lo=0)
  out = M(c).pops(xs)
  c.eq('length', c.len(out), 2)


@true
def read_back(c):
  n, xs = nums(c)
  out = M(c).read_back(xs)
  for i in c.each('i', n):
    c.eq('element', c.at(out, i), c.at(xs, i) + 1)


@reach
def nested(c):
  n, xs = nums(c, lo=1)
  m = c.length('m', 1, 4)
  out = M(c).nested(xs, m)
  for i in c.each('i', n):
    for j in c.each('j', m):
      c.eq('element', c.at(c.at(out, i), j), c.at(xs, i) + j)


@false
def nested_wrong(c):
  n, xs = nums(c, lo=1)
  m = c.length('m', 1, 4)
  out = M(c).nested(xs, m)
  for i in c.each('i', n):
    for j in c.each('j', m):
      c.eq('element', c.at(c.at(out, i), j), c.at(xs, i) + i)


@true
def two_writes(c):
  n, xs = nums(c)
  out = M(c).two_writes(xs)
  for i in c.each('i', n):
    c.eq('even', c.at(out, 2 * i), c.at(xs, i))
    c.eq('odd', c.at(out, 2 * i + 1), -c.at(xs, i))


@false
def overlapping(c):
  n, xs = nums(c, lo=2)
  out = M(c).overlapping(xs)
  c.eq('second', c.at(out, 1), -c.at(xs, 0))


@false
def constant_slot(c):
  n, xs = nums(c)
  out = M(c).constant_slot(xs)
  c.eq('slot', c.at(out, 0), 0)


@true
def zipped(c):
  n, xs = nums(c)
  n, ys = nums(c, 'y', n)
  out = M(c).zipped(xs, ys)
  c.eq('length', c.len(out), n)
  for i in c.each('i', n):
    c.eq('difference', c.at(out, i), c.at(xs, i) - c.at(ys, i))


@true
def enumerated(c):
  n, xs = nums(c)
  out = M(c).enumerated(xs)
  for i in c.each('i', n):
    c.eq('element', c.at(out, i), c.at(xs, i) + i)


@false
def carried_object(c):
  n, xs = nums(c)
  c.eq('value', M(c).carried_object(xs).v, 0)


@false
def carried_none(c):
  n, xs = nums(c)
  c.check('none', M(c).carried_none(xs) is None)


@true
def view(c):
  n = c.length('n', 0, 5)
  t = c.table('t', n, 3, lambda e: e.reals('r', 3))
  M(c).view(t)
  for i in c.each('i', n):
    c.eq('changed', c.at(t, i)[0], 9)


@false
def view_wrong(c):
  n = c.length('n', 0, 5)
  t = c.table('t', n, 3, lambda e: e.reals('r', 3))
  s = c.snap(t)
  M(c).view(t)
  for i in c.each('i', n):
    c.eq('changed', c.at(t, i)[0], c.at(s[0], i)[0])


@false
def grow_iterated(c):
  n, xs = nums(c, lo=1)
  c.eq('length', c.len(M(c).grow_iterated(xs)), 2 * n)


@false
def late_change(c):
  n, xs = nums(c, lo=1)
  c.eq('count', M(c).late_change(xs), n)


@false
def late_flag(c):
  n, xs = nums(c)
  c.eq('length', c.len(M(c).late_flag(xs)), 0)


@false
def late_flag_all(c):
  n, xs = nums(c)
  c.eq('length', c.len(M(c).late_flag(xs)), n)


@false
def vacuous(c):
  n, xs = nums(c)
  M(c).build(xs)
  M(c).select(xs)
  M(c).early(xs)
  M(c).find(xs, c.real('y'))
  M(c).total(xs)
  M(c).fill_some(xs)
  c.check('false', False)


def run(k):
  import time
  import traceback
  from pyvc import runtime
  from pyvc.engine import ENG, Unsupported, PathEnd, Enough
  from pyvc.symctx import SymCtx
  name, want, f = CASES[k]
  ENG.reset()
  ENG.deadline = time.time() + 60
  ENG.prove_timeout = 5.0
  detail = ''
  try:
    ld, it = runtime.build()
    ctx = SymCtx(ld)
    done = [0]

    def one():
      try:
        f(ctx)
      except (Unsupported, PathEnd, Enough):
        raise
      except Exception as e:
        from pyvc import solve
        if os.environ.get('PYVC_TB'):
          traceback.print_exc()
        if solve.z3_check(ENG.facts, [], 5.0)[0] == 'unsat':
          raise PathEnd()
        ENG.notes.append('%s: %s' % (type(e).__name__, e))
        raise PathEnd()
      done[0] += 1
    try:
      ENG.explore(one)
    except Enough:
      pass
    bad = [o for o in ENG.obligations if o.status != 'proved']
    st = 'error' if ENG.notes else 'open' if bad else 'proved' if done[0] and ENG.obligations else 'vacuous'
    detail = ENG.notes[0] if ENG.notes else bad[0].label if bad else ''
  except Unsupported as e:
    st, detail = 'unsupported', str(e)
    if os.environ.get('PYVC_TB'):
      traceback.print_exc()
  except Exception as e:
    st, detail = 'crash', ''.join(traceback.format_exception(*sys.exc_info()))[-600:]
  return name, want, st, detail


def main():
  ks = [k for k, c in enumerate(CASES) if not sys.argv[1:] or c[0] in sys.argv[1:]]
  bad = 0
  with multiprocessing.get_context('fork').Pool(8, maxtasksperchild=1) as pool:
    for name, want, st, detail in pool.imap(run, ks, chunksize=1):
      ok = st == 'proved' if want == 'proved' else st not in ('proved', 'crash', 'vacuous') if want == 'not' \
          else st != 'crash'
      bad += not ok
      print('%s %-20s want %-7s got %-12s %s' % ('   ' if ok else '***', name, want, st, detail))
  print('%d of %d as expected' % (len(ks) - bad, len(ks)))
  sys.exit(1 if bad else 0)


if __name__ == '__main__':
  main()
