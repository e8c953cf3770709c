"""Ghost state of the outside world: files, directories and processes.

Verified functions see this state through replacements of open, csv, json, os,
shlex and subprocess.  What is assumed about those libraries is recorded with
the obligations; nothing here touches the real file system.
"""
import re
import types
from fractions import Fraction

import numpy as np

from pyvc import terms as tm
from pyvc.engine import ENG, Sym, Unsupported, term, num0, is_number, mkbool
from pyvc.npshim import exact
from pyvc.seq import (PList, SymArr, FnSeq, ConcatSeq, ListSeq, as_seq, is_symseq, seq_get, seq_len,
                      linnorm, deep_copy)


class SymText(object):
  """Text in a file that reads as the given number; value None: not a number."""

  def __init__(self, value):
    self.value = value

  def number(self):
    if self.value is None:
      raise ValueError('could not convert string to float')
    return self.value

  def strip(self, *a):
    return self

  rstrip = lstrip = strip

  def __hash__(self):
    return id(self)

  def _no(self, *a, **k):
    raise Unsupported('text of a number')

  __eq__ = __ne__ = __len__ = __bool__ = __getitem__ = split = replace = startswith = _no


def to_number(x):
  return x.number() if isinstance(x, SymText) else x


class Opaque(object):
  """A value of which only the text form is used: its text is the token itself."""

  def __init__(self, token):
    self.token = token

  def __str__(self):
    if ENG.loop_ctx:
      raise Unsupported('text of an arbitrary value inside a loop')
    return self.token

  __repr__ = __str__

  def __format__(self, spec):
    str(self)
    return self.token if spec in ('', 's') else '%s:%s' % (self.token, spec)

  def __hash__(self):
    return hash(self.token)

  def __eq__(self, o):
    if o is self or isinstance(o, Opaque) and o.token == self.token:
      return True
    raise Unsupported('comparison of an arbitrary value')

  def __ne__(self, o):
    return not self == o

  def _no(self, *a, **k):
    raise Unsupported('operation on an arbitrary value')

  __bool__ = __len__ = __getitem__ = __iter__ = __add__ = __radd__ = __mul__ = __lt__ = __gt__ = _no
  __le__ = __ge__ = __float__ = __int__ = __contains__ = _no

  def __getattr__(self, n):
    if n.startswith('__'):
      raise AttributeError(n)
    raise Unsupported('attribute of an arbitrary value')

  def __deepcopy__(self, memo):
    return self

  __copy__ = lambda self: self


class OpaqueStr(Opaque):
  """An arbitrary text; empty or not is decided by a ghost variable."""

  def __bool__(self):
    return not ENG.decide(tm.var('empty:' + self.token, 'B'))

  def __add__(self, o):
    if isinstance(o, (str, Opaque)):
      return OpaqueStr('(%s+%s)' % (self, o))
    raise TypeError('can only concatenate str to str')

  def __radd__(self, o):
    return OpaqueStr('(%s+%s)' % (o, self))

  def __eq__(self, o):
    if isinstance(o, str) and o == '':
      return not bool(self)
    return Opaque.__eq__(self, o)

  __hash__ = Opaque.__hash__


# ---------------------------------------------------------------------------
# file contents

class Table(object):
  """Lines of numbers separated by delim."""

  def __init__(self, rows, delim):
    self.rows = rows            # SymArr (copied)
    self.delim = delim


class Json(object):

  def __init__(self, tree):
    self.tree = tree


class Junk(object):
  """Unknown text."""


class JsonText(object):

  def __init__(self, tree):
    self.tree = tree

  def __add__(self, o):
    if isinstance(o, str) and not o.strip():
      return self
    raise Unsupported('text after a JSON document')


class World(object):

  def __init__(self):
    self.files = {}
    self.commands = []
    self.exit = None
    self.missing = False
    self.dirs = {}              # token -> 'here' once known to exist
    self.made = []
    self.failures = []

  # ---- files ------------------------------------------------------------------
  def key(self, name):
    if isinstance(name, (str, Opaque)):
      return str(name)
    raise Unsupported('file name')

  def content(self, name):
    k = self.key(name)
    if k not in self.files:
      raise FileNotFoundError(2, 'No such file or directory')
    return self.files[k]

  def write(self, name, mode, content):
    k = self.key(name)
    old = self.files.get(k) if 'a' in mode else None
    if isinstance(old, Empty):
      old = None
    if old is not None:
      if isinstance(old, Table) and isinstance(content, Table) and old.delim == content.delim:
        content = Table(SymArr.of(ConcatSeq(old.rows.seq(), content.rows.seq()), old.rows.ncols), old.delim)
      else:
        content = Junk()
    self.files[k] = content

  def open(self, name, mode='r', *a, **k):
    return File(self, name, mode)


class Empty(object):
  """A file that was created or emptied."""


class File(object):

  def __init__(self, w, name, mode):
    if not isinstance(mode, str) or 'x' in mode or '+' in mode:
      raise Unsupported('open mode')
    self.w, self.name, self.mode = w, name, mode
    self.wrote = False
    self.closed = False
    if 'r' in mode or not ('w' in mode or 'a' in mode):
      w.content(name)
    elif 'w' in mode or w.key(name) not in w.files:
      w.files[w.key(name)] = Empty()

  def __enter__(self):
    return self

  def __exit__(self, *a):
    self.close()
    return False

  def close(self):
    self.closed = True

  def flush(self):
    pass

  def content(self):
    if self.closed:
      raise ValueError('I/O operation on closed file.')
    return self.w.content(self.name)

  def put(self, content):
    if self.closed:
      raise ValueError('I/O operation on closed file.')
    if 'r' in self.mode:
      raise OSError('not writable')
    self.w.write(self.name, 'a' if self.wrote else self.mode, content)
    self.wrote = True

  def write(self, text):
    if isinstance(text, JsonText):
      self.put(Json(deep_copy(text.tree)))
    elif isinstance(text, str) and not text.strip() and self.wrote:
      pass
    else:
      self.put(Junk())

  def read(self, *a):
    x = self.content()
    if isinstance(x, Json) and not a:
      return JsonText(deep_copy(x.tree))
    raise Unsupported('reading text')

  def _no(self, *a, **k):
    raise Unsupported('reading text')

  readline = readlines = __iter__ = seek = tell = truncate = _no

  def __getattr__(self, n):
    if n.startswith('__'):
      raise AttributeError(n)
    raise Unsupported('file.%s' % n)


# ---------------------------------------------------------------------------
# csv and text tables

def text_rows(content, delim):
  """The cells of a table as text."""
  if isinstance(content, Junk):
    raise Unsupported('text of unknown form')
  if isinstance(content, Empty):
    return PList([])
  if not isinstance(content, Table):
    raise Unsupported('this file is not a table')
  seq, cols = content.rows.seq(), content.rows.ncols
  if delim.strip() != content.delim.strip() and cols > 1:
    return PList.of(FnSeq(seq.length, lambda i: PList([SymText(None)])))

  def row(i):
    v = seq.elem(i)
    return PList([SymText(v[j]) for j in range(cols)])
  return PList.of(FnSeq(seq.length, row))


def csv_shim():
  m = types.ModuleType('csv')

  def reader(f, dialect='excel', **k):
    ENG.assumed.add('csv.reader: one row per line, split at the delimiter')
    for x in k:
      if x not in ('delimiter', 'quotechar', 'quoting', 'skipinitialspace'):
        raise Unsupported('csv.reader(%s)' % x)
    if dialect != 'excel' or not isinstance(f, File):
      raise Unsupported('csv.reader')
    return text_rows(f.content(), k.get('delimiter', ','))
  m.reader = reader

  def no(*a, **k):
    raise Unsupported('csv function')
  m.writer = m.DictReader = m.DictWriter = m.Sniffer = no
  m.QUOTE_NONE, m.QUOTE_MINIMAL, m.QUOTE_ALL, m.QUOTE_NONNUMERIC = 3, 0, 1, 2
  return m


def rounded(fmt):
  """The number that the text of a number reads as."""
  g = re.match(r'^%([+-]?)(?:\.(\d+))?([efgr])$', fmt) if isinstance(fmt, str) else None
  if g is None:
    raise Unsupported('number format %r' % (fmt,))
  kind, p = g.group(3), int(g.group(2) or 6)
  if kind == 'r' or kind == 'e' and p >= 16 or kind == 'g' and p >= 17:
    ENG.assumed.add('a number written with 17 significant digits reads back unchanged')
    return lambda v: v
  if kind == 'f':
    ENG.assumed.add('a number written with p decimals reads back within half a unit of the last decimal')
    bound = Fraction(1, 2 * 10 ** p)
    rel = False
  else:
    ENG.assumed.add('a number written with p significant digits reads back within half a unit of the last one')
    bound = Fraction(1, 2 * 10 ** (p if kind == 'e' else max(p, 1) - 1))
    rel = True

  def f(v):
    t = tm.real(num0(term(exact(v))))
    r = tm.app('text%s%d' % (kind, p), (t,), 'R')
    d = tm.sub(r, t)
    if rel:
      b = tm.num(bound)
      ENG.assume(tm.le(tm.mul(d, d), tm.mul(tm.mul(b, b), tm.mul(t, t))))
    else:
      ENG.assume(tm.and_(tm.le(d, tm.num(bound)), tm.le(tm.num(-bound), d)))
    return Sym(r)
  return f


def savetxt(w, f, a, fmt, delimiter, kw):
  for k in kw:
    if k != 'newline' or kw[k] != '\n':
      if k not in ('header', 'footer') or kw[k] != '':
        raise Unsupported('savetxt(%s)' % k)
  if isinstance(a, np.ndarray):
    if a.ndim != 2:
      raise Unsupported('savetxt of this array')
    seq, cols = ListSeq([r.copy() for r in a]), a.shape[1]
  elif isinstance(a, SymArr) and a.ndim == 2:
    seq, cols = a.seq(), a.ncols
  else:
    raise Unsupported('savetxt of this array')
  if isinstance(fmt, (list, tuple)):
    if len(fmt) != cols:
      raise ValueError('fmt has wrong number of % formats')
    fs = [rounded(x) for x in fmt]
  else:
    fs = [rounded(fmt)] * cols

  def row(i):
    v = seq.elem(i)
    r = np.empty(cols, dtype=object)
    for j in range(cols):
      r[j] = fs[j](v[j])
    return r
  t = Table(SymArr.of(FnSeq(seq.length, row), cols), delimiter)
  if isinstance(f, File):
    f.put(t)
  else:
    w.write(f, 'w', t)


def loadtxt(w, f, dtype=float, delimiter=None, **kw):
  for k in kw:
    if k not in ('ndmin', 'encoding', 'autostrip'):
      raise Unsupported('loadtxt(%s)' % k)
  c = f.content() if isinstance(f, File) else w.content(f)
  rows = text_rows(c, ' ' if delimiter is None else delimiter)
  if not is_symseq(rows):
    raise Unsupported('loadtxt of an empty file')
  if kw.get('ndmin') != 2:
    raise Unsupported('loadtxt drops dimensions of length one')
  cols = c.rows.ncols
  seq = c.rows.seq()

  def row(i):
    v = seq.elem(i)
    if delimiter is None or delimiter.strip() != c.delim.strip():
      raise ValueError('could not convert string to float')
    return v.copy()
  return SymArr.of(FnSeq(seq.length, row), cols)


# ---------------------------------------------------------------------------
# json

def tree(x):
  """What json.dump accepts, as a value of its own."""
  if x is None or isinstance(x, (bool, str, Opaque)):
    return x
  if isinstance(x, Sym) or isinstance(x, (int, float)):
    return x
  if isinstance(x, dict):
    for k in x:
      if not isinstance(k, str):
        raise Unsupported('key of a JSON object')
    return {k: tree(v) for k, v in x.items()}
  if is_symseq(x):
    raise Unsupported('JSON list of unknown length')
  if isinstance(x, (list, tuple)):
    return [tree(v) for v in x]
  if isinstance(x, np.ndarray) or isinstance(x, np.generic) or is_obj_(x):
    raise TypeError('Object of type %s is not JSON serializable' % type(x).__name__)
  raise Unsupported('JSON value')


def is_obj_(x):
  return hasattr(x, '__dict__') and not isinstance(x, (types.FunctionType, types.ModuleType))


def fresh_tree(x):
  if isinstance(x, dict):
    return {k: fresh_tree(v) for k, v in x.items()}
  if isinstance(x, list):
    return PList([fresh_tree(v) for v in x])
  return x


OPTS = ('indent', 'sort_keys', 'separators', 'ensure_ascii', 'allow_nan', 'check_circular')


def json_shim():
  m = types.ModuleType('json')

  def opts(k):
    ENG.assumed.add('json: what is dumped is loaded unchanged, numbers included')
    for x in k:
      if x not in OPTS:
        raise Unsupported('json option %s' % x)

  def dump(obj, f, **k):
    opts(k)
    if not isinstance(f, File):
      raise Unsupported('json.dump to this object')
    f.put(Json(tree(obj)))

  def dumps(obj, **k):
    opts(k)
    return JsonText(tree(obj))

  def load(f, **k):
    opts(k)
    if not isinstance(f, File):
      raise Unsupported('json.load from this object')
    c = f.content()
    if isinstance(c, (Junk, Empty)):
      raise ValueError('not a JSON document')
    if not isinstance(c, Json):
      raise Unsupported('JSON document')
    return fresh_tree(c.tree)

  def loads(s, **k):
    opts(k)
    if not isinstance(s, JsonText):
      raise Unsupported('json.loads')
    return fresh_tree(s.tree)
  m.dump, m.dumps, m.load, m.loads = dump, dumps, load, loads
  return m


# ---------------------------------------------------------------------------
# directories and processes

class Args(list):
  """The words of an arbitrary command."""

  def __init__(self, cmd):
    list.__init__(self)
    self.cmd = cmd

  def _no(self, *a, **k):
    raise Unsupported('words of an arbitrary command')

  __iter__ = __len__ = __getitem__ = __bool__ = __add__ = append = __contains__ = _no


class CalledProcessError(Exception):

  def __init__(self, returncode, cmd, output=None, stderr=None):
    Exception.__init__(self, 'non-zero exit status')
    self.returncode, self.cmd, self.output, self.stderr = returncode, cmd, output, stderr


class SubprocessError(Exception):
  pass


class Proc(object):

  def __init__(self, w, args, kw):
    for k in kw:
      if k not in ('shell', 'stdout', 'stderr', 'stdin', 'close_fds', 'universal_newlines', 'text'):
        raise Unsupported('Popen(%s)' % k)
    shell = kw.get('shell', False)
    w.commands.append((args, bool(shell)))
    if w.missing and not shell:
      raise FileNotFoundError(2, 'No such file or directory')
    self._w = w
    self.args = args
    self.pid = 1
    self.returncode = None

  def wait(self, timeout=None):
    if timeout is not None:
      raise Unsupported('wait with a time limit')
    self.returncode = self._w.exit
    return self.returncode

  def communicate(self, input=None, timeout=None):
    self.wait(timeout)
    return Opaque('stdout'), Opaque('stderr')

  def poll(self):
    if self.returncode is None:
      e = ENG.fresh('ended', 'B')
      if ENG.decide(e.t):
        self.returncode = self._w.exit
    return self.returncode

  def __enter__(self):
    return self

  def __exit__(self, *a):
    self.wait()
    return False

  def __getattr__(self, n):
    if n.startswith('__'):
      raise AttributeError(n)
    raise Unsupported('Popen.%s' % n)


class Done(object):

  def __init__(self, args, code):
    self.args, self.returncode = args, code

  def check_returncode(self):
    if self.returncode != 0:
      raise CalledProcessError(self.returncode, self.args)

  def __getattr__(self, n):
    if n.startswith('__'):
      raise AttributeError(n)
    raise Unsupported('CompletedProcess.%s' % n)


def subprocess_shim(world):
  m = types.ModuleType('subprocess')

  def known():
    ENG.assumed.add('subprocess: starts the given program and reports its exit status, negative for a signal')
    return world()

  def popen(args, *a, **k):
    if a:
      raise Unsupported('Popen arguments')
    return Proc(known(), args, k)

  def call(args, **k):
    k.pop('timeout', None)
    return popen(args, **k).wait()

  def check_call(args, **k):
    r = call(args, **k)
    if r != 0:
      raise CalledProcessError(r, args)
    return 0

  def check_output(args, **k):
    check_call(args, **k)
    return Opaque('output')

  def run(args, **k):
    check = k.pop('check', False)
    k.pop('capture_output', None)
    r = call(args, **k)
    if check and r != 0:
      raise CalledProcessError(r, args)
    return Done(args, r)
  m.Popen, m.call, m.check_call, m.check_output, m.run = popen, call, check_call, check_output, run
  m.CalledProcessError, m.SubprocessError = CalledProcessError, SubprocessError
  m.PIPE, m.STDOUT, m.DEVNULL = -1, -2, -3
  return m


def shlex_shim():
  import shlex
  m = types.ModuleType('shlex')

  def split(s, comments=False, posix=True):
    if isinstance(s, Opaque):
      if comments or not posix:
        raise Unsupported('shlex.split options')
      return Args(s)
    return shlex.split(s, comments, posix)

  def quote(s):
    if isinstance(s, Opaque):
      raise Unsupported('shlex.quote')
    return shlex.quote(s)
  m.split, m.quote = split, quote
  return m


class Dirs(object):
  """os functions on arbitrary paths."""

  def __init__(self, world):
    self.world = world

  def install(self, m, real):
    p = m.path

    def wrap(name, f):
      orig = getattr(real.path, name)

      def g(*a):
        if any(isinstance(x, Opaque) for x in a):
          return f(*a)
        return orig(*a)
      setattr(p, name, g)
    wrap('dirname', lambda x: OpaqueStr('dirname(%s)' % x))
    wrap('abspath', lambda x: OpaqueStr('abspath(%s)' % x))
    wrap('basename', lambda x: OpaqueStr('basename(%s)' % x))
    wrap('split', lambda x: (OpaqueStr('dirname(%s)' % x), OpaqueStr('basename(%s)' % x)))

    def exists(x):
      w = self.world()
      k = w.key(x)
      if isinstance(x, str):
        if k in w.files:
          return True
        raise Unsupported('operating system call')
      if w.dirs.get(k):
        return True
      if x == '':
        return False
      e = ENG.fresh('exists', 'B')
      if ENG.decide(e.t):
        w.dirs[k] = True
        return True
      return False
    p.exists = p.isdir = p.lexists = exists

    def makedirs(x, mode=0o777, exist_ok=False):
      w = self.world()
      ENG.assumed.add('os.makedirs: makes the directory and its parents, or reports why not')
      if not isinstance(x, Opaque):
        raise Unsupported('operating system call')
      k = w.key(x)
      w.made.append(k)
      if x == '':
        w.failures.append(Sym(tm.num(2, 'I')))
        raise FileNotFoundError(2, 'No such file or directory')
      code = ENG.fresh('errno', 'I')
      ENG.input_terms[code.t] = 'errno'
      ENG.assume(tm.le(tm.num(0, 'I'), code.t))
      if w.dirs.get(k):
        if exist_ok:
          return
        ENG.assume(tm.eq(code.t, tm.num(17, 'I')))
      if ENG.decide(tm.eq(code.t, tm.num(0, 'I'))):
        w.dirs[k] = True
        return
      if ENG.decide(tm.eq(code.t, tm.num(17, 'I'))):
        w.dirs[k] = True
        if exist_ok:
          return
        raise FileExistsError(17, 'File exists')
      w.failures.append(code)
      for n in (1, 2, 13, 20):        # these have classes of their own
        if ENG.decide(tm.eq(code.t, tm.num(n, 'I'))):
          raise OSError(n, 'failed')
      e = OSError('failed')
      e.errno = code
      raise e
    m.makedirs = makedirs
