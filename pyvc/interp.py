"""Statement interpreter for the bodies of the verified functions."""
import ast
import collections
import operator
import types

import numpy as np

from pyvc import terms as tm
from pyvc.engine import (ENG, Sym, Unsupported, PathEnd, Enough, Truncation, as_bool_term, mkbool, term,
                         frac, is_number, num0)
from pyvc.seq import Poison
from pyvc.loader import ExprRewriter, _slice_expr

_AUG = {
    ast.Add: operator.iadd, ast.Sub: operator.isub, ast.Mult: operator.imul,
    ast.Div: operator.itruediv, ast.FloorDiv: operator.ifloordiv, ast.Mod: operator.imod,
    ast.Pow: operator.ipow, ast.BitAnd: operator.iand, ast.BitOr: operator.ior,
    ast.BitXor: operator.ixor, ast.MatMult: operator.imatmul,
    ast.LShift: operator.ilshift, ast.RShift: operator.irshift,
}

NORMAL = ('normal', None)


class Env(dict):
  """Local variables; reading one that a loop summary does not describe is out of reach."""

  def __getitem__(self, k):
    v = dict.__getitem__(self, k)
    if isinstance(v, Poison):
      raise Unsupported('value of %s after the loop is not described' % k)
    return v


class FnInfo(object):

  def __init__(self, fid, node, modname):
    self.fid = fid
    self.node = node
    self.modname = modname
    self.has_yield = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(node))


class Interp(object):

  def __init__(self):
    self.functions = {}
    self.mod_globals = {}
    self.comps = []
    self.code_cache = {}
    self.contracts = {}       # fid -> contract object with .apply(args dict)
    self.disabled = set()     # contracts that failed verification: inlined instead
    self.force_body = []      # fids whose next call must run the body
    self.loops = None         # loop handler, set by the runtime
    self.invariants = {}      # (fid, ordinal) -> handler
    self.depth = 0
    self.hooks = {}

  # ---- registration ---------------------------------------------------------
  def register_function(self, fid, node, modname):
    self.functions[fid] = FnInfo(fid, node, modname)

  def register_comp(self, node):
    self.comps.append(node)
    return len(self.comps) - 1

  def install(self, g):
    import builtins
    g['__pyvc_call__'] = self.call
    g['__pyvc_locals__'] = builtins.locals
    g['__pyvc_comp__'] = self.comp
    g['__pyvc_lambda__'] = self.lambda_
    g['__pyvc_slice__'] = slice
    g['__pyvc_nested__'] = self.nested_call
    g.update(self.hooks)

  # ---- calls ----------------------------------------------------------------
  def call(self, fid, args):
    forced = bool(self.force_body) and self.force_body[-1] == fid
    if forced:
      self.force_body.pop()
    if not forced and fid in self.contracts and fid not in self.disabled:
      c = self.contracts[fid]
      if c.applicable(args):
        ENG.used_contracts.add(fid)
        return c.apply(args)
    return self.run_body(fid, args)

  def run_body(self, fid, args):
    fn = self.functions[fid]
    if fn.has_yield:
      raise Unsupported('generator function %s' % fid)
    ENG.interpreted.add(fid)
    g = self.mod_globals[fn.modname]
    env = Env(args)
    env.pop('__class__', None)
    env['__pyvc_env__'] = env
    env['__pyvc_fid__'] = fid
    self.depth += 1
    if self.depth > 60:
      self.depth = 0
      raise Unsupported('recursion in %s' % fid)
    ENG.site.append(fid)
    try:
      kind, v = self.block(fn.node.body, env, g)
    finally:
      ENG.site.pop()
      self.depth -= 1
    if kind == 'return':
      return v
    return None

  def nested_call(self, idx, outer, args):
    node = self.comps[idx]
    env = collections.ChainMap(Env(args), outer)
    env['__pyvc_env__'] = env
    g = outer.get('__pyvc_globals__') or self.mod_globals[self.functions[outer['__pyvc_fid__']].modname]
    if isinstance(node, ast.Lambda):
      return self.eval(node.body, env, g)
    self.depth += 1
    if self.depth > 60:
      raise Unsupported('recursion in a local function')
    try:
      kind, v = self.block(node.body, env, g)
    finally:
      self.depth -= 1
    return v if kind == 'return' else None

  def make_function(self, idx, env, g):
    node = self.comps[idx]
    rw = ExprRewriter(self)
    a = node.args
    import copy
    a = copy.deepcopy(a)
    a.defaults = [rw.visit(d) for d in a.defaults]
    a.kw_defaults = [d and rw.visit(d) for d in a.kw_defaults]
    for x in a.args + a.posonlyargs + a.kwonlyargs:
      x.annotation = None
    lam = ast.Lambda(args=a, body=ast.Call(
        func=ast.Name(id='__pyvc_nested__', ctx=ast.Load()),
        args=[ast.Constant(value=idx), ast.Name(id='__pyvc_outer__', ctx=ast.Load()),
              ast.Call(func=ast.Name(id='__pyvc_locals__', ctx=ast.Load()), args=[], keywords=[])],
        keywords=[]))
    e = ast.fix_missing_locations(ast.Expression(body=lam))
    gg = dict(g)
    gg['__pyvc_outer__'] = env
    gg.update({k: v for k, v in env.items() if k != '__pyvc_env__'})
    f = eval(compile(e, '<lambda>', 'eval'), gg)
    return f

  def lambda_(self, idx, env):
    return self.make_function(idx, env, self._g(env))

  def _g(self, env):
    fid = env.get('__pyvc_fid__')
    if fid is None:
      return env
    return self.mod_globals[self.functions[fid].modname]

  # ---- expressions ------------------------------------------------------------
  def eval(self, node, env, g):
    code = self.code_cache.get(id(node))
    if code is None:
      import copy
      e = ExprRewriter(self).visit(copy.deepcopy(node))
      e = ast.fix_missing_locations(ast.Expression(body=e))
      code = (compile(e, '<%s:%s>' % (env.get('__pyvc_fid__', '?'), getattr(node, 'lineno', 0)),
                      'eval'), node)
      self.code_cache[id(node)] = code
    return eval(code[0], g, env)

  def eval_slice(self, sl, env, g):
    if isinstance(sl, ast.Slice):
      f = lambda x: None if x is None else self.eval(x, env, g)
      return slice(f(sl.lower), f(sl.upper), f(sl.step))
    if isinstance(sl, ast.Tuple):
      return tuple(self.eval_slice(e, env, g) for e in sl.elts)
    return self.eval(sl, env, g)

  # ---- statements -------------------------------------------------------------
  def block(self, stmts, env, g):
    for s in stmts:
      r = self.stmt(s, env, g)
      if r is not None and r[0] != 'normal':
        return r
    return NORMAL

  def stmt(self, s, env, g):
    m = getattr(self, 's_' + type(s).__name__, None)
    if m is None:
      raise Unsupported('statement %s' % type(s).__name__)
    if ENG.site:
      ENG.site[-1] = '%s:%d' % (env.get('__pyvc_fid__', '?'), s.lineno)
    return m(s, env, g)

  def s_Expr(self, s, env, g):
    if isinstance(s.value, ast.Constant):
      return
    self.eval(s.value, env, g)

  def s_Pass(self, s, env, g):
    pass

  def s_Assign(self, s, env, g):
    v = self.eval(s.value, env, g)
    for t in s.targets:
      self.assign(t, v, env, g)

  def s_AnnAssign(self, s, env, g):
    if s.value is not None:
      self.assign(s.target, self.eval(s.value, env, g), env, g)

  def assign(self, t, v, env, g):
    if isinstance(t, ast.Name):
      if t.id in env.get('__pyvc_globalnames__', ()):
        g[t.id] = v
      else:
        env[t.id] = v
    elif isinstance(t, (ast.Tuple, ast.List)):
      vs = list(self.iterate(v))
      star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
      if star:
        i = star[0]
        after = len(t.elts) - i - 1
        if len(vs) < len(t.elts) - 1:
          raise ValueError('not enough values to unpack')
        vs = vs[:i] + [list(vs[i:len(vs) - after])] + vs[len(vs) - after:]
        for e, x in zip(t.elts, vs):
          self.assign(e.value if isinstance(e, ast.Starred) else e, x, env, g)
        return
      if len(vs) != len(t.elts):
        raise ValueError('unpacking %d values into %d names' % (len(vs), len(t.elts)))
      for e, x in zip(t.elts, vs):
        self.assign(e, x, env, g)
    elif isinstance(t, ast.Attribute):
      setattr(self.eval(t.value, env, g), t.attr, v)
    elif isinstance(t, ast.Subscript):
      o = self.eval(t.value, env, g)
      k = self.eval_slice(t.slice, env, g)
      self.hooks['__pyvc_set__'](o, k, v)
    else:
      raise Unsupported('assignment target')

  def iterate(self, v):
    """Concrete iteration."""
    if self.loops is not None and self.loops.is_symbolic(v):
      raise Unsupported('iterating a sequence of unknown length here')
    return v

  def s_AugAssign(self, s, env, g):
    op = _AUG[type(s.op)]
    t = s.target
    if isinstance(t, ast.Name):
      cur = self.eval(ast.copy_location(ast.Name(id=t.id, ctx=ast.Load()), t), env, g) \
          if t.id not in env else env[t.id]
      v = self.eval(s.value, env, g)
      self.assign(t, self.aug(op, cur, v), env, g)
    elif isinstance(t, ast.Attribute):
      o = self.eval(t.value, env, g)
      v = self.eval(s.value, env, g)
      setattr(o, t.attr, self.aug(op, getattr(o, t.attr), v))
    elif isinstance(t, ast.Subscript):
      o = self.eval(t.value, env, g)
      k = self.eval_slice(t.slice, env, g)
      v = self.eval(s.value, env, g)
      cur = self.hooks['__pyvc_get__'](o, k)
      self.hooks['__pyvc_set__'](o, k, self.aug(op, cur, v))
    else:
      raise Unsupported('augmented assignment target')

  def aug(self, op, cur, v):
    if op is operator.imul:
      return self.hooks['__pyvc_imul__'](cur, v)
    if op is operator.itruediv:
      if isinstance(cur, np.ndarray):
        return self.hooks['__pyvc_idiv__'](cur, v)
      return self.hooks['__pyvc_div__'](cur, v)
    if op is operator.imod and not isinstance(cur, np.ndarray):
      return self.hooks['__pyvc_mod__'](cur, v)
    return op(cur, v)

  def s_Return(self, s, env, g):
    return ('return', None if s.value is None else self.eval(s.value, env, g))

  def truth(self, v):
    return bool(v)

  def s_If(self, s, env, g):
    test = self.eval(s.test, env, g)
    if self.flag(s, test, env):
      return None
    if self.truth(test):
      return self.block(s.body, env, g)
    return self.block(s.orelse, env, g)

  def flag(self, s, test, env):
    """'if test: name = True/False' sets the flag without a case distinction."""
    if not isinstance(test, Sym) or test.t.sort != 'B' or ENG.loop_ctx or s.orelse or len(s.body) != 1:
      return False
    a = s.body[0]
    if not isinstance(a, ast.Assign) or len(a.targets) != 1 or not isinstance(a.targets[0], ast.Name):
      return False
    name = a.targets[0].id
    if not isinstance(a.value, ast.Constant) or a.value.value not in (True, False) or name not in env:
      return False
    if not isinstance(a.value.value, bool):
      return False
    old = env[name]
    if not isinstance(old, bool) and not (isinstance(old, Sym) and old.t.sort == 'B'):
      return False
    old = as_bool_term(old)
    env[name] = mkbool(tm.or_(test.t, old) if a.value.value else tm.and_(tm.not_(test.t), old))
    return True

  def s_Assert(self, s, env, g):
    if not self.truth(self.eval(s.test, env, g)):
      raise AssertionError('assert at %s' % ENG.where())

  def s_Raise(self, s, env, g):
    if s.exc is None:
      raise
    e = self.eval(s.exc, env, g)
    raise e

  def s_Break(self, s, env, g):
    return ('break', None)

  def s_Continue(self, s, env, g):
    return ('continue', None)

  def s_Import(self, s, env, g):
    for a in s.names:
      m = g['__builtins__']['__import__'](a.name, g, env, (), 0)
      if a.asname:
        for part in a.name.split('.')[1:]:
          m = getattr(m, part)
        env[a.asname] = m
      else:
        env[a.name.split('.')[0]] = m

  def s_ImportFrom(self, s, env, g):
    m = g['__builtins__']['__import__'](s.module or '', g, env, tuple(a.name for a in s.names), s.level)
    for a in s.names:
      env[a.asname or a.name] = getattr(m, a.name)

  def s_Global(self, s, env, g):
    env.setdefault('__pyvc_globalnames__', set()).update(s.names)

  def s_Nonlocal(self, s, env, g):
    raise Unsupported('nonlocal')

  def s_Delete(self, s, env, g):
    for t in s.targets:
      if isinstance(t, ast.Name):
        del env[t.id]
      elif isinstance(t, ast.Subscript):
        del self.eval(t.value, env, g)[self.eval_slice(t.slice, env, g)]
      elif isinstance(t, ast.Attribute):
        delattr(self.eval(t.value, env, g), t.attr)

  def s_FunctionDef(self, s, env, g):
    if s.decorator_list:
      raise Unsupported('decorated local function')
    idx = self.register_comp(s)
    env[s.name] = self.make_function(idx, env, g)

  def s_With(self, s, env, g):
    return self.with_(s.items, s.body, env, g)

  def with_(self, items, body, env, g):
    if not items:
      return self.block(body, env, g)
    it = items[0]
    cm = self.eval(it.context_expr, env, g)
    v = cm.__enter__()
    if it.optional_vars is not None:
      self.assign(it.optional_vars, v, env, g)
    try:
      r = self.with_(items[1:], body, env, g)
    except (Unsupported, PathEnd, Enough):
      raise
    except BaseException as e:
      if not cm.__exit__(type(e), e, None):
        raise
      return NORMAL
    cm.__exit__(None, None, None)
    return r

  def s_Try(self, s, env, g):
    r = NORMAL
    try:
      try:
        r = self.block(s.body, env, g)
      except (Unsupported, PathEnd, Enough):
        raise
      except BaseException as e:
        handled = False
        for h in s.handlers:
          if h.type is None or isinstance(e, self._exc_types(self.eval(h.type, env, g))):
            if h.name:
              env[h.name] = e
            depth = len(ENG.site)
            r = self.block(h.body, env, g)
            handled = True
            break
        if not handled:
          raise
      else:
        if r[0] == 'normal':
          r = self.block(s.orelse, env, g)
    except (Unsupported, PathEnd, Enough):
      raise
    except BaseException:
      if s.finalbody:
        f = self.block(s.finalbody, env, g)
        if f[0] != 'normal':
          return f
      raise
    if s.finalbody:
      f = self.block(s.finalbody, env, g)
      if f[0] != 'normal':
        return f
    return r

  def _exc_types(self, t):
    return t

  # ---- loops ------------------------------------------------------------------
  def s_For(self, s, env, g):
    it = self.eval(s.iter, env, g)
    if self.loops.is_symbolic(it):
      h = self.loops.invariant_for(self, s, env)
      if h is not None:
        return h(self, s, env, g, it)
      return self.loops.for_loop(self, s, it, env, g)
    broke = False
    for x in it:
      self.assign(s.target, x, env, g)
      r = self.block(s.body, env, g)
      if r[0] == 'break':
        broke = True
        break
      if r[0] == 'return':
        return r
    if not broke and s.orelse:
      return self.block(s.orelse, env, g)
    return NORMAL

  def s_While(self, s, env, g):
    h = self.loops.invariant_for(self, s, env)
    if h is not None:
      return h(self, s, env, g)
    n = 0
    while True:
      sym, v = self.loops.probe(lambda: self.truth(self.eval(s.test, env, g)))
      if sym:
        return self.loops.while_loop(self, s, env, g)
      if not v:
        break
      n += 1
      if n > 2000:
        raise Unsupported('loop without symbolic condition does not end')
      r = self.block(s.body, env, g)
      if r[0] == 'break':
        return NORMAL
      if r[0] == 'return':
        return r
    if s.orelse:
      return self.block(s.orelse, env, g)
    return NORMAL

  # ---- comprehensions -----------------------------------------------------------
  def comp(self, idx, env):
    node = self.comps[idx]
    if id(env) == id(env.get('__pyvc_env__')) and '__pyvc_fid__' not in env:
      g = env
    else:
      g = self._g(env)
    PList = self.loops.PList
    acc = PList()
    child = collections.ChainMap(Env(), env)
    child['__pyvc_env__'] = child
    key = '__pyvc_acc%d__' % idx
    child[key] = acc
    stmts = self.code_cache.get(('comp', idx))
    if stmts is None:
      if isinstance(node, ast.DictComp):
        elt = ast.Tuple(elts=[node.key, node.value], ctx=ast.Load())
      else:
        elt = node.elt
      inner = ast.Expr(value=ast.Call(
          func=ast.Attribute(value=ast.Name(id=key, ctx=ast.Load()), attr='append', ctx=ast.Load()),
          args=[elt], keywords=[]))
      for gen in reversed(node.generators):
        for c in reversed(gen.ifs):
          inner = ast.If(test=c, body=[inner], orelse=[])
        inner = ast.For(target=gen.target, iter=gen.iter, body=[inner], orelse=[], type_comment=None)
      ast.copy_location(inner, node)
      for x in ast.walk(inner):
        if isinstance(x, (ast.stmt, ast.expr)) and not hasattr(x, 'lineno'):
          ast.copy_location(x, node)
      ast.fix_missing_locations(inner)
      stmts = [inner]
      self.code_cache[('comp', idx)] = stmts
    self.block(stmts, child, g)
    if isinstance(node, ast.SetComp):
      return self.hooks['__pyvc_set_of__'](acc)
    if isinstance(node, ast.DictComp):
      if self.loops.is_symbolic(acc):
        raise Unsupported('dict comprehension of unknown length')
      return {k: v for k, v in acc}
    return acc
