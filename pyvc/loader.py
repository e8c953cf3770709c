"""Loads /repo modules for verification.

Every module is parsed from the working tree on each run.  Function bodies are
replaced by a hook into the statement interpreter; everything else (classes,
properties, decorators, defaults, operators) is executed by CPython as written.
Expressions are rewritten only so that literals are exact rationals, list
displays and comprehensions can become symbolic, and subscripts, divisions and
string formatting are routed through the generator.
"""
import ast
import builtins as _bi
import os
import types

REPO = os.environ.get('PYVC_REPO', '/repo')
PATHS = [
    REPO + '/hand_eye_calibration/python',
    REPO + '/hand_eye_calibration_experiments/python',
]


def find_module(name):
  rel = name.replace('.', '/')
  for p in PATHS:
    for cand, pkg in ((rel + '.py', False), (rel + '/__init__.py', True)):
      f = os.path.join(p, cand)
      if os.path.exists(f):
        return f, pkg
  return None, False


class ExprRewriter(ast.NodeTransformer):

  def __init__(self, interp):
    self.interp = interp

  def _call(self, fn, args, node):
    n = ast.Call(func=ast.Name(id=fn, ctx=ast.Load()), args=args, keywords=[])
    return ast.fix_missing_locations(ast.copy_location(n, node))

  def visit_Constant(self, node):
    if isinstance(node.value, float):
      return self._call('__pyvc_F__', [ast.Constant(value=repr(node.value))], node)
    return node

  def visit_JoinedStr(self, node):
    return node

  def visit_List(self, node):
    self.generic_visit(node)
    if isinstance(node.ctx, ast.Load):
      return self._call('__pyvc_L__', [node], node)
    return node

  def visit_Subscript(self, node):
    self.generic_visit(node)
    if isinstance(node.ctx, ast.Load):
      sl = node.slice
      return self._call('__pyvc_get__', [node.value, _slice_expr(sl)], node)
    return node

  def visit_BinOp(self, node):
    self.generic_visit(node)
    if isinstance(node.op, ast.Div):
      return self._call('__pyvc_div__', [node.left, node.right], node)
    if isinstance(node.op, ast.Mod):
      return self._call('__pyvc_mod__', [node.left, node.right], node)
    if isinstance(node.op, ast.Mult):
      return self._call('__pyvc_mul__', [node.left, node.right], node)
    return node

  def visit_Compare(self, node):
    self.generic_visit(node)
    if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
      c = self._call('__pyvc_in__', [node.left, node.comparators[0]], node)
      if isinstance(node.ops[0], ast.NotIn):
        c = ast.copy_location(ast.UnaryOp(op=ast.Not(), operand=c), node)
      return c
    return node

  def _comp(self, node):
    # the iterables and elements are rewritten when the comprehension runs
    i = self.interp.register_comp(node)
    return self._call('__pyvc_comp__', [ast.Constant(value=i),
                                        ast.Name(id='__pyvc_env__', ctx=ast.Load())], node)

  visit_ListComp = _comp
  visit_GeneratorExp = _comp
  visit_SetComp = _comp
  visit_DictComp = _comp

  def visit_Lambda(self, node):
    i = self.interp.register_comp(node)
    return self._call('__pyvc_lambda__', [ast.Constant(value=i),
                                          ast.Name(id='__pyvc_env__', ctx=ast.Load())], node)


def _slice_expr(sl):
  """Turns slice syntax into an expression (slice() calls and tuples)."""
  if isinstance(sl, ast.Slice):
    none = ast.Constant(value=None)
    return ast.Call(func=ast.Name(id='__pyvc_slice__', ctx=ast.Load()),
                    args=[sl.lower or none, sl.upper or none, sl.step or none], keywords=[])
  if isinstance(sl, ast.Tuple):
    return ast.Tuple(elts=[_slice_expr(e) for e in sl.elts], ctx=ast.Load())
  return sl


class ModuleTransformer(ast.NodeTransformer):
  """Replaces function bodies by hooks."""

  def __init__(self, modname, interp):
    self.modname = modname
    self.interp = interp
    self.stack = []
    self.rw = ExprRewriter(interp)

  def visit_ClassDef(self, node):
    self.stack.append(node.name)
    body = []
    for st in node.body:
      body.append(self.visit(st))
    node.body = body
    node.bases = [self.rw.visit(b) for b in node.bases]
    self.stack.pop()
    return node

  def visit_FunctionDef(self, node):
    fid = '%s:%s' % (self.modname, '.'.join(self.stack + [node.name]))
    # later definitions of the same name (property setters) get their own id
    base, k = fid, 2
    while fid in self.interp.functions:
      fid = '%s#%d' % (base, k)
      k += 1
    self.interp.register_function(fid, node, self.modname)
    new = ast.FunctionDef(name=node.name, args=self._args(node.args), body=[
        ast.Return(value=ast.Call(
            func=ast.Name(id='__pyvc_call__', ctx=ast.Load()),
            args=[ast.Constant(value=fid),
                  ast.Call(func=ast.Name(id='__pyvc_locals__', ctx=ast.Load()),
                           args=[], keywords=[])], keywords=[]))],
        decorator_list=node.decorator_list, returns=None, type_comment=None)
    if hasattr(node, 'type_params'):
      new.type_params = []
    return ast.fix_missing_locations(ast.copy_location(new, node))

  def _args(self, a):
    a.defaults = [self.rw.visit(d) for d in a.defaults]
    a.kw_defaults = [d and self.rw.visit(d) for d in a.kw_defaults]
    for x in a.args + a.posonlyargs + a.kwonlyargs:
      x.annotation = None
    return a

  def generic_stmt(self, node):
    if isinstance(node, (ast.Assign, ast.AnnAssign, ast.Expr, ast.AugAssign, ast.If,
                         ast.For, ast.While, ast.Try, ast.With, ast.Assert)):
      return ast.fix_missing_locations(self.rw.visit(node))
    return node

  def visit(self, node):
    if isinstance(node, (ast.ClassDef, ast.FunctionDef)):
      return getattr(self, 'visit_' + type(node).__name__)(node)
    if isinstance(node, ast.Module):
      node.body = [self.visit(s) for s in node.body]
      return node
    if isinstance(node, ast.stmt):
      return self.generic_stmt(node)
    return node


class Loader(object):

  def __init__(self, interp, shims, builtins):
    self.interp = interp
    self.shims = shims            # name -> module object
    self.modules = {}
    self.builtins = dict(builtins)
    self.builtins['__import__'] = self.do_import
    self.loaded_files = []

  def module(self, name):
    if name in self.modules:
      return self.modules[name]
    if name in self.shims:
      return self.shims[name]
    f, pkg = find_module(name)
    if f is None:
      return None
    if '.' in name:
      self.module(name.rsplit('.', 1)[0])
    m = types.ModuleType(name)
    m.__file__ = f
    self.modules[name] = m
    src = open(f).read()
    self.loaded_files.append(f)
    if src.strip():
      self.exec_source(src, f, name, m)
    if '.' in name:
      parent, child = name.rsplit('.', 1)
      if parent in self.modules:
        setattr(self.modules[parent], child, m)
    return m

  def exec_source(self, src, f, name, m):
    tree = ast.parse(src, f)
    tree = ModuleTransformer(name, self.interp).visit(tree)
    ast.fix_missing_locations(tree)
    g = m.__dict__
    g['__builtins__'] = self.builtins
    self.interp.install(g)
    self.interp.mod_globals[name] = g
    g['__pyvc_env__'] = g
    exec(compile(tree, f, 'exec'), g)

  def script(self, path, name):
    """Loads a script file as a module (its __main__ part does not run)."""
    m = types.ModuleType(name)
    m.__file__ = path
    self.modules[name] = m
    self.exec_source(open(path).read(), path, name, m)
    return m

  def do_import(self, name, globals=None, locals=None, fromlist=(), level=0):
    if level:
      pkg = (globals or {}).get('__name__', '').split('.')[:-level]
      name = '.'.join(pkg + ([name] if name else []))
    top = name.split('.')[0]
    if self.module(name) is None:
      # unknown third-party module
      if fromlist:
        base = self.module(top)
      raise ImportError('no contract shim for module %s' % name)
    if fromlist:
      m = self.module(name)
      for x in fromlist:
        if not hasattr(m, x):
          sub = self.module(name + '.' + x)
          if sub is not None:
            setattr(m, x, sub)
      return m
    for i in range(1, name.count('.') + 1):
      parts = name.split('.')
      p, c = '.'.join(parts[:i]), parts[i]
      pm, cm = self.module(p), self.module(p + '.' + c)
      if pm is not None and not hasattr(pm, c):
        setattr(pm, c, cm)
    return self.module(top)
