"""C26: no code path refers to something that does not exist"""
import ast
import re
import string

from . import frontend
from .lint import (Project, Flow, State, GaveUp, Cls, Fn, Ext, ModRef, EXT, BUILTINS, ALWAYS, ENUM_ATTRS, OBJECT_ATTRS, STARTERS,
                   bound_in, flat, targets, exprs_of, walk_scope, callee_name, dump, lits)
from .report import Ob

# external classes whose signatures were taken from their sources
BUILTIN_ARITY = {'len': (1, 1), 'ord': (1, 1), 'chr': (1, 1), 'isinstance': (2, 2), 'issubclass': (2, 2), 'hasattr': (2, 2), 'getattr': (2, 3), 'setattr': (3, 3), 'range': (1, 3),
                 'map': (2, 99), 'filter': (2, 2), 'reduce': (2, 3), 'format': (1, 2), 'callable': (1, 1), 'repr': (1, 1), 'bin': (1, 1), 'hex': (1, 1), 'abs': (1, 1), 'super': (2, 2),
                 'enumerate': (1, 2), 'iter': (1, 2), 'next': (1, 2), 'bool': (0, 1), 'list': (0, 1), 'tuple': (0, 1), 'set': (0, 1), 'any': (1, 1), 'all': (1, 1), 'id': (1, 1),
                 'hash': (1, 1), 'divmod': (2, 2), 'pow': (2, 3), 'round': (1, 2), 'reversed': (1, 1), 'sum': (1, 2), 'xrange': (1, 3), 'unichr': (1, 1), 'int': (0, 2), 'float': (0, 1)}
METHOD_ARITY = {'append': (1, 1), 'extend': (1, 1), 'insert': (2, 2), 'startswith': (1, 3), 'endswith': (1, 3), 'isdigit': (0, 0), 'lower': (0, 0), 'upper': (0, 0), 'keys': (0, 0),
                'values': (0, 0), 'items': (0, 0), 'iteritems': (0, 0)}
SIGNED = {('serial', 'Serial'), ('paho.mqtt.client', 'Client'), ('argparse', 'ArgumentParser'), ('cerberus', 'Validator'), ('threading', 'Thread')}


class Checker(object):
  def __init__(self, proj):
    self.p = proj
    self.sums = {}
    self.partly = {}
    self.loaded = set(n.attr for m in proj.mods.values() for n in ast.walk(m.tree) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load))
    self.rets = {}
    self.attr_types = {}
    names = set(EXT['names'])
    for m in proj.mods.values(): names.update(m.binds)
    self.universe = names | proj.attr_names | proj.foreign_stores | OBJECT_ATTRS | ENUM_ATTRS
    for k in proj.mods:
      self.universe.update(k.split('.'))
    self.instantiated = set()
    self.guarded = {}
    for m in proj.mods.values():
      for n in ast.walk(m.tree):
        if isinstance(n, ast.Call):
          e = proj.resolve(m, n.func)
          if isinstance(e, Cls): self.instantiated.add(e)
    for c in proj.classes:
      self.guarded[c] = set(a.args[1].value for a in ast.walk(c.node) if isinstance(a, ast.Call) and isinstance(a.func, ast.Name) and a.func.id in ('hasattr', 'getattr', 'setattr')
                            and len(a.args) > 1 and isinstance(a.args[1], ast.Constant))
      # a handler of AttributeError is a guard
      for t in ast.walk(c.node):
        if isinstance(t, ast.Try) and any(h.type is None or 'AttributeError' in ast.dump(h.type) or "'Exception'" in ast.dump(h.type) for h in t.handlers):
          for s in t.body:
            for a in ast.walk(s):
              if isinstance(a, ast.Attribute): self.guarded[c].add(a.attr)

  # ------------------------------------------------------------------ scopes
  def locals_of(self, f):
    """names bound in a function (parameters, others), and those declared global"""
    a = f.args
    params = [x.arg for x in getattr(a, 'posonlyargs', []) + a.args + a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x]
    if isinstance(f, ast.Lambda): return set(params), set(), set()
    glob, bound = set(), set()
    for s in flat(f.body):
      if isinstance(s, (ast.Global, ast.Nonlocal)): glob.update(s.names)
      bound.update(bound_in(s))
    return set(params), bound - glob, glob

  def enums(self, m):
    def members(d):
      """the dumps of all members of the enumeration a dumped constant belongs to"""
      return self.enum_table(m).get(d)
    return members

  def enum_table(self, m):
    t = getattr(m, '_enums', None)
    if t is None:
      t = m._enums = {}
      for n in ast.walk(m.tree):
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name):
          c = self.p.resolve(m, n.value)
          if isinstance(c, Cls) and self.p.is_enum(c):
            mem = self.members(c)
            if n.attr in mem:
              t[dump(n)] = [dump(ast.Attribute(value=ast.Name(id=n.value.id, ctx=ast.Load()), attr=x, ctx=ast.Load())) for x in mem]
      # the choices of a command line argument
      for n in ast.walk(m.tree):
        if isinstance(n, ast.keyword) and n.arg == 'choices':
          v = n.value
          if isinstance(v, ast.Name):
            name = v.id
            for a in ast.walk(m.tree):
              if isinstance(a, ast.Assign) and any(isinstance(x, ast.Name) and x.id == name for x in a.targets): v = a.value
          for x in lits(v) or (): t[x] = lits(v)
    return t

  def members(self, c):
    out = []
    for s in flat(c.node.body):
      if isinstance(s, ast.Assign):
        for t in s.targets: out += [x for x in targets(t) if not x.startswith('_')]
    return out

  # ------------------------------------------------------------------ module
  def module(self, m, c):
    self.c, self.m = c, m
    c.ok()
    self.imports(m)
    self.order(m)
    self.toplevel(m)
    self.scope(m, m.tree, [], None)
    self.attributes(m)

  def viol(self, rule, where, name, msg, node):
    self.c.viol(rule, "%s:%s %s" % (self.m.path, where or 'module', name), msg, loc="%s:%d" % (self.m.path, getattr(node, 'lineno', 0)))

  def imports(self, m):
    for n in ast.walk(m.tree):
      if isinstance(n, ast.Import):
        for a in n.names:
          top = a.name.split('.')[0]
          self.c.ok()
          if self.p.is_module(top) and not self.p.is_module(a.name):
            self.viol('no-module', '', a.name, "there is no module %s" % a.name, n)
      elif isinstance(n, ast.ImportFrom):
        src = self.p.absolute(m, n)
        if src is None: continue
        if not self.p.is_module(src):
          if self.p.is_module(src.split('.')[0]) and src not in EXT['modules']: self.viol('no-module', '', src, "there is no module %s" % src, n)
        for a in n.names:
          self.c.ok()
          if a.name == '*': continue
          r = self.p.imported(('from', src, a.name))
          if r == [] and not self.guarded_import(m, n): self.viol('no-symbol', '', '%s.%s' % (src, a.name), "%s has no %s" % (src, a.name), n)

  def order(self, m):
    """importing the module first: names taken from modules which are still being imported exist by then"""
    have, done, bad = {}, set(), []
    def load(name):
      parts = name.split('.')
      for i in range(1, len(parts) + 1):
        n = '.'.join(parts[:i])
        if n in have or n not in self.p.mods: continue
        have[n] = set()
        k = self.p.mods[n]
        for s in flat(k.tree.body):
          if isinstance(s, ast.Import):
            for a in s.names: load(a.name)
          elif isinstance(s, ast.ImportFrom):
            src = self.p.absolute(k, s)
            if src is None: continue
            load(src)
            for a in s.names:
              self.c.ok()
              if a.name == '*':
                if src in have: have[n] |= set(x for x in have[src] if not x.startswith('_'))
                continue
              if src + '.' + a.name in self.p.mods and a.name not in have.get(src, ()): load(src + '.' + a.name); continue
              if src in self.p.mods and src not in done and a.name not in have[src] and self.p.export(src, a.name) and not self.guarded_import(k, s):
                bad.append((k, s, src, a.name))
          have[n].update(bound_in(s))
        done.add(n)
        if i > 1: have.setdefault('.'.join(parts[:i - 1]), set()).add(parts[i - 1])
    load(m.name)
    for k, s, src, name in bad:
      self.c.viol('import-cycle', "%s:module %s.%s" % (k.path, src, name), "importing %s first: %s takes %s from %s, which is still being imported and has not defined it yet" % (m.name, k.name, name, src),
                  loc="%s:%d" % (k.path, s.lineno))

  def guarded_import(self, m, node):
    for t in ast.walk(m.tree):
      if isinstance(t, ast.Try) and any(h.type is None or any(x in ast.dump(h.type) for x in ('ImportError', "'Exception'")) for h in t.handlers):
        if any(x is node for s in t.body for x in ast.walk(s)): return True
    return False

  def toplevel(self, m):
    tracked = set(k for k in m.binds if k not in BUILTINS)
    f = Flow(self.p, None, tracked, lambda name, node, st: self.viol('before-definition', '', name, "%s is used before it is defined" % name, node), enums=self.enums(m))
    def classbody(flow, states, node):
      mine = set(x for s in flat(node.body) for x in bound_in(s)) - set(m.binds) - BUILTINS
      before = flow.tracked
      flow.tracked = before | mine
      out = flow.block(states, node.body)
      flow.tracked = before
      return flow.join([State(frozenset(), frozenset(x for x in s.have if x not in mine)) for s in out]) if out else states
    def star(s):
      src = self.p.absolute(m, s)
      if src in self.p.mods: return self.public(src)
      return [k for k in EXT['modules'].get(src, ()) if not k.startswith('_')]
    f.classbody, f.star = classbody, star
    try:
      f.block([State(frozenset(), frozenset())], m.tree.body)
      self.c.ok(f.uses)
    except GaveUp: pass

  def public(self, src, seen=()):
    if src in seen: return []
    m = self.p.mods.get(src)
    if m is None: return []
    out = [k for k in m.binds if not k.startswith('_')]
    for s in m.stars: out += self.public(s, seen + (src,))
    return out

  # ------------------------------------------------------------------ names and locals
  def scope(self, m, node, outer, cls, where=''):
    """walks the functions of a scope; outer: local name sets of the enclosing functions"""
    for f in self.functions(node):
      isfn = isinstance(f, ast.FunctionDef)
      owner = getattr(f, '_fn', None)
      w = owner.qual() if owner else where
      params, bound, glob = self.locals_of(f)
      body = f.body if isfn else [ast.Expr(value=f.body)]
      visible = outer + [params | bound]
      self.c.it.funcs_seen.add((m.name, w or '<lambda>'))
      # every name resolves somewhere
      for n in self.own_nodes(f):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
          self.c.ok()
          if any(n.id in v for v in visible): continue
          if n.id in self.comp_names(f): continue
          self.global_name(m, n, w)
      # locals are assigned before use
      if isfn:
        flow = Flow(self.p, owner, bound - params, lambda name, x, st, w=w: self.viol('unbound', w, name, "%s may be used before it is assigned" % name, x), enums=self.enums(m))
        try:
          flow.block([State(frozenset(), frozenset())], f.body)
          self.c.ok(flow.uses)
        except GaveUp: self.c.undecided("%s:%s: too many paths" % (m.path, w))
      self.scope(m, f, visible, cls, w)
    # class bodies and module level
    if isinstance(node, (ast.Module, ast.ClassDef)):
      for n in self.own_nodes(node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
          self.c.ok()
          if n.id in self.comp_names(node) or any(n.id in v for v in outer): continue
          if isinstance(node, ast.ClassDef) and n.id in node._cls.members: continue
          self.global_name(m, n, where or getattr(node, 'name', ''))

  def global_name(self, m, n, w):
    r = self.p.export(m.name, n.id)
    if r == [] and n.id not in BUILTINS: self.viol('undefined', w, n.id, "%s is not defined" % n.id, n)

  def functions(self, node):
    """functions, lambdas and classes directly inside a scope"""
    out = []
    todo = list(ast.iter_child_nodes(node))
    while todo:
      n = todo.pop(0)
      if isinstance(n, (ast.FunctionDef, ast.Lambda)):
        out.append(n)
        # defaults and decorators belong to the enclosing scope
        continue
      if isinstance(n, ast.ClassDef):
        self.scope_class(n, node)
        out += self.functions(n)
        continue
      todo = list(ast.iter_child_nodes(n)) + todo
    return out

  def scope_class(self, n, outer):
    for x in self.own_nodes(n):
      if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
        self.c.ok()
        if x.id in self.comp_names(n) or x.id in n._cls.members: continue
        if isinstance(outer, ast.FunctionDef): continue
        self.global_name(self.m, x, n.name)

  def own_nodes(self, f):
    """nodes of a scope, not those of nested functions or classes (but their defaults, bases and decorators)"""
    if isinstance(f, ast.Lambda): todo = [f.body]
    else: todo = list(f.body)
    while todo:
      n = todo.pop()
      yield n
      if isinstance(n, (ast.FunctionDef, ast.Lambda)):
        todo += n.args.defaults + [x for x in n.args.kw_defaults if x is not None]
        if isinstance(n, ast.FunctionDef): todo += n.decorator_list
        continue
      if isinstance(n, ast.ClassDef):
        todo += n.bases + n.decorator_list
        continue
      todo.extend(ast.iter_child_nodes(n))

  def comp_names(self, f):
    k = getattr(f, '_comp', None)
    if k is None:
      k = f._comp = set(x for n in self.own_nodes(f) if isinstance(n, ast.comprehension) for x in targets(n.target))
    return k

  # ------------------------------------------------------------------ types
  def types(self, expr, ctx, depth=0):
    """classes an expression's value is an instance of, or None when not known.  ctx = (module, class, function or None)"""
    if depth > 6 or expr is None: return None
    m, cls, fn = ctx
    if isinstance(expr, ast.Constant) and expr.value is None: return frozenset()
    if isinstance(expr, ast.IfExp):
      a, b = self.types(expr.body, ctx, depth + 1), self.types(expr.orelse, ctx, depth + 1)
      return a | b if a is not None and b is not None else None
    if isinstance(expr, ast.Call):
      e = self.entity(expr.func, ctx)
      if isinstance(e, Cls):
        if self.p.is_enum(e) or self.p.lookup(e, '__new__'): return frozenset([e]) if self.p.is_enum(e) else None
        return frozenset([e])
      if isinstance(e, Fn) and e.kind in ('plain', 'static', 'class'): return self.returned(e, depth + 1)
      if isinstance(expr.func, ast.Attribute):
        if cls and isinstance(expr.func.value, ast.Name) and fn is not None and expr.func.value.id == self.self_name(fn):
          ts = [cls] + cls.subs
        else: ts = self.types(expr.func.value, ctx, depth + 1)
        if not ts: return None
        out = frozenset()
        for t in ts:
          f = self.p.lookup(t, expr.func.attr)
          if not isinstance(f, Fn) or f.kind == 'other' or f.kind == 'property': return None
          r = self.returned(f, depth + 1)
          if r is None: return None
          out |= r
        return out
      return None
    if isinstance(expr, ast.Name):
      if fn is None: return None
      params, bound, glob = self.locals_of(fn)
      if expr.id in params or expr.id not in bound: return None
      vals = self.assignments(fn, expr.id)
      if vals is None: return None
      out = frozenset()
      for v in vals:
        t = self.types(v, ctx, depth + 1)
        if t is None: return None
        out |= t
      return out
    if isinstance(expr, ast.Attribute):
      e = self.entity(expr.value, ctx)
      if isinstance(e, Cls) and self.p.is_enum(e) and expr.attr in self.members(e): return frozenset([e])
      if fn is not None and cls and isinstance(expr.value, ast.Name) and expr.value.id == self.self_name(fn):
        return self.attr_type(cls, expr.attr, depth + 1)
      ts = self.types(expr.value, ctx, depth + 1)
      if not ts: return None
      out = frozenset()
      for t in ts:
        r = self.attr_type(t, expr.attr, depth + 1)
        if r is None: return None
        out |= r
      return out
    return None

  def self_name(self, fn):
    f = getattr(fn, '_fn', None)
    if f is None or f.cls is None or f.kind not in ('self', 'property', 'other') or not fn.args.args: return None
    return fn.args.args[0].arg

  def assignments(self, fn, name):
    """values assigned to a local, or None if it is bound in another way"""
    out = []
    for s in flat(fn.body):
      if isinstance(s, ast.Assign):
        for t in s.targets:
          if isinstance(t, ast.Name) and t.id == name: out.append(s.value)
          elif name in targets(t): return None
      elif name in bound_in(s): return None
      for e in exprs_of(s):
        for n in walk_scope(e):
          if isinstance(n, ast.comprehension) and name in targets(n.target): return None
    return out

  def attr_type(self, cls, attr, depth):
    key = (cls, attr)
    if key in self.attr_types: return self.attr_types[key]
    self.attr_types[key] = None
    if attr in self.p.foreign_stores or self.p.unknown(cls): return None
    out = frozenset()
    n = 0
    for k in self.p.mro(cls) + cls.subs:
      if attr in k.members: return None
      for f in k.node.body:
        if not isinstance(f, ast.FunctionDef): continue
        me = self.self_name(f)
        for s in flat(f.body):
          if isinstance(s, ast.Assign):
            for t in s.targets:
              if isinstance(t, ast.Attribute) and t.attr == attr and isinstance(t.value, ast.Name) and t.value.id == me:
                r = self.types(s.value, (k.mod, k, f), depth + 1)
                if r is None: return None
                out |= r; n += 1
              elif isinstance(t, (ast.Tuple, ast.List)) and any(isinstance(x, ast.Attribute) and x.attr == attr for x in ast.walk(t)): return None
          elif isinstance(s, (ast.AugAssign, ast.For, ast.With)):
            if any(isinstance(x, ast.Attribute) and x.attr == attr and isinstance(x.ctx, ast.Store) for e in exprs_of(s) for x in ast.walk(e)): return None
    if not n: return None
    self.attr_types[key] = out
    return out

  def returned(self, f, depth):
    if f in self.rets: return self.rets[f]
    self.rets[f] = None
    out = frozenset()
    n = 0
    for s in flat(f.node.body):
      for e in exprs_of(s):
        if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in walk_scope(e)): return None
      if isinstance(s, ast.Return):
        t = self.types(s.value, (f.mod, f.cls, f.node), depth + 1) if s.value is not None else frozenset()
        if t is None: return None
        out |= t; n += 1
    self.rets[f] = out if n else None
    return self.rets[f]

  def entity(self, expr, ctx):
    """the repository or external entity an expression names, unless its root is a local variable"""
    m, cls, fn = ctx
    root = expr
    while isinstance(root, ast.Attribute): root = root.value
    if not isinstance(root, ast.Name): return None
    for f in self.enclosing(m, fn):
      params, bound, glob = self.locals_of(f)
      if root.id in params or root.id in self.comp_names(f): return None
      if root.id in bound:
        # a local import is still an import
        r = self.local_import(m, f, root.id)
        if r is None: return None
        return self.walk_entity(r, expr, root)
    return self.p.resolve(m, expr)

  def local_import(self, m, f, name):
    found = None
    for s in flat(f.body):
      if name in bound_in(s):
        if found is not None: return None
        if isinstance(s, ast.Import):
          for a in s.names:
            if a.asname == name: found = self.p.module_entity(a.name)
            elif not a.asname and a.name.split('.')[0] == name: found = self.p.module_entity(name)
        elif isinstance(s, ast.ImportFrom):
          for a in s.names:
            if (a.asname or a.name) == name:
              r = self.p.imported(('from', self.p.absolute(m, s), a.name))
              found = r[0] if r and len(r) == 1 and r[0] not in ('value', 'nested') else None
        else: return None
    return found

  def walk_entity(self, ent, expr, root):
    chain = []
    while expr is not root: chain.append(expr.attr); expr = expr.value
    for a in reversed(chain):
      if isinstance(ent, ModRef):
        r = self.p.export(ent.name, a)
        ent = r[0] if r and len(r) == 1 and r[0] not in ('value', 'nested') else None
      elif isinstance(ent, Ext) and ent.name is None:
        spec = EXT['modules'].get(ent.mod)
        ent = Ext(ent.mod, a) if spec and a in spec else None
      elif isinstance(ent, Cls):
        v = self.p.lookup(ent, a)
        ent = v if isinstance(v, (Fn, Cls)) else None
      else: return None
    return ent

  def enclosing(self, m, fn):
    out = []
    while fn is not None:
      out.append(fn)
      fn = self.parents(m).get(fn)
    return out

  def parents(self, m):
    p = getattr(m, '_parents', None)
    if p is None:
      p = m._parents = {}
      m._owner = {}
      def walk(n, fn, cls):
        for x in ast.iter_child_nodes(n):
          if isinstance(x, (ast.FunctionDef, ast.Lambda)):
            p[x] = fn
            m._owner[x] = cls
            walk(x, x, cls)
          elif isinstance(x, ast.ClassDef): walk(x, fn, x._cls)
          else: walk(x, fn, cls)
      walk(m.tree, None, None)
    return p

  # ------------------------------------------------------------------ attributes and calls
  def attributes(self, m):
    self.parents(m)
    def walk(n, fn, cls, tests):
      for x in ast.iter_child_nodes(n):
        f2, c2 = fn, cls
        if isinstance(x, (ast.FunctionDef, ast.Lambda)): f2 = x
        elif isinstance(x, ast.ClassDef): c2 = x._cls
        ctx = (m, c2, f2)
        if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load): self.attribute(x, ctx)
        if isinstance(x, ast.Call): self.call(x, ctx)
        if isinstance(x, ast.Assign): self.unpack(x, ctx)
        if isinstance(x, ast.BinOp): self.percent(x, ctx)
        walk(x, f2, c2, tests)
    walk(m.tree, None, None, [])

  def where(self, ctx):
    m, cls, fn = ctx
    for f in self.enclosing(m, fn):
      if hasattr(f, '_fn'): return f._fn.qual()
    return cls.name if cls else ''

  def me(self, ctx):
    """name of self in the context, through nested functions"""
    m, cls, fn = ctx
    for f in self.enclosing(m, fn):
      n = self.self_name(f)
      if n: return n
    return None

  def attribute(self, x, ctx):
    m, cls, fn = ctx
    name = x.attr
    self.c.ok()
    if name.startswith('__') and not name.endswith('__'): return      # mangled
    mine = cls and isinstance(x.value, ast.Name) and x.value.id == self.me(ctx)
    if name not in self.universe and not name.startswith('_') and not (mine and any(self.p.unknown(k) for k in self.p.concrete(cls))):
      self.viol('no-such-attribute', self.where(ctx), name, "nothing in the library or the modules it uses has an attribute %s" % name, x); return
    # self
    if cls and isinstance(x.value, ast.Name) and x.value.id == self.me(ctx):
      for k in self.p.concrete(cls):
        if self.p.unknown(k): continue
        if k is cls and cls.subs and cls not in self.instantiated: continue
        if name in self.p.inst_attrs(k) or name in self.p.foreign_stores or any(name in self.guarded[b] for b in self.p.mro(k)): continue
        self.viol('no-attribute', self.where(ctx), '%s.%s' % (k.name, name), "%s objects have no attribute %s" % (k.name, name), x)
      return
    if m.dests is not None and self.namespace(x.value, ctx):
      if name not in m.dests: self.viol('no-attribute', self.where(ctx), 'arguments.%s' % name, "no command line argument is called %s" % name, x)
      return
    # super()
    if cls and isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Name) and x.value.func.id == 'super':
      rest = self.p.mro(cls)[1:]
      if any(self.p.unknown(k) for k in rest) or self.p.ext_bases(cls): return
      if not any(name in k.members for k in rest) and name not in OBJECT_ATTRS:
        self.viol('no-attribute', self.where(ctx), 'super.%s' % name, "no base class of %s has %s" % (cls.name, name), x)
      return
    e = self.entity(x.value, ctx)
    if isinstance(e, ModRef):
      r = self.p.export(e.name, name)
      if r == [] : self.viol('no-symbol', self.where(ctx), '%s.%s' % (e.name, name), "module %s has no %s" % (e.name, name), x)
      return
    if isinstance(e, Ext) and e.name is None:
      spec = EXT['modules'].get(e.mod)
      if spec and name not in spec and not name.startswith('_') and e.mod + '.' + name not in EXT['modules'] and '*' not in spec:
        self.viol('no-symbol', self.where(ctx), '%s.%s' % (e.mod, name), "module %s has no %s" % (e.mod, name), x)
      return
    if isinstance(e, Cls):
      if self.p.unknown(e): return
      if name in self.p.class_attrs(e) or name in self.p.foreign_stores: return
      if self.p.is_enum(e) and name in ENUM_ATTRS: return
      self.viol('no-attribute', self.where(ctx), '%s.%s' % (e.name, name), "%s has no %s" % (e.name, name), x)
      return
    if e is not None: return
    ts = self.types(x.value, ctx)
    if not ts: return
    for t in ts:
      if self.p.unknown(t): return
      if name in self.p.inst_attrs(t) or name in self.p.foreign_stores or any(name in k.stores or name in k.members for k in t.subs): return
      if self.p.is_enum(t) and name in ENUM_ATTRS: return
      if any(name in self.guarded[b] for b in self.p.mro(t)): return
    for f in self.enclosing(m, fn):
      if any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('hasattr', 'getattr') and len(n.args) > 1 and isinstance(n.args[1], ast.Constant)
             and n.args[1].value == name for n in ast.walk(f)): return
    self.viol('no-attribute', self.where(ctx), '%s.%s' % ('/'.join(sorted(t.name for t in ts)), name), "%s objects have no attribute %s" % ('/'.join(sorted(t.name for t in ts)), name), x)

  def namespace(self, e, ctx):
    """the expression is only ever what parse_args returned"""
    m, cls, fn = ctx
    vals = []
    if isinstance(e, ast.Name) and not any(e.id in self.locals_of(f)[0] for f in self.enclosing(m, fn)):
      for a in ast.walk(m.tree):
        if isinstance(a, ast.Assign) and any(e.id in targets(t) for t in a.targets): vals.append(a.value)
    elif isinstance(e, ast.Attribute) and cls and isinstance(e.value, ast.Name) and e.value.id == self.me(ctx):
      for a in ast.walk(m.tree):
        if isinstance(a, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == e.attr for t in a.targets): vals.append(a.value)
    return bool(vals) and all(isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == 'parse_args' for v in vals)

  def signature(self, f, drop):
    a = f.args
    pos = [x.arg for x in getattr(a, 'posonlyargs', []) + a.args]
    if drop and not pos and not a.vararg: return None
    pos = pos[1:] if drop and pos else pos
    nd = len(a.defaults)
    kwonly = [x.arg for x in a.kwonlyargs]
    need = pos[:len(pos) - nd] if nd <= len(pos) else []
    need += [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
    return pos, need, kwonly, bool(a.vararg), bool(a.kwarg)

  def call(self, x, ctx):
    m, cls, fn = ctx
    f = x.func
    sigs = []         # (what, signature)
    if isinstance(f, ast.Attribute) and cls and isinstance(f.value, ast.Name) and f.value.id == self.me(ctx):
      for k in self.p.concrete(cls):
        if k is cls and cls.subs and cls not in self.instantiated: continue
        if any(f.attr in b.stores for b in self.p.mro(k)): continue
        t = self.p.lookup(k, f.attr)
        if isinstance(t, Fn) and t.kind in ('self', 'static', 'class'): sigs.append((t.qual(), self.signature(t.node, t.kind != 'static')))
    elif isinstance(f, ast.Attribute) and cls and isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == 'super':
      for b in self.p.mro(cls)[1:]:
        if f.attr in b.members:
          t = b.members[f.attr]
          if isinstance(t, Fn) and t.kind in ('self', 'static', 'class'): sigs.append((t.qual(), self.signature(t.node, t.kind != 'static')))
          break
      else:
        if f.attr == '__init__' and not self.p.ext_bases(cls) and not any(self.p.unknown(k) for k in self.p.mro(cls)): sigs.append(('object.__init__', ([], [], [], False, False)))
    else:
      e = self.entity(f, ctx)
      if isinstance(e, Fn):
        through = isinstance(f, ast.Attribute)
        if e.kind == 'plain' or e.kind == 'static': sigs.append((e.qual(), self.signature(e.node, False)))
        elif e.kind == 'class': sigs.append((e.qual(), self.signature(e.node, True)))
        elif e.kind == 'self' and through: sigs.append((e.qual(), self.signature(e.node, False)))
      elif isinstance(e, Cls): sigs += self.constructor(e)
      elif isinstance(e, Ext):
        if (e.mod, e.name) in SIGNED:
          s = e.spec()
          if s and s.get('init'):
            sg = self.ext_signature(s['init'])
            # this constructor refuses what it does not know
            if e.mod == 'serial' and sg[3] is False: sg = (sg[0] + ['writeTimeout', 'interCharTimeout'], sg[1], sg[2], False, False)
            sigs.append((e.name, sg))
      elif isinstance(f, ast.Attribute):
        ts = self.types(f.value, ctx)
        if ts and len(ts) == 1:
          t0 = list(ts)[0]
          t = self.p.lookup(t0, f.attr)
          if isinstance(t, Fn) and not t0.subs and t.kind in ('self', 'static', 'class') and not any(f.attr in b.stores for b in self.p.mro(t0)):
            sigs.append((t.qual(), self.signature(t.node, t.kind != 'static')))
        elif not ts: sigs += self.ext_method(f, ctx)
    self.arity(x, ctx)
    self.placeholders(x, ctx)
    for what, sig in sigs:
      if sig is None: continue
      self.c.ok()
      bad = self.mismatch(x, sig)
      if bad: self.viol('call', self.where(ctx), what, "%s: %s" % (what, bad), x)

  def arity(self, x, ctx):
    if any(isinstance(a, ast.Starred) for a in x.args) or any(k.arg is None for k in x.keywords): return
    f = x.func
    lim = None
    if isinstance(f, ast.Name) and f.id in BUILTIN_ARITY:
      e = self.entity(f, ctx)
      if isinstance(e, Ext) and e.mod == '__builtin__': lim = BUILTIN_ARITY[f.id]; what = f.id
    elif isinstance(f, ast.Attribute) and f.attr in METHOD_ARITY and f.attr not in self.p.attr_names: lim = METHOD_ARITY[f.attr]; what = f.attr
    if lim is None: return
    n = len(x.args) + len(x.keywords)
    self.c.ok()
    if not lim[0] <= n <= lim[1]: self.viol('call', self.where(ctx), what, "%s takes %s arguments, %d given" % (what, '%d to %d' % lim if lim[0] != lim[1] else lim[0], n), x)

  def placeholders(self, x, ctx):
    """'{} {a}'.format(...)"""
    f = x.func
    if not (isinstance(f, ast.Attribute) and f.attr == 'format' and isinstance(f.value, ast.Constant) and isinstance(f.value.value, str)): return
    if any(isinstance(a, ast.Starred) for a in x.args) or any(k.arg is None for k in x.keywords): return
    text = f.value.value
    auto, pos, names = 0, [], []
    try:
      fields = list(string.Formatter().parse(text))
      for lit, field, spec, conv in list(fields):
        if spec and '{' in spec: fields += [y for y in string.Formatter().parse(spec)]
    except ValueError as e:
      self.viol('placeholder', self.where(ctx), repr(text[:40]), "format string: %s" % e, x); return
    for lit, field, spec, conv in fields:
      if field is None: continue
      head = field.replace('[', '.').split('.')[0]
      if head == '': pos.append(auto); auto += 1
      elif head.isdigit(): pos.append(int(head))
      else: names.append(head)
    self.c.ok()
    given = set(k.arg for k in x.keywords)
    if any(i >= len(x.args) for i in pos): self.viol('placeholder', self.where(ctx), repr(text[:40]), "the format string has %d placeholders for %d arguments" % (max(pos) + 1, len(x.args)), x)
    for n in names:
      if n not in given: self.viol('placeholder', self.where(ctx), repr(text[:40]), "the format string names %s, which is not given" % n, x)

  def percent(self, x, ctx):
    """'%s %d' % (...)"""
    if not (isinstance(x.op, ast.Mod) and isinstance(x.left, ast.Constant) and isinstance(x.left.value, str)): return
    text = x.left.value.replace('%%', '')
    found = re.findall(r'%(\([^)]*\))?[-+ #0]*(\*|\d+)?(\.(\*|\d+))?[hlL]?[a-zA-Z]', text)
    if any(a for a, b, c, d in found): return
    n = len(found) + sum((b == '*') + (d == '*') for a, b, c, d in found)
    if isinstance(x.right, ast.Tuple):
      if any(isinstance(e, ast.Starred) for e in x.right.elts): return
      m = len(x.right.elts)
    elif isinstance(x.right, (ast.Constant, ast.JoinedStr)) or isinstance(x.right, ast.Call) and isinstance(x.right.func, ast.Name) and x.right.func.id in ('len', 'str', 'repr', 'int', 'hex'): m = 1
    else: return
    self.c.ok()
    if n != m: self.viol('placeholder', self.where(ctx), repr(x.left.value[:40]), "the format string has %d placeholders for %d arguments" % (n, m), x)

  def ext_signature(self, s):
    args, va, kw, nd = s
    pos = args[1:]
    return pos, pos[:len(pos) - nd] if nd else list(pos), [], va, kw

  def ext_method(self, f, ctx):
    """methods of an attribute that only ever holds objects of one external class"""
    m, cls, fn = ctx
    if not (cls and isinstance(f.value, ast.Attribute) and isinstance(f.value.value, ast.Name) and f.value.value.id == self.me(ctx)): return []
    attr = f.value.attr
    if attr in self.p.foreign_stores: return []
    kinds = set()
    for k in self.p.mro(cls) + cls.subs:
      for n in ast.walk(k.node):
        if isinstance(n, ast.Assign):
          for t in n.targets:
            if isinstance(t, ast.Attribute) and t.attr == attr:
              e = self.p.resolve(k.mod, n.value.func) if isinstance(n.value, ast.Call) else None
              kinds.add((e.mod, e.name) if isinstance(e, Ext) else None)
    kinds.discard(('x',))
    if len(kinds) != 1: return []
    k = kinds.pop()
    if k not in SIGNED: return []
    s = Ext(*k).spec()
    if f.attr not in s['attrs'] and f.attr not in s['methods'] and not f.attr.startswith('_'):
      self.viol('no-attribute', self.where(ctx), '%s.%s' % (k[1], f.attr), "%s has no %s" % (k[1], f.attr), f)
      return []
    if f.attr in s['methods']: return [('%s.%s' % (k[1], f.attr), self.ext_signature(s['methods'][f.attr]))]
    return []

  def constructor(self, e):
    if e.open or e.node.decorator_list: return []
    for b in self.p.mro(e):
      if b.open: return []
      if '__new__' in b.members: return []
      t = b.members.get('__init__')
      if isinstance(t, Fn): return [(t.qual(), self.signature(t.node, True))]
      if t is not None: return []
    ext = self.p.ext_bases(e)
    if ext:
      return []
    return [(e.name, ([], [], [], False, False))]

  def mismatch(self, x, sig):
    pos, need, kwonly, va, kw = sig
    star = any(isinstance(a, ast.Starred) for a in x.args)
    dstar = any(k.arg is None for k in x.keywords)
    n = len([a for a in x.args if not isinstance(a, ast.Starred)])
    if n > len(pos) and not va: return "takes %d positional arguments, %d given" % (len(pos), n)
    for k in x.keywords:
      if k.arg is None: continue
      if k.arg not in pos and k.arg not in kwonly and not kw: return "has no parameter %s" % k.arg
      if not star and k.arg in pos[:n]: return "parameter %s is given twice" % k.arg
    if not star and not dstar:
      given = set(pos[:n]) | set(k.arg for k in x.keywords)
      miss = [p for p in need if p not in given]
      if miss: return "parameter %s is missing" % ', '.join(miss)
    return None

  def unpack(self, x, ctx):
    """a, b = f() where f returns tuples of another size"""
    for t in x.targets:
      if not isinstance(t, (ast.Tuple, ast.List)) or any(isinstance(e, ast.Starred) for e in t.elts): continue
      sizes = self.sizes(x.value, ctx)
      if sizes is None: continue
      self.c.ok()
      if any(s != len(t.elts) for s in sizes):
        self.viol('unpack', self.where(ctx), callee_name(x.value) if isinstance(x.value, ast.Call) else 'value', "%d values are unpacked into %d names" % (sorted(s for s in sizes if s != len(t.elts))[0], len(t.elts)), x)

  def sizes(self, v, ctx):
    if isinstance(v, ast.Tuple): return None if any(isinstance(e, ast.Starred) for e in v.elts) else {len(v.elts)}
    if not isinstance(v, ast.Call): return None
    m, cls, fn = ctx
    e = self.entity(v.func, ctx)
    fs = []
    if isinstance(e, Fn): fs = [e]
    elif cls and isinstance(v.func, ast.Attribute) and isinstance(v.func.value, ast.Name) and v.func.value.id == self.me(ctx):
      fs = [self.p.lookup(k, v.func.attr) for k in self.p.concrete(cls) if not (k is cls and cls.subs and cls not in self.instantiated)]
    elif isinstance(v.func, ast.Attribute):
      ts = self.types(v.func.value, ctx)
      if ts: fs = [self.p.lookup(t, v.func.attr) for t in ts]
    out = set()
    for f in fs:
      if not isinstance(f, Fn) or f.kind in ('other', 'property'): return None
      for s in flat(f.node.body):
        if isinstance(s, ast.Return):
          if not isinstance(s.value, ast.Tuple) or any(isinstance(z, ast.Starred) for z in s.value.elts): return None
          out.add(len(s.value.elts))
        if any(isinstance(z, (ast.Yield, ast.YieldFrom)) for e2 in exprs_of(s) for z in walk_scope(e2)): return None
    return out or None

  # ------------------------------------------------------------------ constructors
  def summary(self, k, f):
    """of a method run on a k: attributes read before it sets them, attributes set whenever it returns, whether it can return"""
    key = (k, f)
    if key in self.sums: return self.sums[key]
    self.sums[key] = (frozenset(), frozenset(), {})
    if f.kind not in ('self', 'property', 'other') or not f.node.args.args: return self.sums[key]
    me = f.node.args.args[0].arg
    fixed = self.p.class_attrs(k)
    tracked = set('self.' + a for b in self.p.mro(k) for a in b.stores if a not in fixed)
    reads, sites = set(), {}
    pend = set()
    def report(name, node, states):
      reads.add(name[5:]); sites.setdefault(name[5:], node)
    def calls(flow, states, func, node):
      if node is None:
        # a bound method handed on: it may run once something is started
        if isinstance(func, ast.Attribute):
          t = self.p.lookup(k, func.attr)
          if isinstance(t, Fn) and t.kind == 'self': pend.add(t)
        return states
      if isinstance(func, ast.Attribute) and func.attr in STARTERS:
        for t in list(pend):
          for r in sorted(self.summary(k, t)[0]): flow.use(states, 'self.' + r, node)
      t = None
      if isinstance(func, ast.Attribute):
        if isinstance(func.value, ast.Name) and func.value.id == me: t = self.p.lookup(k, func.attr)
        elif isinstance(func.value, ast.Call) and isinstance(func.value.func, ast.Name) and func.value.func.id == 'super' and f.cls in self.p.mro(k):
          a = func.value.args
          start = self.p.resolve(f.mod, a[0]) if a else f.cls
          order = self.p.mro(k)
          if start in order:
            for b in order[order.index(start) + 1:]:
              if func.attr in b.members: t = b.members[func.attr]; break
        elif node.args and isinstance(node.args[0], ast.Name) and node.args[0].id == me:
          b = self.p.resolve(f.mod, func.value)
          if isinstance(b, Cls): t = self.p.lookup(b, func.attr)
      if isinstance(t, Fn) and t.kind == 'self':
        r, a, _ = self.summary(k, t)
        for n in sorted(r): flow.use(states, 'self.' + n, node)
        for n in a: states = flow.assign(states, 'self.' + n)
      return states
    flow = Flow(self.p, f, tracked, report, me=me, calls=calls, enums=self.enums(f.mod))
    try:
      end = flow.block([State(frozenset(), frozenset())], f.node.body)
      ends = end + flow.returns
      have = None
      some = frozenset()
      for s in ends:
        have = s.have if have is None else have & s.have
        some |= s.have
      if have is not None and not flow.coarse: self.partly[key] = dict((n[5:], f.node) for n in some - have)
      if have is None: have = frozenset(tracked)            # never returns
      out = (frozenset(reads), frozenset(n[5:] for n in have if n.startswith('self.')), sites)
    except GaveUp:
      out = (frozenset(), frozenset(n[5:] for n in tracked), {})
    self.sums[key] = out
    return out

  def klass(self, k):
    """attributes the methods of a class read are set by its constructor"""
    if self.p.unknown(k): return
    if k.subs and k not in self.instantiated: return
    init = self.p.lookup(k, '__init__')
    if init is not None and not isinstance(init, Fn): return
    excuse = set(self.p.foreign_stores)
    for b in self.p.mro(k): excuse |= self.guarded[b]
    sets = frozenset()
    if init is not None:
      r, sets, sites = self.summary(k, init)
      self.c.ok(1 + len(sets))
      for n in sorted(r - excuse):
        self.viol('read-too-early', init.qual(), '%s.%s' % (k.name, n), "the constructor of %s reads or lets another thread read %s before it is set" % (k.name, n), sites[n])
    if init is not None:
      self.c.ok()
      for n, site in sorted(self.partly.get((k, init), {}).items()):
        if n in excuse or n not in self.loaded: continue
        self.viol('sometimes-set', init.qual(), '%s.%s' % (k.name, n), "the constructor of %s sets %s on some paths only" % (k.name, n), site)
    for b in self.p.mro(k):
      for n, f in b.members.items():
        if not isinstance(f, Fn) or self.p.lookup(k, n) is not f or f.kind not in ('self', 'property') or n == '__init__': continue
        private = n.startswith('_') and not n.endswith('__')
        if private and not self.handed_on(k, n): continue
        r, a, sites = self.summary(k, f)
        if n == '__exit__' and isinstance(self.p.lookup(k, '__enter__'), Fn): r = r - self.summary(k, self.p.lookup(k, '__enter__'))[1]
        self.c.ok(1 + len(r))
        for x in sorted(r - sets - excuse):
          self.viol('not-set', f.qual(), '%s.%s' % (k.name, x), "%s reads %s, which is not set on every path through the constructor of %s" % (f.qual(), x, k.name), sites[x])

  def handed_on(self, k, name):
    for b in self.p.mro(k):
      calls = set(id(n.func) for n in ast.walk(b.node) if isinstance(n, ast.Call))
      for n in ast.walk(b.node):
        if isinstance(n, ast.Attribute) and n.attr == name and isinstance(n.ctx, ast.Load) and id(n) not in calls: return True
    return False


def c26(base, tier):
  proj = Project()
  for f, e in proj.problems: base.load_problems.append((f, e))
  ck = Checker(proj)
  obs = []
  def run(c, m):
    ck.module(m, c)
    for k in proj.classes:
      if k.mod is m: ck.klass(k)
  for n in sorted(proj.mods):
    obs.append(Ob(n, lambda c, m=proj.mods[n]: run(c, m)))
  return obs
