"""C26: everything the source refers to exists.  A whole-program resolution of names, imports, attributes and call signatures, and a
path-sensitive definite-assignment analysis of local variables and of the attributes a constructor sets.

The path analysis keeps, per path, the facts established by the tests taken (normalised tests, so `x is None` / `not x is None`,
`a == b` / `a != b` agree) and the names assigned for certain.  Loops over a collection are taken to run at least once.  Whatever cannot be
resolved (values of unknown type, dynamic attributes, unknown external modules) raises no report.
"""
import ast
import json
import os

from . import frontend

EXT = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'external.json')))
ALWAYS = {'__name__', '__file__', '__doc__', '__package__', '__builtins__', '__path__', '__loader__', '__spec__', '__debug__'}
BUILTINS = set(EXT['builtins']) | ALWAYS | set(EXT['modules']['__builtin__'])
OBJECT_ATTRS = {'__class__', '__dict__', '__doc__', '__module__', '__init__', '__new__', '__repr__', '__str__', '__hash__', '__eq__', '__ne__', '__lt__', '__gt__',
                '__le__', '__ge__', '__getattribute__', '__setattr__', '__delattr__', '__sizeof__', '__reduce__', '__reduce_ex__', '__format__', '__subclasshook__',
                '__weakref__', '__slots__', '__name__', '__mro__', '__bases__', '__dir__', '__subclasses__', '__getstate__', '__unicode__', '__nonzero__', '__bool__',
                '__len__', '__iter__', '__contains__', 'mro', '__qualname__', '__call__'}
ENUM_ATTRS = {'name', 'value', '__members__', '_member_map_', '_value2member_map_', '_member_names_', '_value_', '_name_'}
STARTERS = {'start', 'loop_start', 'loop_forever'}
LIMIT = 96


class Mod(object):
  def __init__(self, name, tree, path, package):
    self.name, self.tree, self.path, self.package = name, tree, path, package
    self.binds = {}            # name -> list of entities
    self.stars = []            # module names imported with *
    self.open = False          # an unknown module is imported with *
    self.sites = {}            # name -> first binding node


class Cls(object):
  def __init__(self, mod, node, outer=None):
    self.mod, self.node, self.name = mod, node, node.name
    self.members = {}          # name -> entity (Fn, Cls or 'value')
    self.kind = {}             # method name -> 'static' | 'class' | 'property' | 'self'
    self.stores = {}           # attribute -> methods storing it through self
    self.bases = []
    self.mro = None
    self.open = False          # base classes not known
    self.dynamic = False       # sets attributes by computed names
    self.subs = []

  def __repr__(self): return 'Cls(%s)' % self.name


class Fn(object):
  def __init__(self, mod, node, cls=None):
    self.mod, self.node, self.cls, self.name = mod, node, cls, getattr(node, 'name', '<lambda>')
    self.kind = 'self' if cls else 'plain'
    if cls:
      for d in node.decorator_list:
        n = d.id if isinstance(d, ast.Name) else d.attr if isinstance(d, ast.Attribute) else None
        if n == 'staticmethod': self.kind = 'static'
        elif n == 'classmethod': self.kind = 'class'
        elif n == 'property' or n in ('setter', 'getter', 'deleter'): self.kind = 'property'
        else: self.kind = 'other'
      if node.name == '__new__': self.kind = 'class'
    elif node.decorator_list: self.kind = 'other'

  def qual(self): return (self.cls.name + '.' if self.cls else '') + self.name


class Ext(object):
  def __init__(self, mod, name=None): self.mod, self.name = mod, name
  def spec(self):
    m = EXT['modules'].get(self.mod)
    if m is None or self.name is None: return None
    return m.get(self.name)


class ModRef(object):
  def __init__(self, name): self.name = name


class Project(object):
  def __init__(self, roots=('d7a', 'modem', 'tools', 'util')):
    self.mods, self.classes = {}, []
    self.problems = []
    for f in frontend.repo_files(*roots):
      n = frontend.rel(f)[:-3].replace('/', '.')
      pk = n.endswith('.__init__')
      if pk: n = n[:-9]
      if not n or 'examples' in n.split('.'): continue
      try: tree, src = frontend.parse_file(f)
      except frontend.SourceError as e: self.problems.append((f, e)); continue
      self.mods[n] = Mod(n, tree, frontend.rel(f), pk)
    self.outer_names = set()
    self.foreign_stores = set()
    self.attr_names = set()
    for m in self.mods.values(): self.collect(m)
    for m in self.mods.values(): self.globals(m)
    for c in self.classes: self.link(c)
    for c in self.classes:
      for b in self.mro(c)[1:]: b.subs.append(c)
    self.others()

  # -------------------------------------------------------------- definitions
  def collect(self, m):
    for n in ast.walk(m.tree):
      if isinstance(n, ast.ClassDef):
        c = n._cls = Cls(m, n)
        self.classes.append(c)
        for s in flat(n.body):
          if isinstance(s, (ast.FunctionDef,)):
            f = s._fn = Fn(m, s, c)
            c.members[s.name] = f
          elif isinstance(s, ast.ClassDef): c.members[s.name] = 'nested'
          else:
            for t in bound_in(s): c.members[t] = 'value'
        for f in ast.walk(n):
          if isinstance(f, ast.Call) and isinstance(f.func, ast.Name) and f.func.id in ('setattr', 'delattr') and not (len(f.args) > 1 and isinstance(f.args[1], ast.Constant)): c.dynamic = True
          if isinstance(f, ast.Attribute) and f.attr == '__dict__' : c.dynamic = c.dynamic or self.dict_write(n)
        if '__getattr__' in c.members or '__getattribute__' in c.members: c.dynamic = True
      if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and not hasattr(n, '_fn'): n._fn = Fn(m, n)
    m.dests = set()
    for n in ast.walk(m.tree):
      if isinstance(n, ast.Call) and callee_name(n) == 'add_argument':
        d = [k.value.value for k in n.keywords if k.arg == 'dest' and isinstance(k.value, ast.Constant)]
        if not d:
          names = [a.value for a in n.args if isinstance(a, ast.Constant) and isinstance(a.value, str)]
          long = [x for x in names if x.startswith('--')] or names
          if len(names) != len(n.args) or not long: m.dests = None; break
          d = [long[0].lstrip('-').replace('-', '_')]
        m.dests.update(d)
    if m.dests: self.attr_names |= m.dests
    for n in ast.walk(m.tree):
      if isinstance(n, ast.ClassDef):
        for s in n._cls.members.items():
          self.attr_names.add(s[0])
        for s in n.body:
          if isinstance(s, ast.FunctionDef): self.self_stores(n._cls, s)
      if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)): self.attr_names.add(n.attr)
      if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr' and len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
        self.foreign_stores.add(n.args[1].value); self.attr_names.add(n.args[1].value)
      if isinstance(n, ast.Call) and callee_name(n) in ('namedtuple', 'Enum', 'IntEnum', 'type'):
        for a in ast.walk(n):
          if isinstance(a, ast.Constant) and isinstance(a.value, str): self.attr_names.update(a.value.replace(',', ' ').split())
        for a in n.keywords:
          if a.arg: self.attr_names.add(a.arg)

  def dict_write(self, node):
    for n in ast.walk(node):
      if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Attribute) and n.value.attr == '__dict__': return True
      if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('update', 'setdefault') and isinstance(n.func.value, ast.Attribute) and n.func.value.attr == '__dict__': return True
      if isinstance(n, ast.Attribute) and n.attr == '__dict__' and isinstance(n.ctx, ast.Store): return True
    return False

  def self_stores(self, c, f):
    me = f.args.args[0].arg if f.args.args and f._fn.kind in ('self', 'property', 'other') else None
    clsname = f.args.args[0].arg if f.args.args and f._fn.kind == 'class' else None
    for n in ast.walk(f):
      if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store,)):
        if isinstance(n.value, ast.Name) and n.value.id == me: c.stores.setdefault(n.attr, set()).add(f.name)
        elif isinstance(n.value, ast.Name) and n.value.id in (clsname, c.name): c.members.setdefault(n.attr, 'value')
        else: self.foreign_stores.add(n.attr)

  def globals(self, m):
    def bind(name, ent, node):
      m.binds.setdefault(name, []).append(ent)
      m.sites.setdefault(name, node)
    for s in flat(m.tree.body):
      if isinstance(s, ast.ClassDef): bind(s.name, s._cls, s)
      elif isinstance(s, ast.FunctionDef): bind(s.name, s._fn, s)
      elif isinstance(s, ast.Import):
        for a in s.names:
          if a.asname: bind(a.asname, self.module_entity(a.name), s)
          else: bind(a.name.split('.')[0], self.module_entity(a.name.split('.')[0]), s)
      elif isinstance(s, ast.ImportFrom):
        src = self.absolute(m, s)
        for a in s.names:
          if a.name == '*':
            if src in self.mods: m.stars.append(src)
            elif src in EXT['modules']:
              for k in EXT['modules'][src]:
                if not k.startswith('_'): bind(k, Ext(src, k), s)
            else: m.open = True
          else: bind(a.asname or a.name, ('from', src, a.name), s)
      else:
        for t in bound_in(s): bind(t, 'value', s)
    for f in ast.walk(m.tree):
      if isinstance(f, ast.Global):
        for n in f.names: bind(n, 'value', f)

  def absolute(self, m, s):
    if not s.level:
      # an implicit relative import of Python 2 comes first
      pk = m.name if m.package else m.name.rpartition('.')[0]
      if s.module and pk and (pk + '.' + s.module) in self.mods: return pk + '.' + s.module
      return s.module
    base = m.name.split('.')
    if not m.package: base = base[:-1]
    base = base[:len(base) - (s.level - 1)]
    return '.'.join(base + ([s.module] if s.module else []))

  def module_entity(self, name):
    if name in self.mods or any(k.startswith(name + '.') for k in self.mods): return ModRef(name)
    return Ext(name)

  def is_module(self, name):
    return name in self.mods or any(k.startswith(name + '.') for k in self.mods) or frontend.module_path(name)[0] is not None

  def export(self, modname, name, seen=()):
    """entities a module binds a name to; [] when it does not; None when that is not known"""
    if (modname, name) in seen: return None
    seen = seen + ((modname, name),)
    m = self.mods.get(modname)
    if m is None:
      if self.is_module(modname):
        return [ModRef(modname + '.' + name)] if self.is_module(modname + '.' + name) else None
      spec = EXT['modules'].get(modname)
      if not spec: return None
      if name in spec: return [Ext(modname, name)]
      if modname + '.' + name in EXT['modules']: return [Ext(modname + '.' + name)]
      if name.startswith('_'): return None
      return []
    out = []
    for e in m.binds.get(name, []):
      if isinstance(e, tuple):
        r = self.imported(e, seen)
        if r is None: return None
        out += r
      else: out.append(e)
    if out: return out
    for s in m.stars:
      if name.startswith('_'): continue
      r = self.export(s, name, seen)
      if r: return r
      if r is None: return None
    if self.is_module(modname + '.' + name): return [ModRef(modname + '.' + name)]
    if m.open or name in ALWAYS: return None
    return []

  def imported(self, e, seen=()):
    kind, src, name = e
    if src is None: return None
    if src in self.mods or self.is_module(src): return self.export(src, name, seen)
    spec = EXT['modules'].get(src)
    if spec is None: return None
    return self.export(src, name, seen)

  def resolve(self, m, expr, c=None):
    """the one entity an expression names, or None"""
    if isinstance(expr, ast.Name):
      r = self.export(m.name, expr.id)
      if r and len(r) == 1 and r[0] not in ('value', 'nested'): return r[0]
      if r and all(x is r[0] for x in r): return r[0] if r[0] not in ('value', 'nested') else None
      if r == [] and expr.id in EXT['modules']['__builtin__']: return Ext('__builtin__', expr.id)
      return None
    if isinstance(expr, ast.Attribute):
      b = self.resolve(m, expr.value)
      if isinstance(b, ModRef):
        r = self.export(b.name, expr.attr)
        if r and len(r) == 1 and r[0] not in ('value', 'nested'): return r[0]
        return None
      if isinstance(b, Ext) and b.name is None:
        spec = EXT['modules'].get(b.mod)
        if spec and expr.attr in spec: return Ext(b.mod, expr.attr)
        if b.mod + '.' + expr.attr in EXT['modules']: return Ext(b.mod + '.' + expr.attr)
        return None
      if isinstance(b, Cls):
        v = self.lookup(b, expr.attr)
        return v if isinstance(v, (Fn, Cls)) else None
    return None

  # -------------------------------------------------------------- classes
  def link(self, c):
    for b in c.node.bases:
      e = self.resolve(c.mod, b)
      c.bases.append(e)
    for k in c.node.keywords: c.open = True
    if c.node.decorator_list: c.open = True

  def mro(self, c):
    if c.mro is not None: return c.mro
    c.mro = [c]                # cuts cycles
    out = [c]
    lists = []
    for b in c.bases:
      if isinstance(b, Cls): lists.append(list(self.mro(b)))
      elif isinstance(b, Ext) and b.mod == '__builtin__' and b.name == 'object': pass
      elif isinstance(b, Ext): pass
      else: c.open = True
    lists.append([b for b in c.bases if isinstance(b, Cls)])
    lists = [l for l in lists if l]
    while lists:
      for l in lists:
        h = l[0]
        if not any(h in x[1:] for x in lists): break
      else: h = lists[0][0]
      out.append(h)
      lists = [[y for y in x if y is not h] for x in lists]
      lists = [x for x in lists if x]
    c.mro = out
    return out

  def ext_bases(self, c):
    return [b for k in self.mro(c) for b in k.bases if isinstance(b, Ext) and not (b.mod == '__builtin__' and b.name == 'object')]

  def unknown(self, c):
    """its attributes cannot be enumerated"""
    for k in self.mro(c):
      if k.open or k.dynamic: return True
    for b in self.ext_bases(c):
      s = b.spec()
      if not s or 'attrs' not in s: return True
    return False

  def is_enum(self, c):
    return any(b.mod == 'enum' for b in self.ext_bases(c))

  def ext_attrs(self, c):
    out = set()
    for b in self.ext_bases(c):
      s = b.spec()
      if s: out.update(s.get('attrs', ()))
      if b.mod == 'enum': out |= ENUM_ATTRS
      if b.mod in ('exceptions', '__builtin__'): out |= {'args', 'message'}
    return out

  def lookup(self, c, name):
    for k in self.mro(c):
      if name in k.members: return k.members[name]
    return None

  def class_attrs(self, c):
    out = set(OBJECT_ATTRS) | self.ext_attrs(c)
    for k in self.mro(c): out.update(k.members)
    return out

  def inst_attrs(self, c):
    out = self.class_attrs(c)
    for k in self.mro(c): out.update(k.stores)
    return out

  def others(self):
    """what tests, examples and the like define or store counts as existing"""
    for f in frontend.repo_files('d7a', 'modem', 'tools', 'util', 'examples', 'test'):
      n = frontend.rel(f)[:-3].replace('/', '.')
      if n in self.mods: continue
      try: tree, src = frontend.parse_file(f)
      except (frontend.SourceError, IOError): continue
      for x in ast.walk(tree):
        if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and not (isinstance(x.value, ast.Name) and x.value.id == 'self'): self.foreign_stores.add(x.attr)

  def concrete(self, c):
    """classes whose instances run the methods of c"""
    return [c] + c.subs


def callee_name(n):
  return n.func.id if isinstance(n.func, ast.Name) else n.func.attr if isinstance(n.func, ast.Attribute) else None


def flat(body):
  """statements of a scope, through compound statements but not into functions and classes"""
  for s in body:
    yield s
    for f in ('body', 'orelse', 'finalbody'):
      if not isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
        for x in flat(getattr(s, f, [])): yield x
    for h in getattr(s, 'handlers', []):
      for x in flat(h.body): yield x


def targets(t):
  if isinstance(t, ast.Name): return [t.id]
  if isinstance(t, (ast.Tuple, ast.List)): return [x for e in t.elts for x in targets(e)]
  if isinstance(t, ast.Starred): return targets(t.value)
  return []


def bound_in(s):
  """names one statement (not its parts) binds in its scope, including the variables of list comprehensions, which Python 2 leaks"""
  out = []
  if isinstance(s, ast.Assign): out += [x for t in s.targets for x in targets(t)]
  elif isinstance(s, (ast.AugAssign, ast.AnnAssign)): out += targets(s.target)
  elif isinstance(s, ast.For): out += targets(s.target)
  elif isinstance(s, (ast.FunctionDef, ast.ClassDef)): out.append(s.name)
  elif isinstance(s, ast.Import): out += [a.asname or a.name.split('.')[0] for a in s.names]
  elif isinstance(s, ast.ImportFrom): out += [a.asname or a.name for a in s.names if a.name != '*']
  elif isinstance(s, ast.With): out += [x for i in s.items if i.optional_vars is not None for x in targets(i.optional_vars)]
  elif isinstance(s, ast.Try): out += [h.name for h in s.handlers if h.name]
  elif isinstance(s, (ast.Global, ast.Nonlocal)): return []
  for e in exprs_of(s):
    for n in walk_scope(e):
      if isinstance(n, ast.ListComp): out += [x for g in n.generators for x in targets(g.target)]
      if isinstance(n, ast.NamedExpr): out += targets(n.target)
  return out


def exprs_of(s):
  """the expressions evaluated by a statement itself"""
  for f, v in ast.iter_fields(s):
    if f in ('body', 'orelse', 'finalbody', 'handlers') and isinstance(v, list): continue
    for x in (v if isinstance(v, list) else [v]):
      if isinstance(x, ast.expr): yield x
      elif isinstance(x, ast.withitem):
        yield x.context_expr
        if x.optional_vars is not None: yield x.optional_vars
      elif isinstance(x, ast.keyword): yield x.value


def walk_scope(e):
  """nodes of an expression, not into lambdas"""
  todo = [e]
  while todo:
    n = todo.pop()
    yield n
    if isinstance(n, ast.Lambda): continue
    todo.extend(ast.iter_child_nodes(n))


# ---------------------------------------------------------------------------------------------------- facts
def const_like(e):
  if isinstance(e, ast.Constant): return True
  if isinstance(e, ast.Attribute):
    b = e
    while isinstance(b, ast.Attribute): b = b.value
    return isinstance(b, ast.Name) and b.id[:1].isupper()
  if isinstance(e, ast.UnaryOp): return const_like(e.operand)
  return False


def strip_value(e):
  """X.A and X.A.value name the same constant"""
  if isinstance(e, ast.Attribute) and e.attr == 'value' and const_like(e.value) and isinstance(e.value, ast.Attribute): return e.value
  return e


def dump(e): return ast.dump(strip_value(e))


def norm(e):
  """(key, polarity) of an atomic test"""
  pol = True
  while isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not): e = e.operand; pol = not pol
  if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'bool' and len(e.args) == 1: return norm_p(e.args[0], pol)
  if isinstance(e, ast.Compare) and len(e.ops) == 1:
    l, o, r = e.left, e.ops[0], e.comparators[0]
    if const_like(l) and not const_like(r):
      flip = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}
      l, r = r, l
      o = flip.get(type(o), type(o))()
    if isinstance(o, (ast.Eq, ast.Is, ast.NotEq, ast.IsNot)):
      p = isinstance(o, (ast.Eq, ast.Is))
      if isinstance(r, ast.Constant) and r.value is True: return norm_p(l, pol == p)
      if isinstance(r, ast.Constant) and r.value is False: return norm_p(l, pol != p)
      return ('eq', dump(l), dump(r)), pol == p
    if isinstance(o, (ast.In, ast.NotIn)): return ('in', dump(l), dump(r)), pol == isinstance(o, ast.In)
    if isinstance(o, ast.Lt): return ('lt', dump(l), dump(r)), pol
    if isinstance(o, ast.GtE): return ('lt', dump(l), dump(r)), not pol
    if isinstance(o, ast.Gt): return ('gt', dump(l), dump(r)), pol
    if isinstance(o, ast.LtE): return ('gt', dump(l), dump(r)), not pol
  return ('truth', dump(e)), pol


def norm_p(e, pol):
  k, p = norm(e)
  return k, p == pol


def lits(e):
  """the values of a literal collection"""
  if isinstance(e, (ast.Tuple, ast.List, ast.Set)): return [dump(x) for x in e.elts]
  return None


class State(object):
  __slots__ = ('facts', 'have')
  def __init__(self, facts, have): self.facts, self.have = facts, have


def mentions(key, name):
  """a fact about a variable or attribute chain"""
  if name.startswith('self.'): pat = "attr='%s'" % name[5:]
  else: pat = "id='%s'" % name
  return any(pat in k for k in key if isinstance(k, str))


class GaveUp(Exception): pass


class Flow(object):
  """path-sensitive definite assignment over one function"""
  def __init__(self, proj, fn, tracked, report, me=None, calls=None, enums=None):
    self.proj, self.fn, self.tracked, self.report = proj, fn, tracked, report
    self.me = me                      # name of the self parameter, when attributes are tracked
    self.calls = calls                # function(state set, call node) -> attributes assigned by a call
    self.enums = enums or (lambda e: None)
    self.handlers = []
    self.returns = []
    self.uses = 0
    self.coarse = False

  # ---- sets of states
  def join(self, states):
    d = {}
    for s in states:
      if s.facts in d: d[s.facts] = d[s.facts] & s.have
      else: d[s.facts] = s.have
    if len(d) > LIMIT:
      # too many paths: from here on only what no path assigns is reported
      self.coarse = True
      facts, have = None, frozenset()
      for f, h in d.items():
        facts = f if facts is None else facts & f
        have |= h
      return [State(facts, have)]
    return [State(f, h) for f, h in d.items()]

  def known(self, facts, key):
    d = dict(facts)
    if key in d: return d[key]
    if key[0] == 'eq':
      for k, v in facts:
        if k[0] == 'eq' and v and k[1] == key[1] and k[2] != key[2] and is_const(k[2]) and is_const(key[2]): return False
      if key[2] == dump(ast.Constant(None)):
        if d.get(('truth', key[1])): return False
    if key[0] == 'truth':
      for k, v in facts:
        if k[0] == 'eq' and v and k[1] == key[1]:
          if k[2] == dump(ast.Constant(None)): return False
    return None

  def assume(self, states, e, pol):
    """the states in which the test has the given outcome"""
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not): return self.assume(states, e.operand, not pol)
    if isinstance(e, ast.Constant):
      return states if bool(e.value) == pol else []
    if isinstance(e, ast.BoolOp):
      if isinstance(e.op, ast.And) == pol:
        for v in e.values: states = self.assume(states, v, pol)
        return states
      out = []
      cur = states
      for v in e.values:
        out += self.assume(cur, v, pol)
        cur = self.assume(cur, v, not pol)
      return self.join(out)
    if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.ops[0], (ast.In, ast.NotIn)) and lits(e.comparators[0]):
      vals = lits(e.comparators[0])
      inside = pol == isinstance(e.ops[0], ast.In)
      keys = [('eq', dump(e.left), v) for v in vals]
      if not inside:
        for k in keys: states = self.add(states, k, False)
        return states
      out = []
      for k in keys: out += self.add(states, k, True)
      return self.join(out)
    key, p = norm(e)
    return self.add(states, key, pol == p, e)

  def add(self, states, key, val, e=None):
    out = []
    for s in states:
      v = self.known(s.facts, key)
      if v is None:
        f = s.facts | {(key, val)}
        if key[0] == 'eq' and not val:
          mem = self.enums(key[2])
          if mem and all((('eq', key[1], m), False) in f for m in mem): continue
        out.append(State(f, s.have))
      elif v == val: out.append(s)
    return self.join(out)

  def kill(self, states, name):
    out = []
    for s in states:
      f = frozenset(x for x in s.facts if not mentions(x[0], name))
      out.append(State(f, s.have))
    return self.join(out)

  def assign(self, states, name, value=None):
    states = self.kill(states, name)
    if name in self.tracked: states = self.join([State(s.facts, s.have | {name}) for s in states])
    if isinstance(value, ast.Constant) and (value.value is None or isinstance(value.value, (bool, int, str))):
      n = ast.Name(id=name, ctx=ast.Load()) if not name.startswith('self.') else ast.Attribute(value=ast.Name(id=self.me, ctx=ast.Load()), attr=name[5:], ctx=ast.Load())
      facts = {(('eq', dump(n), dump(value)), True), (('truth', dump(n)), bool(value.value))}
      if isinstance(value.value, bool): facts = {(('truth', dump(n)), value.value)}
      states = self.join([State(s.facts | facts, s.have) for s in states])
    elif isinstance(value, (ast.Call,)) and isinstance(value.func, ast.Name) and value.func.id[:1].isupper():
      n = ast.Name(id=name, ctx=ast.Load())
      states = self.join([State(s.facts | {(('eq', dump(n), dump(ast.Constant(None))), False)}, s.have) for s in states])
    return states

  # ---- expressions
  def use(self, states, name, node):
    if name not in self.tracked: return
    self.uses += 1
    if any(name not in s.have for s in states): self.report(name, node, states)

  def expr(self, states, e):
    """evaluates an expression: returns the states after it"""
    if e is None or not states: return states
    if isinstance(e, ast.Name):
      if isinstance(e.ctx, ast.Load): self.use(states, e.id, e)
      return states
    if isinstance(e, ast.Constant): return states
    if isinstance(e, ast.BoolOp):
      cur, out = states, []
      for i, v in enumerate(e.values):
        cur = self.expr(cur, v)
        if i < len(e.values) - 1:
          pol = isinstance(e.op, ast.And)
          out += self.assume(cur, v, not pol)
          cur = self.assume(cur, v, pol)
      return self.join(out + cur)
    if isinstance(e, ast.IfExp):
      st = self.expr(states, e.test)
      a = self.expr(self.assume(st, e.test, True), e.body)
      b = self.expr(self.assume(st, e.test, False), e.orelse)
      return self.join(a + b)
    if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
      inner = states
      bound = [x for g in e.generators for x in targets(g.target)]
      for g in e.generators:
        inner = self.expr(inner, g.iter)
        for x in targets(g.target): inner = self.assign(inner, x)
        for i in g.ifs:
          inner = self.expr(inner, i)
          inner = self.assume(inner, i, True)
      if isinstance(e, ast.DictComp): inner = self.expr(self.expr(inner, e.key), e.value)
      else: inner = self.expr(inner, e.elt)
      if isinstance(e, ast.ListComp):
        for x in bound: states = self.assign(states, x)
      return states
    if isinstance(e, ast.Lambda):
      for d in e.args.defaults: states = self.expr(states, d)
      return states
    if isinstance(e, ast.NamedExpr):
      states = self.expr(states, e.value)
      return self.assign(states, e.target.id, e.value)
    if isinstance(e, ast.Attribute):
      if self.me and isinstance(e.value, ast.Name) and e.value.id == self.me:
        self.use(states, self.me, e.value)
        if isinstance(e.ctx, ast.Load):
          self.use(states, 'self.' + e.attr, e)
          if self.calls: states = self.calls(self, states, e, None)
        return states
      return self.expr(states, e.value)
    if isinstance(e, ast.Call):
      if isinstance(e.func, ast.Attribute) and self.me and isinstance(e.func.value, ast.Name) and e.func.value.id == self.me: self.use(states, 'self.' + e.func.attr, e.func)
      elif isinstance(e.func, ast.Name) and e.func.id in ('hasattr', 'getattr') and len(e.args) >= 2 and isinstance(e.args[1], ast.Constant) and self.me and isinstance(e.args[0], ast.Name) and e.args[0].id == self.me:
        pass
      else: states = self.expr(states, e.func)
      for a in e.args: states = self.expr(states, a.value if isinstance(a, ast.Starred) else a)
      for k in e.keywords: states = self.expr(states, k.value)
      if self.calls: states = self.calls(self, states, e.func, e)
      if noreturn(e): return []
      return states
    for c in ast.iter_child_nodes(e):
      if isinstance(c, ast.expr): states = self.expr(states, c)
      elif isinstance(c, ast.keyword): states = self.expr(states, c.value)
      elif isinstance(c, ast.Slice): states = self.expr(states, c)
    return states

  def store(self, states, t, value=None):
    if isinstance(t, ast.Name): return self.assign(states, t.id, value)
    if isinstance(t, (ast.Tuple, ast.List)):
      vals = value.elts if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(t.elts) else [None] * len(t.elts)
      for x, v in zip(t.elts, vals): states = self.store(states, x, v)
      return states
    if isinstance(t, ast.Starred): return self.store(states, t.value)
    if isinstance(t, ast.Attribute):
      if self.me and isinstance(t.value, ast.Name) and t.value.id == self.me: return self.assign(states, 'self.' + t.attr, value)
      states = self.expr(states, t.value)
      out = []
      pat = "attr='%s'" % t.attr
      for s in states: out.append(State(frozenset(x for x in s.facts if not any(pat in k for k in x[0] if isinstance(k, str))), s.have))
      return self.join(out)
    return self.expr(states, t)

  # ---- statements: each returns the states in which it ends normally
  def block(self, states, body):
    for s in body:
      if not states: break
      states = self.stmt(states, s)
    return states

  def may_raise(self, s):
    if isinstance(s, ast.Assign) and isinstance(s.value, ast.Call) and self.fn is not None and all(isinstance(t, ast.Name) for t in s.targets):
      # making an object of a class from elsewhere
      e = self.proj.resolve(self.fn.mod, s.value.func)
      if isinstance(e, Ext) and e.name and e.name[:1].isupper(): return False
    for n in ast.walk(s):
      if isinstance(n, (ast.Call, ast.Attribute, ast.Subscript, ast.BinOp, ast.Compare, ast.Raise, ast.Assert, ast.Import, ast.ImportFrom)):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('bytearray', 'list', 'dict', 'set', 'tuple', 'str') and not n.args: continue
        return True
      if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id not in BUILTINS: continue
    return False

  def stmt(self, states, s):
    if self.handlers and not isinstance(s, (ast.If, ast.For, ast.While, ast.Try, ast.With, ast.FunctionDef, ast.ClassDef)) and self.may_raise(s):
      self.handlers[-1] += states
    if isinstance(s, ast.Expr): return self.expr(states, s.value)
    if isinstance(s, ast.Assign):
      states = self.expr(states, s.value)
      for t in s.targets: states = self.store(states, t, s.value)
      return states
    if isinstance(s, ast.AugAssign):
      if isinstance(s.target, ast.Name): self.use(states, s.target.id, s.target)
      elif self.me and isinstance(s.target, ast.Attribute) and isinstance(s.target.value, ast.Name) and s.target.value.id == self.me: self.use(states, 'self.' + s.target.attr, s.target)
      states = self.expr(states, s.value)
      return self.store(states, s.target)
    if isinstance(s, ast.AnnAssign):
      if s.value is None: return states
      return self.store(self.expr(states, s.value), s.target, s.value)
    if isinstance(s, ast.Return):
      states = self.expr(states, s.value)
      self.returns += states
      return []
    if isinstance(s, ast.Raise):
      if s.exc is not None: self.expr(states, s.exc)
      return []
    if isinstance(s, ast.Assert):
      states = self.expr(states, s.test)
      bad = self.assume(states, s.test, False)
      if s.msg is not None and bad: self.expr(bad, s.msg)
      return self.assume(states, s.test, True)
    if isinstance(s, ast.Delete):
      for t in s.targets:
        if isinstance(t, ast.Name):
          self.use(states, t.id, t)
          states = self.join([State(x.facts, x.have - {t.id}) for x in self.kill(states, t.id)])
        else: states = self.expr(states, t) if not isinstance(t, ast.Attribute) else self.expr(states, t.value)
      return states
    if isinstance(s, ast.If):
      if self.handlers and self.may_raise(s.test): self.handlers[-1] += states
      states = self.expr(states, s.test)
      a = self.block(self.assume(states, s.test, True), s.body)
      b = self.block(self.assume(states, s.test, False), s.orelse)
      return self.join(a + b)
    if isinstance(s, (ast.For, ast.While)):
      old = self.loop if hasattr(self, 'loop') else None
      self.loop = ([], [])
      if self.handlers: self.handlers[-1] += states
      if isinstance(s, ast.For):
        states = self.expr(states, s.iter)
        states = self.store(states, s.target)
        after = self.block(states, s.body)
        normal = self.join(after + self.loop[1])
      else:
        states = self.expr(states, s.test)
        inside = self.assume(states, s.test, True)
        after = self.block(inside, s.body)
        normal = self.join(after + self.loop[1])
        if isinstance(s.test, ast.Constant) and s.test.value: normal = []
        else:
          # what the body changed is not known after more rounds
          ends = []
          for x in normal: ends += self.assume([x], s.test, False) or [State(frozenset(), x.have)]
          normal = self.join(ends)
          if not inside: normal = states
      brk = self.loop[0]
      self.loop = old
      normal = self.block(normal, s.orelse)
      return self.join(normal + brk)
    if isinstance(s, ast.Break): self.loop[0].extend(states); return []
    if isinstance(s, ast.Continue): self.loop[1].extend(states); return []
    if isinstance(s, ast.With):
      for i in s.items:
        if self.handlers: self.handlers[-1] += states
        states = self.expr(states, i.context_expr)
        if i.optional_vars is not None: states = self.store(states, i.optional_vars)
      return self.block(states, s.body)
    if isinstance(s, ast.Try):
      self.handlers.append([])
      r0 = len(self.returns)
      body = self.block(states, s.body)
      caught = self.join(self.handlers.pop())
      outer = []
      if not s.handlers: outer = caught
      body = self.block(body, s.orelse)
      ends = body
      if s.handlers:
        if self.handlers and not any(h.type is None for h in s.handlers): self.handlers[-1] += caught
        for h in s.handlers:
          st = caught
          if h.type is not None: st = self.expr(st, h.type)
          if h.name: st = self.assign(st, h.name)
          inner = self.block(st, h.body)
          ends = ends + inner
      ends = self.join(ends)
      if s.finalbody:
        # also entered with an exception in flight
        if caught:
          rep, self.report = self.report, self.report
          rr, self.returns = self.returns, []
          self.block(caught, s.finalbody)
          self.returns = rr
        ends = self.block(ends, s.finalbody)
        rets = self.returns[r0:]
        if rets: self.returns[r0:] = self.block(self.join(rets), s.finalbody) if not any(isinstance(x, ast.Return) for x in flat(s.finalbody)) else rets
        if self.handlers and outer: self.handlers[-1] += outer
      return ends
    if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
      for d in s.decorator_list: states = self.expr(states, d)
      if isinstance(s, ast.FunctionDef):
        for d in s.args.defaults + [x for x in s.args.kw_defaults if x is not None]: states = self.expr(states, d)
      else:
        for b in s.bases: states = self.expr(states, b)
        if self.classbody: states = self.classbody(self, states, s)
      return self.assign(states, s.name)
    if isinstance(s, (ast.Import, ast.ImportFrom)):
      for n in bound_in(s): states = self.assign(states, n)
      if isinstance(s, ast.ImportFrom) and s.names[0].name == '*' and self.star:
        for n in self.star(s): states = self.assign(states, n)
      return states
    return states

  classbody = None
  star = None


def noreturn(call):
  f = call.func
  if isinstance(f, ast.Name) and f.id in ('exit', 'quit'): return True
  if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name):
    return (f.value.id, f.attr) in (('sys', 'exit'), ('os', '_exit'), ('os', 'abort'))
  return False


def is_const(d):
  return d.startswith('Constant(') or d.startswith('Attribute(') and any("id='%s" % ch in d for ch in 'ABCDEFGHIJKLMNOPQRSTUVWXYZ')
