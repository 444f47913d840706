"""Interprocedural abstract interpreter for the repository's Python 2 subset.

Forward analysis.  One abstract state is propagated through the syntax tree; `live` is the guard under which the
current program point is reached.  Control-flow merges join states (guarded joins per variable, per attribute and per
element), exceptions and returns are collected as guarded exits and joined at handlers and call sites.  Nothing of the
analysed program is executed and no constraint solver is involved: all questions asked of the domain are node
comparisons of canonical Boolean functions.
"""
import ast, os, time
from . import frontend
from .bdd import BDD, TRUE, FALSE, TooBig
from .values import *


class Dead(Exception):
  """the current program point is unreachable"""


class Unsupported(Exception):
  """a construct outside the analysed subset: the obligation stays undecided"""


class LoopCtx(object):
  __slots__ = ('brk', 'cont')
  def __init__(self): self.brk = FALSE; self.cont = FALSE


class Frame(object):
  def __init__(self, name, module, entry, closure=None, cls=None, localnames=None, parent_loc=None):
    self.name, self.module, self.entry = name, module, entry
    self.vars = {}
    self.closure = closure or []
    self.cls = cls
    self.localnames = localnames
    self.ret = []
    self.gen = None
    self.loops = []
    self.trydepth = 0
    self.gone = FALSE
    self.line = 0
    self.globalnames = set()
    self.selfobj = None


class Thrown(object):
  __slots__ = ('guard', 'exc', 'loc')
  def __init__(self, guard, exc, loc): self.guard, self.exc, self.loc = guard, exc, loc


class Opaques(object):
  """an unknown number of unknown elements"""
  __slots__ = ('tag',)
  def __init__(self, tag): self.tag = tag


MAXLOOP = 600
SYMLOOP = 300


def fn_locals(node):
  """names local to a function and whether it is a generator"""
  c = getattr(node, '_d7_locals', None)
  if c is not None: return c
  names, glob, gen = set(), set(), False
  a = node.args
  for x in a.posonlyargs + a.args + a.kwonlyargs: names.add(x.arg)
  if a.vararg: names.add(a.vararg.arg)
  if a.kwarg: names.add(a.kwarg.arg)
  def visit(n):
    nonlocal gen
    if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
      names.add(n.name)
      for d in n.decorator_list: visit(d)
      return
    if isinstance(n, ast.Lambda): return
    if isinstance(n, (ast.Yield, ast.YieldFrom)): gen = True
    if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)): names.add(n.id)
    if isinstance(n, ast.Global): glob.update(n.names)
    if isinstance(n, ast.ExceptHandler) and n.name: names.add(n.name)
    if isinstance(n, (ast.Import, ast.ImportFrom)):
      for al in n.names: names.add((al.asname or al.name).split('.')[0])
    for ch in ast.iter_child_nodes(n): visit(ch)
  body = node.body if isinstance(node.body, list) else [node.body]
  for s in body: visit(s)
  names -= glob
  node._d7_locals = (names, glob, gen)
  return node._d7_locals


class Interp(object):
  def __init__(self):
    self.B = BDD()
    self.live = TRUE
    self.sinks = []
    self.frames = []
    self.modules = {}
    self.loading = False
    self.epoch = 0
    self.events = []
    self.mutations = []        # (guard, object, what, loc) on objects older than the current epoch
    self.blob_ctx = []
    self.keep_alts = False     # texts keep alternatives in place (no cross product)
    self.fresh = {}
    self.bases = {}            # LI base id -> SI
    self.base_ids = {}
    self.diffs = {}            # normalised linear terms -> fresh SI
    self.softs = []            # notes on over-approximations
    self.steps = 0
    self.deadline = None
    self.lintervals = {}
    self.widen_loops = True
    self.hooks = {}
    self.calls_seen = set()
    self.funcs_seen = set()
    self.writelog = None
    self.memos = set()
    self.json_handlers = []
    from . import models
    self.models = models
    models.install(self)

  # ------------------------------------------------------------------ guards
  def AND(self, a, b): return self.B.AND(a, b)
  def OR(self, a, b): return self.B.OR(a, b)
  def NOT(self, a): return self.B.NOT(a)

  def must(self, node):
    """does node hold everywhere here"""
    return self.B.AND(self.live, self.B.NOT(node)) == 0

  def may(self, node):
    return self.B.AND(self.live, node) != 0

  def loc(self):
    if not self.frames: return "?"
    f = self.frames[-1]
    p = f.module.path if f.module is not None and f.module.path else '?'
    return "%s:%s in %s" % (frontend.rel(p) if p != '?' else '?', f.line, f.name)

  def stack(self):
    out = []
    for f in self.frames:
      p = f.module.path if f.module is not None and f.module.path else '?'
      out.append("%s:%s(%s)" % (frontend.rel(p) if p != '?' else '?', f.line, f.name))
    return out

  # ------------------------------------------------------------------ integers
  def new_int(self, label, width, signed=False, soft=False):
    B = self.B
    n = width
    order = [None] * n
    for i in reversed(range(n)):
      order[i] = B.new_var(label, i, soft)
    if not signed: order.append(FALSE)
    return self.norm_int(tuple(order))

  def new_bool(self, label, soft=False):
    return SB(self.B.new_var(label + '?', 0, soft))

  def soft_int(self, why, width=48, signed=True):
    self.softs.append((why, self.loc()))
    return self.new_int('~' + why, width, signed, soft=True)

  def soft_bool(self, why, key=None):
    if key is not None:
      k = ('softbool', why, key)
      if k in self.fresh: return self.fresh[k]
    self.softs.append((why, self.loc()))
    v = self.new_bool('~' + why, soft=True)
    if key is not None: self.fresh[k] = v
    return v

  def norm_int(self, bits):
    """drop redundant sign bits; constant -> python int"""
    n = len(bits)
    while n > 1 and bits[n - 1] == bits[n - 2]: n -= 1
    bits = tuple(bits[:n])
    for b in bits:
      if b > 1: return SI(bits)
    v = 0
    for i, b in enumerate(bits[:-1]):
      if b: v |= 1 << i
    if bits[-1]: v -= 1 << (n - 1)
    return v

  def bits(self, v):
    if isinstance(v, SI): return v.bits
    if isinstance(v, bool): return (TRUE, FALSE) if v else (FALSE,)
    if isinstance(v, int):
      n = v.bit_length() + 1
      return tuple((v >> i) & 1 for i in range(n))
    if isinstance(v, SB): return (v.node, FALSE)
    if isinstance(v, LI): return self.bits(self.li_bits(v))
    raise Unsupported("bits of %r" % (v,))

  @staticmethod
  def ext(bits, n):
    if len(bits) >= n: return bits
    return bits + (bits[-1],) * (n - len(bits))

  def is_num(self, v):
    return (isinstance(v, int) and not isinstance(v, bool)) or isinstance(v, (SI, LI))

  def is_intlike(self, v):
    return isinstance(v, (int, SI, LI, SB))

  # linear integers
  def li_of(self, v):
    if isinstance(v, LI): return v
    if isinstance(v, int): return LI((), int(v))
    if isinstance(v, SB): v = SI((v.node, FALSE))
    k = v.bits
    i = self.base_ids.get(k)
    if i is None:
      i = len(self.bases) + 1
      self.base_ids[k] = i
      self.bases[i] = v
    return LI(((1, i),), 0)

  def li_norm(self, l):
    if not l.terms: return l.const
    if len(l.terms) == 1 and l.terms[0][0] == 1:
      base = self.bases[l.terms[0][1]]
      return base if l.const == 0 else self.add_bits(base, l.const)
    return l

  def li_add(self, a, b, sign=1):
    a, b = self.li_of(a), self.li_of(b)
    d = {}
    for c, i in a.terms: d[i] = d.get(i, 0) + c
    for c, i in b.terms: d[i] = d.get(i, 0) + sign * c
    terms = tuple(sorted((c, i) for i, c in d.items() if c))
    return self.li_norm(LI(terms, a.const + sign * b.const))

  def li_scale(self, a, k):
    a = self.li_of(a)
    return self.li_norm(LI(tuple((c * k, i) for c, i in a.terms if c * k), a.const * k))

  def li_bits(self, l):
    """integer with bits for a linear form"""
    key = ('libits', l.terms, l.const)
    if key in self.fresh: return self.fresh[key]
    n0 = len(self.B.var)
    acc = l.const
    try:
      for c, i in l.terms:
        t = self.bases[i]
        t = self.mul_const(t, c)
        acc = self.add_bits(acc, t, 400000)
        if len(self.B.var) - n0 > 400000: raise TooBig()
    except TooBig:
      acc = self.diff_var(l)
    self.fresh[key] = acc
    return acc

  def diff_var(self, l):
    """the value of a linear form as a fresh integer tied only to its normal form"""
    terms = l.terms
    sign = 1
    if terms[0][0] < 0:
      sign = -1
      terms = tuple(sorted((-c, i) for c, i in terms))
    if terms not in self.diffs:
      self.diffs[terms] = self.soft_int('diff', 44, True)
    v = self.diffs[terms]
    if sign < 0: v = self.neg(v)
    return self.add_bits(v, l.const)

  def li_value(self, l):
    """integer with bits for a linear form: exact when its terms alternate in the variable order, a tied unknown otherwise"""
    if not isinstance(l, LI): return l
    k = ('licheap', l.terms)
    ok = self.fresh.get(k)
    if ok is None:
      groups = []          # [lo, hi, bits of the widest]
      for c, i in l.terms:
        sup = set()
        n = 0
        for x in self.bases[i].bits:
          if x > 1: n += 1; sup |= self.B.support(x)
        if not sup: continue
        lo, hi = min(sup), max(sup)
        keep = []
        for g in groups:
          if g[0] <= hi and lo <= g[1]: lo, hi, n = min(lo, g[0]), max(hi, g[1]), max(n, g[2])
          else: keep.append(g)
        groups = keep + [[lo, hi, n]]
      sizes = sorted(g[2] for g in groups)
      ok = sum(sizes[:-1]) <= 8
      self.fresh[k] = ok
    return self.li_bits(l) if ok else self.diff_var(l)

  def li_range(self, l):
    lo = hi = l.const
    for c, i in l.terms:
      b = self.bases[i].bits
      m = (1 << (len(b) - 1)) - 1
      mn = 0 if b[-1] == FALSE else -m - 1
      if c > 0: lo += c * mn; hi += c * m
      else: lo += c * m; hi += c * mn
    return lo, hi

  def heavy(self, a, b):
    """would bitwise arithmetic on both be too entangled"""
    if isinstance(a, LI) or isinstance(b, LI): return True
    if not (isinstance(a, SI) and isinstance(b, SI)): return False
    n = 0
    for x, y in zip(a.bits, b.bits):
      if x > 1 and y > 1: n += 1
    if n < 15: return False
    sa = set(); sb = set()
    for x in a.bits: sa |= self.B.support(x)
    for x in b.bits: sb |= self.B.support(x)
    return not (sa & sb)

  def add_bits(self, a, b, limit=None):
    B = self.B
    x, y = self.bits(a), self.bits(b)
    n = max(len(x), len(y)) + 1
    x, y = self.ext(x, n), self.ext(y, n)
    c = FALSE
    out = []
    n0 = len(B.var)
    for i in range(n):
      xy = B.XOR(x[i], y[i])
      out.append(B.XOR(xy, c))
      c = B.OR(B.AND(x[i], y[i]), B.AND(c, xy))
      if limit and len(B.var) - n0 > limit: raise TooBig()
    return self.norm_int(tuple(out))

  def neg(self, a):
    if isinstance(a, int): return -a
    if isinstance(a, LI): return self.li_scale(a, -1)
    inv = tuple(self.B.NOT(b) for b in self.bits(a))
    return self.add_bits(self.norm_int(inv), 1)

  def add(self, a, b):
    if isinstance(a, int) and isinstance(b, int): return a + b
    if self.heavy(a, b): return self.li_add(a, b)
    return self.add_bits(a, b)

  def sub(self, a, b):
    if isinstance(a, int) and isinstance(b, int): return a - b
    if isinstance(a, (SI, LI)) and isinstance(b, (SI, LI)):
      if self.same_int(a, b): return 0
    if self.heavy(a, b): return self.li_add(a, b, -1)
    return self.add_bits(a, self.neg(b))

  def same_int(self, a, b):
    if isinstance(a, SI) and isinstance(b, SI): return a.bits == b.bits
    if isinstance(a, LI) and isinstance(b, LI): return a.terms == b.terms and a.const == b.const
    return isinstance(a, int) and isinstance(b, int) and a == b

  def mul_const(self, a, k):
    if isinstance(a, int): return a * k
    if isinstance(a, LI): return self.li_scale(a, k)
    if k == 0: return 0
    neg = k < 0
    k = abs(k)
    acc = 0
    i = 0
    while k >> i:
      if (k >> i) & 1: acc = self.add(acc, self.shl(a, i))
      i += 1
    return self.neg(acc) if neg else acc

  def shl(self, a, n):
    if n == 0: return a
    if isinstance(a, int): return a << n
    if isinstance(a, LI): return self.li_scale(a, 1 << n)
    return self.norm_int((FALSE,) * n + self.bits(a))

  def shr(self, a, n):
    if isinstance(a, int): return a >> n
    if isinstance(a, LI):
      k = 1 << n
      if all(c % k == 0 for c, i in a.terms) and a.const % k == 0:
        return self.li_norm(LI(tuple((c // k, i) for c, i in a.terms), a.const // k))
    b = self.bits(a)
    if n >= len(b): return self.norm_int((b[-1],))
    return self.norm_int(b[n:])

  def bitop(self, op, a, b):
    if isinstance(a, int) and isinstance(b, int):
      return {'&': a & b, '|': a | b, '^': a ^ b}[op]
    B = self.B
    x, y = self.bits(a), self.bits(b)
    n = max(len(x), len(y))
    x, y = self.ext(x, n), self.ext(y, n)
    f = {'&': B.AND, '|': B.OR, '^': B.XOR}[op]
    return self.norm_int(tuple(f(p, q) for p, q in zip(x, y)))

  def lt(self, a, b):
    """node of a < b"""
    if isinstance(a, int) and isinstance(b, int): return TRUE if a < b else FALSE
    if self.heavy(a, b):
      d = self.li_add(a, b, -1)
      if isinstance(d, LI):
        lo, hi = self.li_range(d)
        if lo >= 0: return FALSE
        if hi < 0: return TRUE
        d = self.li_value(d)
      return self.lt_bits(d, 0)
    return self.lt_bits(a, b)

  def bounded(self, fn, key):
    """evaluate a comparison; one whose Boolean function explodes becomes an over-approximated unknown"""
    B = self.B
    saved = B.limit
    B.limit = min(saved, len(B.var) + 300000)
    try: return fn()
    except TooBig:
      B.limit = saved
      if len(B.var) + 100000 > saved: raise
      return self.soft_bool('comparison', key).node
    finally:
      B.limit = saved

  def lt_bits(self, a, b):
    if isinstance(b, int) and not isinstance(b, bool) and b == 0: return self.bits(a)[-1]
    if isinstance(a, int) and a == -1: return self.B.NOT(self.bits(b)[-1])
    return self.bounded(lambda: self.lt_bits1(a, b), ('lt', self.bits(a), self.bits(b)))

  def eq_bits(self, a, b):
    return self.bounded(lambda: self.eq_bits1(a, b), ('eq', self.bits(a), self.bits(b)))

  def lt_bits1(self, a, b):
    B = self.B
    x, y = self.bits(a), self.bits(b)
    n = max(len(x), len(y))
    x, y = self.ext(x, n), self.ext(y, n)
    r = FALSE
    for i in range(n):
      p, q = x[i], y[i]
      if p == q: continue
      if i == n - 1: p, q = q, p
      d = B.XOR(p, q)
      if B.AND(self.live, d) == 0: continue      # the same bit in every state considered
      r = B.ITE(d, q, r)
    return r

  def eq_int(self, a, b):
    if isinstance(a, int) and isinstance(b, int): return TRUE if a == b else FALSE
    if self.same_int(a, b): return TRUE
    if self.heavy(a, b):
      d = self.li_add(a, b, -1)
      if isinstance(d, int): return TRUE if d == 0 else FALSE
      if isinstance(d, LI):
        lo, hi = self.li_range(d)
        if lo > 0 or hi < 0: return FALSE
        d = self.li_value(d)
      return self.eq_bits(d, 0)
    return self.eq_bits(a, b)

  def eq_bits1(self, a, b):
    B = self.B
    x, y = self.bits(a), self.bits(b)
    n = max(len(x), len(y))
    x, y = self.ext(x, n), self.ext(y, n)
    r = TRUE
    for p, q in reversed(list(zip(x, y))):
      if p == q: continue
      d = B.XOR(p, q)
      if B.AND(self.live, d) == 0: continue      # the same bit in every state considered
      r = B.AND(r, B.NOT(d))
      if r == FALSE: return r
    return r

  def ne_witness(self, a, b):
    """a guard where a and b differ, FALSE only if they are equal everywhere considered (not the whole difference)"""
    if isinstance(a, int) and isinstance(b, int): return TRUE if a != b else FALSE
    if self.same_int(a, b): return FALSE
    if self.heavy(a, b): return self.NOT(self.eq_int(a, b))
    B = self.B
    x, y = self.bits(a), self.bits(b)
    n = max(len(x), len(y))
    x, y = self.ext(x, n), self.ext(y, n)
    for p, q in zip(x, y):
      if p == q: continue
      d = B.AND(self.live, B.XOR(p, q))
      if d != 0 and B.definite(d) != 0: return d
    return self.NOT(self.eq_bits(a, b))

  def divmod_const(self, a, k):
    """floor division of a by k > 0"""
    if isinstance(a, int): return a // k, a % k
    if k & (k - 1) == 0:
      n = k.bit_length() - 1
      q = self.shr(a, n)
      if isinstance(a, LI) and isinstance(q, (LI, int)) and self.same_int(self.li_of(self.shl(q, n)), a): return q, 0
      b = self.bits(a)
      r = self.norm_int(self.ext(b, n + 1)[:n] + (FALSE,))
      return q, r
    b = self.bits(a)
    if self.may(b[-1]): raise Unsupported("division of a possibly negative unknown")
    if len(b) > 40: raise Unsupported("wide division")
    rem = 0
    q = []
    for i in reversed(range(len(b) - 1)):
      rem = self.add(self.shl(rem, 1), self.norm_int((b[i], FALSE)))
      ge = self.NOT(self.lt(rem, k))
      q.append(ge)
      rem = self.ite_val(ge, self.sub(rem, k), rem)
      if isinstance(rem, SI):
        rem = self.norm_int(self.ext(rem.bits, k.bit_length() + 2)[:k.bit_length()] + (FALSE,))
    return self.norm_int(tuple(reversed(q)) + (FALSE,)), rem

  def cases(self, v, limit=300):
    """enumerate the values an integer can take here: [(guard, int)]"""
    if isinstance(v, (bool, int)): return [(TRUE, v)]
    if isinstance(v, SB):
      return [(g, b) for g, b in ((v.node, True), (self.NOT(v.node), False)) if self.may(g)]
    b = self.bits(v)
    out = []
    B = self.B
    def rec(i, g, val):
      if len(out) > limit: raise Unsupported("too many values")
      if i < 0:
        out.append((g, val)); return
      w = 1 << i if i < len(b) - 1 else -(1 << i)
      g1 = B.AND(g, b[i])
      if g1 != 0: rec(i - 1, g1, val + w)
      g0 = B.AND(g, B.NOT(b[i]))
      if g0 != 0: rec(i - 1, g0, val)
    rec(len(b) - 1, self.live, 0)
    return out

  def int_range(self, v):
    """smallest and greatest value here"""
    if isinstance(v, int): return int(v), int(v)
    b = self.bits(v)
    B = self.B
    def ext(maxi):
      g = self.live; val = 0
      for i in reversed(range(len(b))):
        w = 1 << i if i < len(b) - 1 else -(1 << i)
        prefer = b[i] if (w > 0) == maxi else B.NOT(b[i])
        t = B.AND(g, prefer)
        if t != 0:
          g = t
          if (w > 0) == maxi: val += w
        else:
          if (w > 0) != maxi: val += w
      return val
    return ext(False), ext(True)

  # ------------------------------------------------------------------ joins
  def alts(self, v):
    return v.alts if isinstance(v, Union) else ((TRUE, v),)

  def live_alts(self, v):
    if not isinstance(v, Union): return [(TRUE, v)]
    return [(g, x) for g, x in v.alts if self.B.AND(self.live, g) != 0]

  def seq_entries(self, v):
    if isinstance(v, str): return ((TRUE, tuple(ord(c) for c in v)),)
    return v.alts

  def compat(self, a, b):
    if a is b: return True
    if self.is_num(a) and self.is_num(b):
      if isinstance(a, SApart) != isinstance(b, SApart): return False
      if isinstance(a, LI) or isinstance(b, LI): return self.same_int(a, b)
      return True
    if isinstance(a, (bool, SB)) and isinstance(b, (bool, SB)): return True
    if isinstance(a, tuple) and isinstance(b, tuple): return len(a) == len(b)
    if isinstance(a, SStr) and isinstance(b, (SStr, str)) or isinstance(b, SStr) and isinstance(a, str): return True
    if isinstance(a, (str, float)) and type(a) == type(b): return a == b
    if isinstance(a, Bound) and isinstance(b, Bound): return a.func is b.func and a.self is b.self
    if isinstance(a, SText) and isinstance(b, SText): return a.parts == b.parts
    return False

  def ite_val(self, g, a, b):
    if g == 1: return a
    if g == 0: return b
    if a is b: return a
    B = self.B
    if not isinstance(a, Union) and not isinstance(b, Union) and self.compat(a, b):
      return self.ite_compat(g, a, b)
    out = []
    for h, x in self.alts(a):
      h = B.AND(g, h)
      if h != 0: out.append((h, x))
    ng = B.NOT(g)
    for h, x in self.alts(b):
      h = B.AND(ng, h)
      if h != 0: self.coalesce(out, h, x)
    if len(out) == 1: return out[0][1]
    return Union(tuple(out))

  def coalesce(self, out, h, x):
    for i, (k, y) in enumerate(out):
      if self.compat(y, x):
        out[i] = (self.B.OR(h, k), self.ite_compat(h, x, y))
        return
    out.append((h, x))

  def ite_compat(self, g, a, b):
    B = self.B
    if a is b: return a
    if isinstance(a, (bool, SB)):
      return self.mkbool(B.ITE(g, self.bits(a)[0], self.bits(b)[0]))
    if self.is_num(a):
      if self.same_int(a, b): return a
      x, y = self.bits(a), self.bits(b)
      n = max(len(x), len(y))
      x, y = self.ext(x, n), self.ext(y, n)
      return self.norm_int(tuple(B.ITE(g, p, q) for p, q in zip(x, y)))
    if isinstance(a, tuple):
      return tuple(self.ite_val(g, p, q) for p, q in zip(a, b))
    if isinstance(a, SStr) or isinstance(b, SStr):
      return self.mkstr(self.merge_seq_alts(g, self.seq_entries(a), self.seq_entries(b)))
    return a

  def merge_all(self, alts):
    """join of (guard, value) pairs; the guards are disjoint and cover the live region"""
    if not alts: return UNDEF
    if len(alts) == 1: return alts[0][1]
    out = []
    for g, v in alts:
      for h, x in self.alts(v):
        gh = self.B.AND(g, h)
        if gh != 0: self.coalesce(out, gh, x)
    if not out: return alts[-1][1]
    if len(out) == 1: return out[0][1]
    return Union(tuple(out))

  def mkbool(self, node):
    if node == 1: return True
    if node == 0: return False
    return SB(node)

  # sequences
  def shape(self, entries):
    out = []
    for e in entries:
      if isinstance(e, Blob): out.append(('B', id(e.base), self.ikey(e.start), self.ikey(e.length), getattr(e, 'ch', 0)))
      elif isinstance(e, Opaques): out.append(('O', e.tag))
      else: out.append(0)
    return tuple(out)

  def ikey(self, v):
    if isinstance(v, SI): return v.bits
    if isinstance(v, LI): return (v.terms, v.const)
    return v

  def merge_seq_alts(self, g, a, b):
    """join of two sequences: a where g holds, b elsewhere"""
    B = self.B
    ng = B.NOT(g)
    lst = [(B.AND(g, h), e) for h, e in a] + [(B.AND(ng, h), e) for h, e in b]
    return self.norm_seq(lst)

  def norm_seq(self, lst):
    B = self.B
    out = []
    index = {}
    for h, e in lst:
      if h == 0: continue
      s = self.shape(e)
      if s in index:
        i = index[s]
        k, f = out[i]
        if f is not e:
          e2 = tuple(x if x is y else (y if s[j] != 0 else self.ite_val(h, x, y)) for j, (x, y) in enumerate(zip(e, f)))
          f = e2
        out[i] = (B.OR(k, h), f)
      else:
        index[s] = len(out)
        out.append((h, e))
    return tuple(out)

  def mkstr(self, alts):
    if len(alts) == 1:
      e = alts[0][1]
      if all(isinstance(x, int) for x in e): return ''.join(chr(x) for x in e)
      return SStr(((TRUE, e),))
    return SStr(tuple(alts))

  def entries_len(self, e):
    n = 0
    tot = 0
    for x in e:
      if isinstance(x, Blob): tot = self.add(tot, x.length)
      elif isinstance(x, Opaques): raise Unsupported("length of an unknown run")
      else: n += 1
    return self.add(tot, n)

  def blob_byte(self, blob, off=0):
    """abstract byte at a constant offset of a blob"""
    st = self.add(blob.start, off)
    k = self.ikey(st)
    v = blob.base.bytes.get(k)
    if v is None:
      v = self.new_int("%s[%s]" % (blob.base.name, k if isinstance(k, int) else '?'), 8)
      blob.base.bytes[k] = v
    return v

  def elem_of(self, blob, off):
    v = self.blob_byte(blob, off)
    return self.char_of(v) if getattr(blob, 'ch', False) else v

  def sub_blob(self, blob, start, length):
    if isinstance(blob, Blob2): return Blob2(blob.base, self.add(blob.start, start), length, blob.ch)
    return Blob(blob.base, self.add(blob.start, start), length)

  def join_runs(self, e, f):
    """e + f; a run that continues another becomes one run"""
    if e and f and isinstance(e[-1], Blob) and isinstance(f[0], Blob) and e[-1].base is f[0].base:
      x, y = e[-1], f[0]
      if type(x) is type(y) and getattr(x, 'ch', None) == getattr(y, 'ch', None) and self.same_int(self.add(x.start, x.length), y.start):
        n = self.add(x.length, y.length)
        z = Blob2(x.base, x.start, n, x.ch) if isinstance(x, Blob2) else Blob(x.base, x.start, n)
        return tuple(e[:-1]) + (z,) + tuple(f[1:])
    return tuple(e) + tuple(f)

  def surely_empty(self, x):
    n = x.length
    if isinstance(n, int): return n == 0
    if not isinstance(n, SI): return False
    return all(self.B.AND(self.live, b) == 0 for b in n.bits if b)

  def drop(self, entries, n):
    """remove n elements from the front: [(guard, rest, short)] ; short: fewer than n were there"""
    work = [(TRUE, tuple(entries), n)]
    out = []
    B = self.B
    while work:
      g, e, n = work.pop()
      if isinstance(n, int):
        if n <= 0: out.append((g, e, False)); continue
      if not e:
        z = self.lt(0, n)
        for h, short in ((B.AND(g, z), True), (B.AND(g, B.NOT(z)), False)):
          if self.may(h): out.append((h, (), short))
        continue
      x = e[0]
      if isinstance(x, Blob):
        if self.same_int(x.length, n):
          out.append((g, e[1:], False)); continue
        if self.surely_empty(x): work.append((g, e[1:], n)); continue
        c = self.lt(n, x.length)
        h = B.AND(g, c)
        if self.may(h):
          out.append((h, (self.sub_blob(x, n, self.sub(x.length, n)),) + e[1:], False))
        h = B.AND(g, B.NOT(c))
        if self.may(h):
          eqn = self.eq_int(n, x.length)
          if B.AND(self.live, B.AND(h, B.NOT(eqn))) == 0: out.append((h, e[1:], False))
          else: work.append((h, e[1:], self.sub(n, x.length)))
      elif isinstance(x, Opaques):
        raise Unsupported("slicing an unknown run")
      else:
        if isinstance(n, int):
          work.append((g, e[1:], n - 1))
        else:
          pos = self.lt(0, n)
          h = B.AND(g, B.NOT(pos))
          if self.may(h): out.append((h, e, False))
          h = B.AND(g, pos)
          if self.may(h): work.append((h, e[1:], self.sub(n, 1)))
      if len(out) + len(work) > 400: raise Unsupported("slicing too fragmented")
    return out

  def take(self, entries, n):
    """first n elements: [(guard, taken, rest, short)]"""
    work = [(TRUE, (), tuple(entries), n)]
    out = []
    B = self.B
    while work:
      g, t, e, n = work.pop()
      if isinstance(n, int) and n <= 0:
        out.append((g, t, e, False)); continue
      if not e:
        z = self.lt(0, n)
        for h, short in ((B.AND(g, z), True), (B.AND(g, B.NOT(z)), False)):
          if self.may(h): out.append((h, t, (), short))
        continue
      x = e[0]
      if isinstance(x, Blob):
        if isinstance(n, int) and n <= 64 and isinstance(x.length, int) and x.length <= n:
          work.append((g, t + tuple(self.elem_of(x, i) for i in range(x.length)), e[1:], n - x.length)); continue
        if self.same_int(x.length, n):
          out.append((g, t + (x,), e[1:], False)); continue
        if self.surely_empty(x): work.append((g, t, e[1:], n)); continue
        eqn = self.eq_int(n, x.length)
        c = self.lt(n, x.length)
        small = isinstance(n, int) and n <= 64
        h = B.AND(g, c)
        if not small and self.may(h): h = B.OR(h, B.AND(g, eqn))     # one description for both: what is left may be empty
        else:
          k = B.AND(g, eqn)
          if self.may(k):
            front = tuple(self.elem_of(x, i) for i in range(n)) if small else (x,)
            out.append((k, t + front, e[1:], False))
        if self.may(h):
          if isinstance(n, int) and n <= 64:
            front = tuple(self.elem_of(x, i) for i in range(n))
          else:
            front = (self.sub_blob(x, 0, n),)
          out.append((h, t + front, (self.sub_blob(x, n, self.sub(x.length, n)),) + e[1:], False))
        h = B.AND(B.AND(g, B.NOT(c)), B.NOT(eqn))
        if self.may(h): work.append((h, t + (x,), e[1:], self.sub(n, x.length)))
      elif isinstance(x, Opaques):
        raise Unsupported("slicing an unknown run")
      else:
        if isinstance(n, int):
          work.append((g, t + (x,), e[1:], n - 1))
        else:
          pos = self.lt(0, n)
          h = B.AND(g, B.NOT(pos))
          if self.may(h): out.append((h, t, e, False))
          h = B.AND(g, pos)
          if self.may(h): work.append((h, t + (x,), e[1:], self.sub(n, 1)))
      if len(out) + len(work) > 400: raise Unsupported("slicing too fragmented")
    return out

  # ------------------------------------------------------------------ control helpers
  def under(self, g, fn, *args):
    """run fn in the part of the state where g holds; returns (live guard after, result or None)"""
    saved = self.live
    l = self.B.AND(saved, g)
    if l == 0: return FALSE, None
    self.live = l
    try:
      r = fn(*args)
      out = self.live
    except Dead:
      r, out = None, FALSE
    self.live = saved
    return out, r

  def split(self, v, fn):
    """apply fn to every alternative of v and join the results"""
    if not isinstance(v, Union): return fn(v)
    entry = self.live
    B = self.B
    res = []
    out = FALSE
    todo = [(g, x) for g, x in v.alts if B.AND(entry, g) != 0]
    if len(todo) == 1: return fn(todo[0][1])
    if not todo: raise Dead()
    for g, x in todo:
      self.live = B.AND(entry, g)
      try:
        r = fn(x)
      except Dead:
        continue
      res.append((g, r))
      out = B.OR(out, self.live)
    self.live = out
    if out == 0: raise Dead()
    return self.merge_all(res)

  def fork(self, alts, fn):
    """alts: [(guard, payload)] disjoint; run fn(payload) in each and join"""
    entry = self.live
    B = self.B
    res = []
    out = FALSE
    todo = [(g, x) for g, x in alts if B.AND(entry, g) != 0]
    if len(todo) == 1 and B.AND(entry, B.NOT(todo[0][0])) == 0: return fn(todo[0][1])
    for g, x in todo:
      self.live = B.AND(entry, g)
      try:
        r = fn(x)
      except Dead:
        continue
      res.append((g, r))
      out = B.OR(out, self.live)
    self.live = out
    if out == 0: raise Dead()
    return self.merge_all(res)

  def splits(self, vs, fn):
    """apply fn to every combination of alternatives"""
    vs = list(vs)
    for i, v in enumerate(vs):
      if isinstance(v, Union):
        return self.split(v, lambda x: self.splits(vs[:i] + [x] + vs[i + 1:], fn))
    return fn(*vs)

  def throw(self, guard, exc):
    """raise exc in the part of the state where guard holds"""
    B = self.B
    g = B.AND(self.live, guard)
    if g == 0: return
    if not self.sinks: raise Unsupported("exception outside an analysis entry: %s" % self.exc_name(exc))
    self.sinks[-1].append(Thrown(g, exc, self.loc()))
    for f in reversed(self.frames):
      if f.trydepth: break
      f.gone = B.OR(f.gone, g)
    self.live = B.AND(self.live, B.NOT(guard))
    if self.live == 0: raise Dead()

  def exc_name(self, exc):
    return exc.cls.name if isinstance(exc, Obj) else repr(exc)

  def make_exc(self, name, *args):
    cls = self.models.exc_class(self, name)
    o = self.new_obj(cls)
    o.attrs['args'] = tuple(args)
    o.attrs['message'] = args[0] if len(args) == 1 else ''
    o.native = {'loc': self.loc()}
    return o

  def raise_(self, name, *args, guard=TRUE):
    if self.B.AND(self.live, guard) == 0: return
    self.throw(guard, self.make_exc(name, *args))

  def new_obj(self, cls):
    return Obj(cls, self.live, self.epoch, self.loc())

  def new_list(self, entries=(), kind='list'):
    return ListV(kind, ((TRUE, tuple(entries)),), self.live, self.epoch, self.loc())

  def new_seq(self, alts, kind='list'):
    return ListV(kind, tuple(alts), self.live, self.epoch, self.loc())

  def new_dict(self):
    return DictV(self.live, self.epoch, self.loc())

  def event(self, kind, **data):
    h = self.hooks.get('event')
    if h is not None: h(kind, data)
    self.events.append((self.live, kind, data, self.loc()))

  def note_mutation(self, o, what):
    if self.writelog is not None: self.writelog.append((o, what))
    if o.epoch < self.epoch:
      self.mutations.append((self.live, o, what, self.loc(), list(self.stack())))

  # ------------------------------------------------------------------ variables
  def set_var(self, name, v, frame=None):
    f = frame or self.frames[-1]
    if self.blob_ctx and f is self.blob_ctx[-1][1] and not isinstance(v, BlobElem) and name not in self.blob_ctx[-1][2]:
      # effects per element of an unknown run
      if isinstance(v, (SText, Opaque, str)): pass
      else: raise Unsupported("loop over unknown data assigns %s" % name)
    if name in f.globalnames:
      ns = f.module.ns
      if self.epoch > 0: self.mutations.append((self.live, self.modules.get(f.module.name, f.module), name, self.loc(), list(self.stack())))
    else:
      ns = f.vars
    old = ns.get(name, UNDEF)
    reach = self.B.AND(f.entry, self.B.NOT(f.gone)) if f.gone else f.entry
    if self.B.AND(reach, self.B.NOT(self.live)) == 0:
      ns[name] = v
    else:
      ns[name] = self.ite_val(self.B.CONSTRAIN(self.live, reach), v, old)
    if self.writelog is not None: self.writelog.append((f, name))

  def get_name(self, name):
    f = self.frames[-1]
    ns = None
    if name in f.vars and name not in f.globalnames: ns = f.vars
    elif f.localnames is not None and name in f.localnames and name not in f.globalnames:
      self.raise_('UnboundLocalError', "local variable '%s' referenced before assignment" % name)
      raise Dead()
    else:
      for c in reversed(f.closure):
        if name in c.vars: ns = c.vars; break
        if c.localnames is not None and name in c.localnames:
          self.raise_('NameError', "free variable '%s' referenced before assignment" % name)
          raise Dead()
      if ns is None:
        if name in f.module.ns: ns = f.module.ns
        else:
          b = self.models.BUILTINS.get(name)
          if b is not None: return b
          self.raise_('NameError', "name '%s' is not defined" % name)
          raise Dead()
    v = ns[name]
    if v is UNDEF or isinstance(v, Union):
      v = self.defined(v, 'UnboundLocalError', "local variable '%s' referenced before assignment" % name)
    return v

  def defined(self, v, exc, msg):
    """drop the undefined alternative, raising where it is live"""
    if v is UNDEF:
      self.raise_(exc, msg)
      raise Dead()
    if not isinstance(v, Union): return v
    B = self.B
    alts = []
    und = FALSE
    for g, x in v.alts:
      if B.AND(self.live, g) == 0: continue
      if x is UNDEF: und = B.OR(und, g)
      else: alts.append((g, x))
    if und: self.raise_(exc, msg, guard=und)
    if not alts: raise Dead()
    if len(alts) == 1: return alts[0][1]
    if len(alts) == len(v.alts): return v
    return Union(tuple(alts))

  # ------------------------------------------------------------------ modules
  def load(self, name):
    """import a repository module (or a model of an external one)"""
    if name in self.modules: return self.modules[name]
    path, is_pkg = frontend.module_path(name)
    if path is None:
      m = self.models.external_module(self, name)
      self.modules[name] = m
      return m
    m = ModuleV(name, path)
    m.ns['__name__'] = name
    m.ns['__file__'] = path
    m.is_pkg = is_pkg
    self.modules[name] = m
    if os.path.isdir(path): return m
    m.tree, m.src = frontend.parse_file(path)
    self.exec_module(m)
    return m

  def exec_module(self, m):
    saved = self.live, self.frames, self.sinks, self.epoch, self.blob_ctx, self.writelog
    self.live, self.frames, self.sinks, self.blob_ctx, self.writelog = TRUE, [], [[]], [], None
    self.epoch = 0
    f = Frame('<module>', m, TRUE)
    f.vars = m.ns
    self.frames.append(f)
    try:
      self.block(m.tree.body)
      bad = self.sinks[0]
    except Dead:
      bad = self.sinks[0]
    finally:
      self.live, self.frames, self.sinks, self.epoch, self.blob_ctx, self.writelog = saved
    if bad:
      raise ImportProblem(m, bad[0], self)

  def import_name(self, name, fromlist=None):
    cur = self.frames[-1].module
    # Python 2 implicit relative import
    if cur.path and cur.name:
      pkg = cur.name if getattr(cur, 'is_pkg', False) else cur.name.rpartition('.')[0]
      if pkg:
        cand = pkg + '.' + name
        if frontend.module_path(cand)[0] is not None and cand != cur.name:
          name = cand
    parts = name.split('.')
    for i in range(1, len(parts) + 1):
      sub = '.'.join(parts[:i])
      mod = self.load(sub)
      if i > 1:
        parent = self.modules['.'.join(parts[:i - 1])]
        parent.ns.setdefault(parts[i - 1], mod)
    return name

  # ------------------------------------------------------------------ statements
  def block(self, stmts):
    for s in stmts:
      self.stmt(s)

  def tick(self):
    self.steps += 1
    if self.steps & 1023 == 0 and self.deadline is not None and time.time() > self.deadline:
      raise Unsupported("analysis budget exhausted")

  def stmt(self, s):
    self.tick()
    f = self.frames[-1]
    f.line = s.lineno
    m = getattr(self, 's_' + s.__class__.__name__, None)
    if m is None: raise Unsupported("statement %s" % s.__class__.__name__)
    m(s)

  def s_Expr(self, s):
    if isinstance(s.value, ast.Constant): return
    self.ev(s.value)

  def s_Pass(self, s): pass

  def s_Global(self, s):
    self.frames[-1].globalnames.update(s.names)

  def s_Assign(self, s):
    v = self.ev(s.value)
    for t in s.targets: self.assign(t, v)

  def s_AnnAssign(self, s):
    if s.value is not None: self.assign(s.target, self.ev(s.value))

  def s_AugAssign(self, s):
    t = s.target
    op = s.op
    if isinstance(t, ast.Name):
      cur = self.get_name(t.id)
      v = self.augop(op, cur, self.ev(s.value))
      self.set_var(t.id, v)
    elif isinstance(t, ast.Attribute):
      o = self.ev(t.value)
      cur = self.get_attr(o, t.attr)
      v = self.augop(op, cur, self.ev(s.value))
      self.set_attr(o, t.attr, v)
    elif isinstance(t, ast.Subscript):
      o = self.ev(t.value)
      k = self.ev_slice(t.slice)
      cur = self.get_item(o, k)
      v = self.augop(op, cur, self.ev(s.value))
      self.set_item(o, k, v)
    else: raise Unsupported("augmented assignment")

  def augop(self, op, cur, v):
    def one(c):
      if isinstance(c, ListV) and isinstance(op, ast.Add):
        self.models.list_extend(self, c, v)
        return c
      if isinstance(c, ListV) and isinstance(op, ast.Mult):
        raise Unsupported("in-place list repeat")
      return self.binop(op, c, v)
    return self.split(cur, one)

  def assign(self, t, v):
    if isinstance(t, ast.Name): self.set_var(t.id, v)
    elif isinstance(t, ast.Attribute): self.set_attr(self.ev(t.value), t.attr, v)
    elif isinstance(t, ast.Subscript): self.set_item(self.ev(t.value), self.ev_slice(t.slice), v)
    elif isinstance(t, (ast.Tuple, ast.List)):
      n = len(t.elts)
      if any(isinstance(e, ast.Starred) for e in t.elts): raise Unsupported("starred target")
      vals = self.unpack(v, n)
      for e, x in zip(t.elts, vals): self.assign(e, x)
    else: raise Unsupported("assignment target")

  def unpack(self, v, n):
    def one(x):
      if isinstance(x, Opaque): return tuple(Opaque(x.tag + '[]') for _ in range(n))
      def got(e):
        e = self.expand_blobs(e, n)
        if len(e) != n:
          self.raise_('ValueError', 'unpack: expected %d values, got %d' % (n, len(e)))
        return tuple(e)
      return self.fork(self.elements(x), got)
    r = self.split(v, one)
    if not isinstance(r, tuple): raise Unsupported("unpack")
    return r

  def expand_blobs(self, e, n):
    return e

  def s_Delete(self, s):
    for t in s.targets:
      if isinstance(t, ast.Name): self.set_var(t.id, UNDEF)
      elif isinstance(t, ast.Attribute): self.set_attr(self.ev(t.value), t.attr, UNDEF)
      elif isinstance(t, ast.Subscript):
        self.models.del_item(self, self.ev(t.value), self.ev_slice(t.slice))
      else: raise Unsupported("del")

  def s_Return(self, s):
    v = self.ev(s.value) if s.value is not None else None
    f = self.frames[-1]
    if self.blob_ctx and self.blob_ctx[-1][1] is f: raise Unsupported("return inside a loop over unknown data")
    f.ret.append((self.live, v))
    f.gone = self.B.OR(f.gone, self.live) if not f.trydepth else f.gone
    raise Dead()

  def s_If(self, s):
    c = self.truth(self.ev(s.test))
    self.branch(c, lambda: self.block(s.body), lambda: self.block(s.orelse))

  def branch(self, c, then, other):
    B = self.B
    entry = self.live
    a = B.AND(entry, c)
    b = B.AND(entry, B.NOT(c))
    out = FALSE
    if a:
      self.live = a
      try:
        then(); out = self.live
      except Dead: pass
    if b:
      self.live = b
      try:
        other(); out = B.OR(out, self.live)
      except Dead: pass
    self.live = out
    if out == 0: raise Dead()

  def s_Raise(self, s):
    if s.exc is None:
      cur = getattr(self.frames[-1], 'handling', None)
      for fr in reversed(self.frames):
        if getattr(fr, 'handling', None): cur = fr.handling; break
      if not cur: raise Unsupported("bare raise")
      for g, e in cur:
        self.throw(g, e)
      raise Dead()
    v = self.ev(s.exc)
    def one(x):
      if isinstance(x, ClassV):
        x = self.call(x, [], {})
      if isinstance(x, Obj):
        if x.native is None: x.native = {}
        if isinstance(x.native, dict): x.native.setdefault('loc', self.loc())
        self.throw(TRUE, x)
      elif isinstance(x, Opaque):
        self.raise_('Exception', x)
      else:
        self.raise_('TypeError', 'exceptions must be classes or instances')
      raise Dead()
    self.split(v, one)

  def s_Assert(self, s):
    c = self.truth(self.ev(s.test))
    nc = self.NOT(c)
    if self.may(nc):
      msg = []
      def fail():
        m = [self.ev(s.msg)] if s.msg is not None else []
        self.throw(TRUE, self.make_exc('AssertionError', *m))
      self.branch(nc, fail, lambda: None)

  def s_Import(self, s):
    for al in s.names:
      name = self.import_name(al.name)
      if al.asname: self.set_var(al.asname, self.modules[name])
      else:
        top = name if '.' not in al.name else al.name.split('.')[0]
        self.set_var(al.name.split('.')[0], self.modules[top])

  def s_ImportFrom(self, s):
    if s.module == '__future__': return
    if s.level:
      cur = self.frames[-1].module
      pkg = cur.name if getattr(cur, 'is_pkg', False) else cur.name.rpartition('.')[0]
      for _ in range(s.level - 1): pkg = pkg.rpartition('.')[0]
      full = pkg + ('.' + s.module if s.module else '')
      for i in range(1, len(full.split('.')) + 1): self.load('.'.join(full.split('.')[:i]))
      name = full
    else:
      name = self.import_name(s.module)
    m = self.modules[name]
    for al in s.names:
      if al.name == '*':
        for k, v in list(m.ns.items()):
          if not k.startswith('_'): self.set_var(k, v)
        continue
      v = self.module_attr(m, al.name)
      if v is UNDEF:
        sub = name + '.' + al.name
        if frontend.module_path(sub)[0] is not None:
          v = self.load(sub)
          m.ns[al.name] = v
        else:
          self.raise_('ImportError', 'cannot import name %s from %s' % (al.name, name))
          raise Dead()
      self.set_var(al.asname or al.name, v)

  def module_attr(self, m, name):
    if name in m.ns: return m.ns[name]
    if m.external:
      v = self.models.external_attr(self, m, name)
      m.ns[name] = v
      return v
    return UNDEF

  def decorate(self, s, v):
    for d in reversed(s.decorator_list):
      if isinstance(d, ast.Name) and d.id in ('staticmethod', 'classmethod', 'property') and d.id not in self.frames[-1].vars:
        v = {'staticmethod': StaticM, 'classmethod': ClassM, 'property': PropertyV}[d.id](v)
      elif isinstance(d, ast.Attribute) and d.attr == 'setter':
        p = self.ev(d.value)
        v = PropertyV(p.fget, v)
      else:
        v = self.call(self.ev(d), [v], {})
    return v

  def s_FunctionDef(self, s):
    f = self.frames[-1]
    fn = self.make_func(s, s.name)
    self.set_var(s.name, self.decorate(s, fn))

  def make_func(self, node, name):
    f = self.frames[-1]
    a = node.args
    defaults = [self.ev(d) for d in a.defaults]
    kwd = [self.ev(d) if d is not None else UNDEF for d in a.kw_defaults]
    closure = list(f.closure)
    if f.localnames is not None: closure = closure + [f]
    fn = FuncV(node, f.module, name, closure, defaults, kwd, None)
    if getattr(f, 'is_class', False): fn.cls_pending = True
    fn.is_gen = fn_locals(node)[2]
    return fn

  def s_ClassDef(self, s):
    f = self.frames[-1]
    bases = [self.ev(b) for b in s.bases]
    for i, b in enumerate(bases):
      if not isinstance(b, ClassV):
        bases[i] = self.models.opaque_class(self, b)
    cf = Frame(s.name, f.module, self.live, closure=f.closure + ([f] if f.localnames is not None else []))
    cf.is_class = True
    cf.line = s.lineno
    self.frames.append(cf)
    try:
      self.block(s.body)
    finally:
      self.frames.pop()
    oldstyle = not bases or all(b.oldstyle for b in bases)
    c = ClassV(s.name, bases, cf.vars, f.module, s, oldstyle=oldstyle)
    c.epoch = self.epoch
    for k, v in list(c.ns.items()):
      fv = v
      if isinstance(v, (StaticM, ClassM)): fv = v.func
      if isinstance(v, PropertyV):
        for x in (v.fget, v.fset):
          if isinstance(x, FuncV) and x.cls is None: x.cls = c
        continue
      if isinstance(fv, FuncV) and fv.cls is None: fv.cls = c
    if c.is_enum: self.models.build_enum(self, c)
    v = c
    for d in reversed(s.decorator_list): v = self.call(self.ev(d), [v], {})
    self.set_var(s.name, v)

  # loops
  def s_While(self, s):
    f = self.frames[-1]
    lc = LoopCtx()
    f.loops.append(lc)
    B = self.B
    exits = FALSE
    symbolic = 0
    it = 0
    handler = self.hooks.get('while')
    try:
      if handler is not None:
        r = handler(self, s, f, lc)
        if r is not None:
          exits = r
          self.live = B.OR(exits, lc.brk)
          if self.live == 0: raise Dead()
          return
      while True:
        it += 1
        try:
          c = self.truth(self.ev(s.test))
        except Dead:
          self.live = FALSE
          break
        exits = B.OR(exits, B.AND(self.live, B.NOT(c)))
        self.live = B.AND(self.live, c)
        if self.live == 0: break
        if c > 1: symbolic += 1
        if it > MAXLOOP or symbolic > SYMLOOP: raise Unsupported("loop bound")
        try:
          self.block(s.body)
        except Dead:
          self.live = FALSE
        self.live = B.OR(self.live, lc.cont)
        lc.cont = FALSE
        if self.live == 0: break
      if exits and s.orelse:
        self.live = exits
        try:
          self.block(s.orelse); exits = self.live
        except Dead: exits = FALSE
      self.live = B.OR(exits, lc.brk)
    finally:
      f.loops.pop()
    if self.live == 0: raise Dead()

  def s_Break(self, s):
    if self.blob_ctx and self.blob_ctx[-1][1] is self.frames[-1] and len(self.frames[-1].loops) <= self.blob_ctx[-1][3]: raise Unsupported("break in a loop over unknown data")
    lc = self.frames[-1].loops[-1]
    lc.brk = self.B.OR(lc.brk, self.live)
    raise Dead()

  def s_Continue(self, s):
    lc = self.frames[-1].loops[-1]
    lc.cont = self.B.OR(lc.cont, self.live)
    raise Dead()

  def s_For(self, s):
    it = self.ev(s.iter)
    alts = []
    def collect(v): return self.elements(v)
    entry = self.live
    B = self.B
    # partition by shape of the iterable
    parts = []
    def one(v):
      for g, e in self.elements(v):
        parts.append((B.AND(self.live, g), e))
      return None
    self.split(it, one)
    live_ok = self.live
    f = self.frames[-1]
    total = FALSE
    simple = len(s.body) == 1 and isinstance(s.body[0], ast.Expr) and isinstance(s.body[0].value, ast.Yield) and \
      isinstance(s.body[0].value.value, ast.Name) and isinstance(s.target, ast.Name) and s.body[0].value.value.id == s.target.id and not s.orelse
    for g, e in parts:
      self.live = B.AND(live_ok, g)
      if self.live == 0: continue
      try:
        if simple and f.gen is not None:
          self.gen_emit(f, e)
          if e and not isinstance(e[-1], (Blob, Opaques)): self.set_var(s.target.id, e[-1])
        else:
          self.for_body(s, e)
        total = B.OR(total, self.live)
      except Dead:
        pass
    self.live = total
    if total == 0: raise Dead()

  def for_body(self, s, entries):
    f = self.frames[-1]
    B = self.B
    lc = LoopCtx()
    f.loops.append(lc)
    try:
      for x in entries:
        if isinstance(x, Opaques): raise Unsupported("loop over an unknown run")
        if isinstance(x, Blob):
          self.blob_iter(s, f, x)
          continue
        try:
          self.assign(s.target, x)
          self.block(s.body)
        except Dead:
          self.live = FALSE
        self.live = B.OR(self.live, lc.cont)
        lc.cont = FALSE
        if self.live == 0: break
      if self.live and s.orelse:
        try: self.block(s.orelse)
        except Dead: self.live = FALSE
      self.live = B.OR(self.live, lc.brk)
    finally:
      f.loops.pop()
    if self.live == 0: raise Dead()

  def blob_iter(self, s, f, blob):
    """body of a loop over a run of unknown bytes: only element-wise effects are summarised"""
    names = set()
    for n in ast.walk(s.target):
      if isinstance(n, ast.Name): names.add(n.id)
    start = self.live
    nonempty = self.lt(0, blob.length)
    ctx = (blob, f, names, len(f.loops))
    nsink = len(self.sinks[-1])
    self.blob_ctx.append(ctx)
    try:
      if not isinstance(s.target, ast.Name): raise Unsupported("loop target")
      self.frames[-1].vars[s.target.id] = BlobElem(blob, 'chr' if getattr(blob, 'ch', False) else None)
      try:
        self.block(s.body)
      except Dead:
        raise Unsupported("loop over unknown data may exit")
      if self.live != start: raise Unsupported("loop over unknown data may exit")
    finally:
      self.blob_ctx.pop()
    self.frames[-1].vars[s.target.id] = Opaque('last element')

  def gen_emit(self, f, entries):
    self.list_modify(f.gen, lambda e: e + tuple(entries), 'yield', log=False)

  def list_modify(self, l, fn, what, log=True):
    """entrywise update of a list in the live region"""
    if log: self.note_mutation(l, what)
    B = self.B
    if B.AND(l.alloc, B.NOT(self.live)) == 0:
      l.alts = self.norm_seq([(g, fn(e)) for g, e in l.alts])
      return
    rel = B.CONSTRAIN(self.live, l.alloc)
    nrel = B.NOT(rel)
    out = []
    for g, e in l.alts:
      h = B.AND(g, rel)
      if h: out.append((h, fn(e)))
      h = B.AND(g, nrel)
      if h: out.append((h, e))
    l.alts = self.norm_seq(out)

  def list_live(self, l):
    return [(g, e) for g, e in l.alts if self.B.AND(self.live, g) != 0]

  def s_With(self, s):
    self.with_items(s.items, s.body)

  def with_items(self, items, body):
    if not items: return self.block(body)
    it = items[0]
    cm = self.ev(it.context_expr)
    if isinstance(cm, Union): raise Unsupported("context manager alternatives")
    enter = self.get_attr(cm, '__enter__')
    exit_ = self.get_attr(cm, '__exit__')
    v = self.call(enter, [], {})
    if it.optional_vars is not None: self.assign(it.optional_vars, v)
    self.finally_(lambda: self.with_items(items[1:], body), lambda: self.call(exit_, [None, None, None], {}))

  def finally_(self, body, fin):
    """run body, then fin on every exit"""
    B = self.B
    f = self.frames[-1]
    sink = []
    nret = len(f.ret)
    lc = f.loops[-1] if f.loops else None
    b0, c0 = (lc.brk, lc.cont) if lc else (0, 0)
    if lc: lc.brk = lc.cont = FALSE
    self.sinks.append(sink)
    f.trydepth += 1
    try:
      try:
        body(); normal = self.live
      except Dead: normal = FALSE
    finally:
      self.sinks.pop()
      f.trydepth -= 1
    rets = f.ret[nret:]
    del f.ret[nret:]
    nb, nc = (lc.brk, lc.cont) if lc else (0, 0)
    if lc: lc.brk, lc.cont = b0, c0
    allg = normal
    for t in sink: allg = B.OR(allg, t.guard)
    for g, v in rets: allg = B.OR(allg, g)
    allg = B.OR(allg, B.OR(nb, nc))
    self.live = allg
    if allg == 0: raise Dead()
    try:
      fin(); after = self.live
    except Dead:
      after = FALSE
    for t in sink:
      g = B.AND(t.guard, after)
      if g:
        self.rethrow(Thrown(g, t.exc, t.loc))
    for g, v in rets:
      h = B.AND(g, after)
      if h:
        f.ret.append((h, v))
        if not f.trydepth: f.gone = B.OR(f.gone, h)
    if lc:
      lc.brk = B.OR(lc.brk, B.AND(nb, after)); lc.cont = B.OR(lc.cont, B.AND(nc, after))
    self.live = B.AND(normal, after)
    if self.live == 0: raise Dead()

  def rethrow(self, t):
    self.sinks[-1].append(t)
    for fr in reversed(self.frames):
      if fr.trydepth: break
      fr.gone = self.B.OR(fr.gone, t.guard)

  def s_Try(self, s):
    if s.finalbody:
      inner = lambda: self.try_except(s)
      return self.finally_(inner, lambda: self.block(s.finalbody))
    self.try_except(s)

  def try_except(self, s):
    B = self.B
    f = self.frames[-1]
    if not s.handlers:
      return self.block(s.body)
    sink = []
    self.sinks.append(sink)
    f.trydepth += 1
    try:
      try:
        self.block(s.body); normal = self.live
      except Dead: normal = FALSE
    finally:
      self.sinks.pop()
      f.trydepth -= 1
    if normal and s.orelse:
      self.live = normal
      try:
        self.block(s.orelse); normal = self.live
      except Dead: normal = FALSE
    pending = list(sink)
    out = normal
    for h in s.handlers:
      if not pending: break
      if h.type is None:
        match, pending = pending, []
      else:
        tg = FALSE
        for t in pending: tg = B.OR(tg, t.guard)
        self.live = tg
        try:
          types = self.ev(h.type)
        except Dead:
          pending = []
          break
        if isinstance(types, Union): raise Unsupported("handler type")
        types = list(types) if isinstance(types, tuple) else [types]
        match, rest = [], []
        for t in pending:
          ok = False
          for ty in types:
            if isinstance(ty, ClassV):
              if isinstance(t.exc, Obj) and t.exc.cls.issub(ty): ok = True
            elif isinstance(ty, Opaque):
              if isinstance(t.exc, Obj) and t.exc.cls.name == ty.tag.split('.')[-1]: ok = True
          (match if ok else rest).append(t)
        pending = rest
      if not match: continue
      g = FALSE
      excs = []
      for t in match:
        g = B.OR(g, t.guard)
        excs.append((t.guard, t.exc))
      self.live = g
      old = getattr(f, 'handling', None)
      f.handling = excs
      self.event('handler', types=[t.exc.cls.name if isinstance(t.exc, Obj) else '?' for t in match], line=h.lineno)
      try:
        if h.name:
          if not excs: raise Dead()
          self.set_var(h.name, self.merge_all(excs) if len(excs) > 1 else excs[0][1])
        self.block(h.body)
        out = B.OR(out, self.live)
      except Dead: pass
      finally:
        f.handling = old
    for t in pending:
      self.rethrow(t)
    self.live = out
    if out == 0: raise Dead()

  # ------------------------------------------------------------------ expressions
  def ev(self, e):
    self.tick()
    f = self.frames[-1]
    if hasattr(e, 'lineno'): f.line = e.lineno
    m = getattr(self, 'e_' + e.__class__.__name__, None)
    if m is None: raise Unsupported("expression %s" % e.__class__.__name__)
    return m(e)

  def e_Constant(self, e):
    v = e.value
    if isinstance(v, bytes): return v.decode('latin-1')
    if v is Ellipsis or isinstance(v, complex): raise Unsupported("constant")
    return v

  def e_Name(self, e):
    return self.get_name(e.id)

  def e_Attribute(self, e):
    return self.get_attr(self.ev(e.value), e.attr)

  def e_Tuple(self, e):
    return tuple(self.ev(x) for x in e.elts)

  def e_List(self, e):
    return self.new_list([self.ev(x) for x in e.elts])

  def e_Set(self, e):
    d = SetV(self.live, self.epoch, self.loc())
    for x in e.elts:
      v = self.ev(x)
      d.items[self.hkey(v)] = [v, True]
    return d

  def e_Dict(self, e):
    d = self.new_dict()
    for k, v in zip(e.keys, e.values):
      if k is None: raise Unsupported("dict unpack")
      kv = self.ev(k)
      vv = self.ev(v)
      self.dict_set(d, kv, vv)
    return d

  def hkey(self, v):
    if isinstance(v, bool): return ('i', int(v))
    if isinstance(v, int): return ('i', v)
    if isinstance(v, str): return ('s', v)
    if isinstance(v, float): return ('i', int(v)) if v == int(v) else ('f', v)
    if v is None: return ('n',)
    if isinstance(v, tuple): return ('t',) + tuple(self.hkey(x) for x in v)
    if isinstance(v, Obj):
      if v.cls.is_enum and self.models.is_intenum(v.cls): return ('i', v.attrs['_value_'])
      return ('o', id(v))
    if isinstance(v, (ClassV, FuncV, Native, ModuleV)): return ('o', id(v))
    return None

  def dict_set(self, d, k, v):
    def one(k):
      key = self.hkey(k)
      if key is None:
        if isinstance(k, (SI, SB)):
          return self.fork(self.cases(k, 64), one)
        raise Unsupported("dictionary key %r" % (k,))
      if d.epoch < self.epoch and key not in d.items and (id(d) in self.memos or not d.items):   # a cache that starts empty and only grows
        self.memos.add(id(d))
        if self.writelog is not None: self.writelog.append((d, key))
      else: self.note_mutation(d, key)
      cur = d.items.get(key)
      B = self.B
      if B.AND(d.alloc, B.NOT(self.live)) == 0: nv = v
      else: nv = self.ite_val(B.CONSTRAIN(self.live, d.alloc), v, cur[1] if cur else UNDEF)
      if cur: d.items[key] = [cur[0], nv]
      else: d.items[key] = [k, nv]
    self.split(k, one)

  def dict_get(self, d, k, missing):
    """value for key k; missing() is called where there is none"""
    B = self.B
    def one(k):
      key = self.hkey(k)
      if key is not None:
        ent = d.items.get(key)
        if ent is None: return missing()
        v = ent[1]
        if v is UNDEF: return missing()
        if isinstance(v, Union):
          und = [g for g, x in v.alts if x is UNDEF and self.may(g)]
          if und:
            rest = Union(tuple((g, x) for g, x in v.alts if x is not UNDEF))
            ug = FALSE
            for g in und: ug = B.OR(ug, g)
            return self.fork([(ug, None), (B.NOT(ug), rest)], lambda p: missing() if p is None else self.pick(p))
        return v
      if isinstance(k, (SI, SB)):
        alts = []
        rest = TRUE
        for key, (kk, vv) in d.items.items():
          if key[0] != 'i': continue
          g = self.eq_int(k, key[1])
          if not self.may(g): continue
          alts.append((g, kk)); rest = B.AND(rest, B.NOT(g))
        alts.append((rest, UNDEF))
        return self.fork(alts, lambda kk: missing() if kk is UNDEF else one(kk))
      if isinstance(k, SStr):
        alts = []; rest = TRUE
        for key, (kk, vv) in d.items.items():
          if key[0] != 's': continue
          g = self.eq_node(k, kk)
          if self.may(g): alts.append((g, kk)); rest = B.AND(rest, B.NOT(g))
        alts.append((rest, UNDEF))
        return self.fork(alts, lambda kk: missing() if kk is UNDEF else one(kk))
      if isinstance(k, Opaque):
        return Opaque('item')
      if isinstance(k, DictV) or isinstance(k, ListV) and k.kind in ('list', 'bytearray'):
        self.raise_('TypeError', 'unhashable type')
        raise Dead()
      raise Unsupported("dictionary lookup with %r" % (k,))
    return self.split(k, one)

  def pick(self, u):
    la = self.live_alts(u)
    if len(la) == 1: return la[0][1]
    return Union(tuple(la))

  def e_BoolOp(self, e):
    is_and = isinstance(e.op, ast.And)
    def rec(i):
      v = self.ev(e.values[i])
      if i == len(e.values) - 1: return v
      t = self.truth(v)
      stop = self.NOT(t) if is_and else t
      if self.must(stop): return v
      if not self.may(stop): return rec(i + 1)
      return self.fork([(stop, 0), (self.NOT(stop), 1)], lambda k: self.narrow(v) if k == 0 else rec(i + 1))
    return rec(0)

  def narrow(self, v):
    if isinstance(v, Union): return self.pick(v)
    if isinstance(v, SB):
      if self.must(v.node): return True
      if not self.may(v.node): return False
    return v

  def e_UnaryOp(self, e):
    v = self.ev(e.operand)
    if isinstance(e.op, ast.Not): return self.mkbool(self.NOT(self.truth(v)))
    def one(x):
      if isinstance(e.op, ast.USub):
        if isinstance(x, float): return -x
        if self.is_intlike(x): return self.neg(x if not isinstance(x, (bool, SB)) else self.norm_int(self.bits(x)))
      elif isinstance(e.op, ast.UAdd): return x
      elif isinstance(e.op, ast.Invert):
        if isinstance(x, int): return ~x
        if self.is_intlike(x): return self.norm_int(tuple(self.NOT(b) for b in self.bits(x)))
      if isinstance(x, Opaque): return Opaque('unary')
      self.raise_('TypeError', 'bad operand type for unary')
      raise Dead()
    return self.split(v, one)

  def e_BinOp(self, e):
    a = self.ev(e.left)
    b = self.ev(e.right)
    return self.binop(e.op, a, b)

  def e_IfExp(self, e):
    c = self.truth(self.ev(e.test))
    return self.fork([(c, e.body), (self.NOT(c), e.orelse)], self.ev)

  def e_Lambda(self, e):
    return self.make_func(e, '<lambda>')

  def e_Call(self, e):
    if isinstance(e.func, ast.Name) and e.func.id == 'super' and not self.shadowed('super'):
      return self.make_super(e)
    fn = self.ev(e.func)
    args = []
    for a in e.args:
      if isinstance(a, ast.Starred):
        v = self.ev(a.value)
        alts = self.elements(v)
        if len(alts) != 1: raise Unsupported("*args alternatives")
        args.extend(alts[0][1])
      else:
        args.append(self.ev(a))
    kwargs = {}
    for k in e.keywords:
      if k.arg is None:
        d = self.ev(k.value)
        if isinstance(d, Opaque): continue
        if not isinstance(d, DictV): raise Unsupported("**kwargs")
        for key, (kk, vv) in d.items.items():
          if vv is not UNDEF: kwargs[kk] = vv
      else:
        kwargs[k.arg] = self.ev(k.value)
    self.frames[-1].line = e.lineno
    if any(isinstance(v, Union) and any(x is UNDEF for g, x in v.alts) for v in kwargs.values()):
      return self.fork(self.present(kwargs), lambda kw: self.call(fn, args, kw))
    return self.call(fn, args, kwargs)

  def present(self, kwargs):
    """keyword arguments of which some may be absent: [(guard, those present)]"""
    out = [(TRUE, {})]
    for n, v in kwargs.items():
      und = FALSE
      if isinstance(v, Union):
        for g, x in v.alts:
          if x is UNDEF: und = self.OR(und, g)
        rest = tuple((g, x) for g, x in v.alts if x is not UNDEF)
        v = rest[0][1] if len(rest) == 1 else Union(rest)
      out = [(h, kw) for g, kw in out for h, kw in ((self.AND(g, self.NOT(und)), dict(kw, **{n: v})), (self.AND(g, und), dict(kw))) if self.may(h)]
      if len(out) > 16: raise Unsupported("keyword arguments that may be absent")
    return out

  def shadowed(self, name):
    f = self.frames[-1]
    return name in f.vars or name in f.module.ns

  def make_super(self, e):
    f = self.frames[-1]
    if e.args:
      cls = self.ev(e.args[0])
      obj = self.ev(e.args[1])
    else:
      cls = f.cls; obj = f.selfobj
    return self.split(obj, lambda o: SuperV(cls, o))

  def e_Compare(self, e):
    left = self.ev(e.left)
    if len(e.ops) == 1:
      return self.compare(e.ops[0], left, self.ev(e.comparators[0]))
    def rec(i, left):
      right = self.ev(e.comparators[i])
      v = self.compare(e.ops[i], left, right)
      if i == len(e.ops) - 1: return v
      t = self.truth(v)
      if not self.may(t): return False
      return self.fork([(t, 1), (self.NOT(t), 0)], lambda k: rec(i + 1, right) if k else False)
    return rec(0, left)

  def e_Subscript(self, e):
    return self.get_item(self.ev(e.value), self.ev_slice(e.slice))

  def ev_slice(self, s):
    if isinstance(s, ast.Slice):
      return SliceV(self.ev(s.lower) if s.lower is not None else None,
                    self.ev(s.upper) if s.upper is not None else None,
                    self.ev(s.step) if s.step is not None else None)
    if s.__class__.__name__ == 'Index': s = s.value
    return self.ev(s)

  def e_Yield(self, e):
    f = self.frames[-1]
    v = self.ev(e.value) if e.value is not None else None
    if self.blob_ctx and self.blob_ctx[-1][1] is f:
      v = self.blob_result(v)
    self.gen_emit(f, (v,))
    return None

  def blob_result(self, v):
    if isinstance(v, BlobElem):
      b = Blob2(v.blob.base, v.blob.start, v.blob.length, v.conv == 'chr')
      return b
    if isinstance(v, (SText, Opaque)): return Opaques('mapped')
    raise Unsupported("element-wise result %r" % (v,))

  def e_ListComp(self, e): return self.comprehension(e, 'list')
  def e_GeneratorExp(self, e): return self.comprehension(e, 'list')

  def e_SetComp(self, e):
    l = self.comprehension(e, 'list')
    return self.models.make_set(self, l)

  def e_DictComp(self, e):
    d = self.new_dict()
    self.comp_loop(e.generators, 0, lambda: self.dict_set(d, self.ev(e.key), self.ev(e.value)))
    return d

  def comprehension(self, e, kind):
    out = self.new_list((), kind)
    def emit():
      v = self.ev(e.elt)
      if self.blob_ctx and self.blob_ctx[-1][1] is self.frames[-1]: v = self.blob_result(v)
      self.list_modify(out, lambda en: en + (v,), 'append', log=False)
    f = self.frames[-1]
    saved = {}
    self.comp_loop(e.generators, 0, emit)
    return out

  def comp_loop(self, gens, i, emit):
    if i == len(gens): return emit()
    g = gens[i]
    it = self.ev(g.iter)
    B = self.B
    f = self.frames[-1]
    parts = []
    def one(v):
      for h, en in self.elements(v): parts.append((B.AND(self.live, h), en))
    self.split(it, one)
    ok = self.live
    total = FALSE
    for h, en in parts:
      self.live = B.AND(ok, h)
      if self.live == 0: continue
      try:
        for x in en:
          if isinstance(x, Opaques): raise Unsupported("loop over an unknown run")
          if isinstance(x, Blob):
            if g.ifs or i + 1 < len(gens) or not isinstance(g.target, ast.Name): raise Unsupported("filtering unknown data")
            ctx = (x, f, {g.target.id}, 99)
            start = self.live
            self.blob_ctx.append(ctx)
            try:
              f.vars[g.target.id] = BlobElem(x, 'chr' if getattr(x, 'ch', False) else None)
              emit()
              if self.live != start: raise Unsupported("loop over unknown data may exit")
            finally: self.blob_ctx.pop()
            continue
          self.assign(g.target, x)
          self.comp_if(g.ifs, 0, lambda: self.comp_loop(gens, i + 1, emit))
        total = B.OR(total, self.live)
      except Dead: pass
    self.live = total
    if total == 0: raise Dead()

  def comp_if(self, ifs, k, body):
    if k == len(ifs): return body()
    c = self.truth(self.ev(ifs[k]))
    self.branch(c, lambda: self.comp_if(ifs, k + 1, body), lambda: None)

  def e_JoinedStr(self, e):
    raise Unsupported("f-string")

  # ------------------------------------------------------------------ operations
  OPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**',
         ast.LShift: '<<', ast.RShift: '>>', ast.BitOr: '|', ast.BitAnd: '&', ast.BitXor: '^'}

  def binop(self, op, a, b):
    o = self.OPS[op.__class__] if not isinstance(op, str) else op
    if self.keep_alts and o == '+' and (isinstance(a, Union) or isinstance(b, Union)):
      texts = lambda v: all(isinstance(x, (str, SStr, SText)) for g, x in self.alts(v))
      if texts(a) and texts(b): return self.models.mktext(list(self.models.text_parts(a)) + list(self.models.text_parts(b)))
    return self.splits([a, b], lambda x, y: self.binop1(o, x, y))

  def type_error(self, msg):
    self.raise_('TypeError', msg)
    raise Dead()

  def binop1(self, o, a, b):
    a, b = self.models.unenum(self, a), self.models.unenum(self, b)
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
      return self.const_op(o, a, b)
    if isinstance(a, BlobElem) or isinstance(b, BlobElem):
      if isinstance(a, BlobElem) and o == '&' and b == 255: return a
      return Opaque('element arithmetic') if self.blob_ctx else self._unsup("arithmetic on unknown data")
    if self.is_intlike(a) and self.is_intlike(b):
      a2 = self.norm_int(self.bits(a)) if isinstance(a, (bool, SB)) else a
      b2 = self.norm_int(self.bits(b)) if isinstance(b, (bool, SB)) else b
      if o == '+': return self.add(a2, b2)
      if o == '-': return self.sub(a2, b2)
      if o in '&|^':
        r = self.bitop(o, a2, b2)
        if isinstance(a, (bool, SB)) and isinstance(b, (bool, SB)): return self.mkbool(self.bits(r)[0])
        return r
      if o in ('<<', '>>'):
        if isinstance(b2, int):
          if b2 < 0:
            self.raise_('ValueError', 'negative shift count'); raise Dead()
          return self.shl(a2, b2) if o == '<<' else self.shr(a2, b2)
        return self.fork(self.cases(b2, 200), lambda n: self.binop1(o, a2, n))
      if o == '*':
        if isinstance(b2, int): return self.mul_const(a2, b2)
        if isinstance(a2, int): return self.mul_const(b2, a2)
        return self.mul_cases(a2, b2)
      if o in ('/', '//', '%'):
        if isinstance(b2, int):
          if b2 == 0:
            self.raise_('ZeroDivisionError', 'integer division or modulo by zero'); raise Dead()
          if b2 < 0: raise Unsupported("negative divisor")
          q, r = self.divmod_const(a2, b2)
          return r if o == '%' else q
        z = self.eq_int(b2, 0)
        self.raise_('ZeroDivisionError', 'integer division or modulo by zero', guard=z)
        return self.fork(self.cases(b2, 64), lambda n: self.binop1(o, a2, n))
      if o == '**':
        if isinstance(b2, int) and 0 <= b2 <= 8:
          r = 1
          for _ in range(b2): r = self.binop1('*', r, a2)
          return r
        return self.fork(self.cases(b2, 64), lambda n: self.fork(self.cases(a2, 64), lambda m: m ** n))
    if (isinstance(a, float) and self.is_intlike(b)) or (isinstance(b, float) and self.is_intlike(a)):
      return self.float_mixed(o, a, b)
    return self.models.binop_other(self, o, a, b)

  def _unsup(self, msg): raise Unsupported(msg)

  def mul_cases(self, a, b):
    for x, y in ((a, b), (b, a)):
      try:
        cs = self.cases(x, 40)
      except Unsupported: continue
      return self.fork(cs, lambda n: self.mul_const(y, n))
    return self.soft_int('product', 64)

  def float_mixed(self, o, a, b):
    """float op unknown integer: exact when the float is an integer value or the integer has few values"""
    if o in ('*', '+', '-') and isinstance(a, float) and a == int(a) and abs(a) < 2 ** 53:
      return self.mkfloat(self.binop1(o, int(a), b))
    if o in ('*', '+', '-') and isinstance(b, float) and b == int(b) and abs(b) < 2 ** 53:
      return self.mkfloat(self.binop1(o, a, int(b)))
    if o in ('/', '%', '//') and isinstance(b, float) and b > 0 and b == int(b):
      k = int(b)
      x = a
      if isinstance(x, SFloat): x = x.num
      return SFloat(x, k) if o == '/' else self.mkfloat(self.divmod_const(x, k)[1 if o == '%' else 0])
    x = a if self.is_intlike(a) else b
    def k(n): return self.const_op(o, n, b) if x is a else self.const_op(o, a, n)
    return self.fork(self.cases(x, 300), k)

  def mkfloat(self, v):
    if isinstance(v, int): return float(v)
    return SFloat(v, 1)

  def const_op(self, o, a, b):
    try:
      if o == '+': return a + b
      if o == '-': return a - b
      if o == '*': return a * b
      if o == '/':
        if isinstance(a, float) or isinstance(b, float): return a / b
        return a // b
      if o == '//': return a // b
      if o == '%': return a % b
      if o == '**': return a ** b
      if o == '<<': return a << b
      if o == '>>': return a >> b
      if o == '|': return a | b
      if o == '&': return a & b
      if o == '^': return a ^ b
    except ZeroDivisionError:
      self.raise_('ZeroDivisionError', 'division by zero')
    except TypeError:
      self.raise_('TypeError', 'unsupported operand types')
    except ValueError:
      self.raise_('ValueError', 'bad operand')
    except OverflowError:
      self.raise_('OverflowError', 'overflow')
    raise Dead()

  def compare(self, op, a, b):
    n = op.__class__.__name__
    if n in ('Is', 'IsNot'):
      r = self.splits([a, b], lambda x, y: self.mkbool(self.is_node(x, y)))
      return r if n == 'Is' else self.mkbool(self.NOT(self.truth(r)))
    if n in ('In', 'NotIn'):
      r = self.splits([b], lambda y: self.models.contains(self, y, a))
      return r if n == 'In' else self.mkbool(self.NOT(self.truth(r)))
    return self.splits([a, b], lambda x, y: self.compare1(n, x, y))

  def is_node(self, x, y):
    if x is y: return TRUE
    if isinstance(x, (bool, SB)) and isinstance(y, (bool, SB)):
      return self.NOT(self.B.XOR(self.bits(x)[0], self.bits(y)[0]))
    if self.is_num(x) and self.is_num(y): return self.eq_int(x, y)   # small integers are cached objects
    if isinstance(x, str) and isinstance(y, str): return TRUE if x == y else FALSE
    if isinstance(x, Opaque) or isinstance(y, Opaque):
      if x is None or y is None: return self.soft_bool('is None', (id(x), id(y))).node
      return self.soft_bool('is', (id(x), id(y))).node
    return FALSE

  def compare1(self, n, a, b):
    if n in ('Eq', 'NotEq'):
      # user-defined comparison methods
      name = '__eq__' if n == 'Eq' else '__ne__'
      cands = []
      for x, y in ((a, b), (b, a)):
        if isinstance(x, Obj) and not (x.cls.is_enum):
          m, owner = x.cls.lookup(name)
          if m is not None: cands.append((Bound(m, x) if isinstance(m, Native) else self.bind(m, x, owner), y))
      def rec(i):
        if i == len(cands):
          node = self.eq_node(a, b)
          return self.mkbool(node if n == 'Eq' else self.NOT(node))
        r = self.call(cands[i][0], [cands[i][1]], {})
        ni = self.models.NOTIMPL
        if not any(z is ni for _, z in self.alts(r)): return r
        return self.splits([r], lambda z: rec(i + 1) if z is ni else z)
      if cands: return rec(0)
      node = self.eq_node(a, b)
      return self.mkbool(node if n == 'Eq' else self.NOT(node))
    ua, ub = self.models.unenum(self, a), self.models.unenum(self, b)
    dn = {'Lt': '__lt__', 'Gt': '__gt__', 'LtE': '__le__', 'GtE': '__ge__'}[n]
    if isinstance(ua, Obj) or isinstance(ub, Obj):
      rn = {'Lt': '__gt__', 'Gt': '__lt__', 'LtE': '__ge__', 'GtE': '__le__'}[n]
      for x, y, nm in ((ua, ub, dn), (ub, ua, rn)):
        if isinstance(x, Obj):
          m, owner = x.cls.lookup(nm)
          if m is not None: return self.call(self.bind(m, x, owner), [y], {})
    lt = self.lt_node(ua, ub) if n in ('Lt', 'GtE') else self.lt_node(ub, ua)
    if n in ('LtE', 'GtE'): lt = self.NOT(lt)
    return self.mkbool(lt)

  def lt_node(self, a, b):
    if isinstance(a, (int, float)) and isinstance(b, (int, float)): return TRUE if a < b else FALSE
    if self.is_intlike(a) and self.is_intlike(b): return self.lt(a, b)
    if isinstance(a, (float, SFloat)) or isinstance(b, (float, SFloat)):
      if (self.is_intlike(a) or isinstance(a, (float, SFloat))) and (self.is_intlike(b) or isinstance(b, (float, SFloat))):
        return self.models.float_lt(self, a, b)
    if isinstance(a, Union) or isinstance(b, Union):
      r = FALSE
      for g, x in self.alts(a):
        for h, y in self.alts(b):
          gh = self.AND(g, h)
          if self.may(gh): r = self.OR(r, self.AND(gh, self.lt_node(x, y)))
      return r
    if isinstance(a, str) and isinstance(b, str): return TRUE if a < b else FALSE
    # Python 2 ordering of unlike types: None first, numbers next
    rank = lambda v: 0 if v is None else 1 if (self.is_intlike(v) or isinstance(v, float)) else 2
    if isinstance(a, (Opaque, SText, SStr, BlobElem)) or isinstance(b, (Opaque, SText, SStr, BlobElem)):
      if rank(a) == rank(b) or isinstance(a, Opaque) or isinstance(b, Opaque):
        return self.soft_bool('order', (id(a), id(b))).node
    if rank(a) != rank(b): return TRUE if rank(a) < rank(b) else FALSE
    if isinstance(a, tuple) and isinstance(b, tuple):
      raise Unsupported("tuple ordering")
    return self.soft_bool('order of objects', (id(a), id(b))).node

  def eq_node(self, a, b):
    """node of a == b, without user-defined methods on the outermost objects"""
    B = self.B
    if a is b: return TRUE
    if isinstance(a, Union) or isinstance(b, Union):
      r = FALSE
      for g, x in self.alts(a):
        for h, y in self.alts(b):
          gh = B.AND(g, h)
          if self.may(gh): r = B.OR(r, B.AND(gh, self.eq_node(x, y)))
      return r
    if a is UNDEF or b is UNDEF: return FALSE
    a, b = self.models.unenum(self, a), self.models.unenum(self, b)
    if a is b: return TRUE
    if self.is_intlike(a) and self.is_intlike(b): return self.eq_int(a, b)
    if isinstance(a, (float, int)) and isinstance(b, (float, int)): return TRUE if a == b else FALSE
    if isinstance(a, SFloat) or isinstance(b, SFloat):
      return self.models.float_eq(self, a, b)
    if isinstance(a, float) and self.is_intlike(b): a, b = b, a
    if isinstance(b, float) and self.is_intlike(a):
      return self.eq_int(a, int(b)) if b == int(b) else FALSE
    if a is None or b is None:
      o = b if a is None else a
      if isinstance(o, Opaque): return self.soft_bool('== None', id(o)).node
      return FALSE
    if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
      if isinstance(a, str) and isinstance(b, str): return TRUE if a == b else FALSE
      return self.eq_seqs(self.seq_entries(a), self.seq_entries(b))
    byt = lambda v: isinstance(v, (str, SStr)) or (isinstance(v, ListV) and v.kind == 'bytearray')
    if byt(a) and byt(b): return self.eq_seqs(a.alts if isinstance(a, ListV) else self.seq_entries(a), b.alts if isinstance(b, ListV) else self.seq_entries(b))
    if isinstance(a, ListV) and isinstance(b, ListV):
      if a.kind != b.kind and not (a.kind in ('list',) and b.kind in ('list',)): return FALSE
      return self.eq_seqs(a.alts, b.alts)
    if isinstance(a, tuple) and isinstance(b, tuple):
      if len(a) != len(b): return FALSE
      r = TRUE
      for x, y in zip(a, b): r = B.AND(r, self.eq_full(x, y))
      return r
    if isinstance(a, DictV) and isinstance(b, DictV):
      r = TRUE
      for k in set(a.items) | set(b.items):
        x = a.items.get(k, [None, UNDEF])[1]
        y = b.items.get(k, [None, UNDEF])[1]
        r = B.AND(r, self.eq_full_u(x, y))
      return r
    if isinstance(a, SText) and isinstance(b, SText) and self.text_same(a, b): return TRUE
    if isinstance(a, (SText, Opaque, BlobElem)) or isinstance(b, (SText, Opaque, BlobElem)):
      if isinstance(a, (SText)) and not isinstance(b, (SText, str, SStr, Opaque)): return FALSE
      if isinstance(b, (SText)) and not isinstance(a, (SText, str, SStr, Opaque)): return FALSE
      return self.soft_bool('equality', (id(a), id(b))).node
    return FALSE

  def text_same(self, a, b):
    if len(a.parts) != len(b.parts): return False
    for x, y in zip(a.parts, b.parts):
      if isinstance(x, str) or isinstance(y, str):
        if x != y: return False
      elif x[0] != y[0] or x[1] != y[1] or not (x[2] is y[2] or (self.is_intlike(x[2]) and self.is_intlike(y[2]) and self.must(self.eq_int(x[2], y[2])))): return False
    return True

  def eq_full_u(self, x, y):
    B = self.B
    r = FALSE
    for g, p in self.alts(x):
      for h, q in self.alts(y):
        gh = B.AND(g, h)
        if not self.may(gh): continue
        if p is UNDEF or q is UNDEF:
          e = TRUE if p is q else FALSE
        else: e = self.eq_full(p, q)
        r = B.OR(r, B.AND(gh, e))
    return r

  def eq_full(self, x, y):
    """== including user-defined methods"""
    v = self.splits([x, y], lambda p, q: self.compare1('Eq', p, q))
    return self.truth(v)

  def eq_seqs(self, aa, bb):
    B = self.B
    r = FALSE
    for g, e in aa:
      for h, f in bb:
        gh = B.AND(g, h)
        if not self.may(gh): continue
        r = B.OR(r, B.AND(gh, self.eq_entries(e, f)))
    return r

  def eq_entries(self, e, f):
    B = self.B
    if self.shape(e) == self.shape(f):
      r = TRUE
      for x, y in zip(e, f):
        if isinstance(x, (Blob, Opaques)): continue
        r = B.AND(r, self.eq_full(x, y))
        if r == 0: return r
      return r
    if not any(isinstance(x, (Blob, Opaques)) for x in e + f): return FALSE
    # unknown runs in different arrangement: compare lengths, content unknown
    le, lf = self.entries_len(e), self.entries_len(f)
    ln = self.eq_int(le, lf)
    if ln == 0: return FALSE
    return B.AND(ln, self.soft_bool('content equality', (self.shape(e), self.shape(f))).node)

  def truth(self, v):
    if v is True: return TRUE
    if v is False or v is None: return FALSE
    if isinstance(v, SB): return v.node
    B = self.B
    if isinstance(v, Union):
      r = self.split(v, lambda x: self.mkbool(self.truth(x)))
      if isinstance(r, SB): return r.node
      return TRUE if r else FALSE
    if isinstance(v, (int, float, str, tuple)): return TRUE if v else FALSE
    if isinstance(v, (SI, LI)): return self.NOT(self.eq_int(v, 0))
    if isinstance(v, (SStr, ListV)):
      if isinstance(v, ListV) and v.kind == 'gen': return TRUE
      r = FALSE
      for g, e in v.alts:
        if self.may(g): r = B.OR(r, B.AND(g, self.nonempty(e)))
      return r
    if isinstance(v, DictV):
      r = FALSE
      for k, (kk, x) in v.items.items():
        if x is UNDEF: continue
        if isinstance(x, Union):
          for g, y in x.alts:
            if y is not UNDEF: r = B.OR(r, g)
        else: return TRUE
      return r
    if isinstance(v, Obj):
      if v.cls.is_enum:
        if self.models.is_intenum(v.cls): return self.truth(v.attrs['_value_'])
        return TRUE
      m, owner = v.cls.lookup('__nonzero__')
      if m is not None: return self.truth(self.call(self.bind(m, v, owner), [], {}))
      m, owner = v.cls.lookup('__len__')
      if m is not None: return self.truth(self.call(self.bind(m, v, owner), [], {}))
      return TRUE
    if isinstance(v, SText): return TRUE if any(isinstance(p, str) and p or not isinstance(p, str) and p[0] == 'int' for p in v.parts) else self.soft_bool('text', id(v)).node
    if isinstance(v, SFloat): return self.NOT(self.eq_int(v.num, 0))
    if v is self.models.NOTIMPL: return TRUE
    if isinstance(v, Opaque): return self.soft_bool('truth of ' + v.tag, id(v)).node
    if isinstance(v, BlobElem): raise Unsupported("branch on unknown data")
    return TRUE

  def nonempty(self, e):
    B = self.B
    r = FALSE
    for x in e:
      if isinstance(x, Opaques): r = B.OR(r, self.soft_bool('run', id(x)).node)
      elif isinstance(x, Blob): r = B.OR(r, self.lt(0, x.length))
      else: return TRUE
    return r

  # ------------------------------------------------------------------ attributes
  def bind(self, v, obj, owner):
    if isinstance(v, StaticM): return v.func
    if isinstance(v, ClassM): return Bound(v.func, obj.cls if isinstance(obj, Obj) else obj)
    if isinstance(v, (FuncV, Native)): return Bound(v, obj)
    return v

  def has_attr(self, o, name):
    """node: o has the attribute"""
    if isinstance(o, Union):
      r = FALSE
      for g, x in o.alts:
        if self.may(g): r = self.OR(r, self.AND(g, self.has_attr(x, name)))
      return r
    if isinstance(o, Obj):
      v = o.attrs.get(name, UNDEF)
      cv, _ = o.cls.lookup(name)
      if cv is not None or self.models.obj_native_attr(self, o, name) is not None: return TRUE
      r = FALSE
      for g, x in self.alts(v):
        if x is not UNDEF: r = self.OR(r, g)
      return r
    if isinstance(o, ClassV):
      return TRUE if o.lookup(name)[1] is not None else FALSE
    if isinstance(o, ModuleV):
      return TRUE if (name in o.ns or o.external) else FALSE
    if isinstance(o, Opaque): return self.soft_bool('hasattr', (id(o), name)).node
    return TRUE if self.models.value_attr(self, o, name) is not None else FALSE

  def get_attr(self, o, name):
    if isinstance(o, Union): return self.split(o, lambda x: self.get_attr(x, name))
    if isinstance(o, Obj): return self.obj_attr(o, name)
    if isinstance(o, ClassV): return self.class_attr(o, name)
    if isinstance(o, ModuleV):
      v = self.module_attr(o, name)
      if v is UNDEF:
        sub = o.name + '.' + name
        if sub in self.modules: return self.modules[sub]
        self.raise_('AttributeError', "module %s has no attribute %s" % (o.name, name))
        raise Dead()
      return v
    if isinstance(o, SuperV):
      mro = o.obj.cls.mro if isinstance(o.obj, Obj) else o.obj.mro
      i = mro.index(o.cls) if o.cls in mro else -1
      if i < 0: self.type_error("super(): object is not an instance of %s" % o.cls.name)
      for c in mro[i + 1:]:
        if name in c.ns:
          v = c.ns[name]
          if isinstance(v, PropertyV): return self.call(v.fget, [o.obj], {})
          return self.bind(v, o.obj, c)
      v = self.models.object_method(self, name)
      if v is not None: return Bound(v, o.obj)
      self.raise_('AttributeError', "'super' object has no attribute '%s'" % name)
      raise Dead()
    if isinstance(o, Opaque):
      return Opaque(o.tag + '.' + name)
    v = self.models.value_attr(self, o, name)
    if v is None:
      self.raise_('AttributeError', "'%s' object has no attribute '%s'" % (self.models.type_name(self, o), name))
      raise Dead()
    return v

  def class_attr(self, c, name):
    v, owner = c.lookup(name)
    if owner is None:
      v = self.models.class_special(self, c, name)
      if v is not None: return v
      self.raise_('AttributeError', "type object '%s' has no attribute '%s'" % (c.name, name))
      raise Dead()
    if isinstance(v, StaticM): return v.func
    if isinstance(v, ClassM): return Bound(v.func, c)
    return v

  def obj_attr(self, o, name):
    c = o.cls
    cv, owner = c.lookup(name)
    if isinstance(cv, PropertyV) and not (c.oldstyle and name in o.attrs):
      return self.call(cv.fget, [o], {})
    v = o.attrs.get(name, UNDEF)
    B = self.B
    if v is not UNDEF:
      if isinstance(v, Union):
        und = FALSE
        rest = []
        for g, x in v.alts:
          if B.AND(self.live, g) == 0: continue
          if x is UNDEF: und = B.OR(und, g)
          else: rest.append((g, x))
        if und:
          if not rest: return self.class_fallback(o, name, cv, owner)
          return self.fork([(und, 0), (B.NOT(und), 1)],
                           lambda k: self.pick(Union(tuple(rest))) if k else self.class_fallback(o, name, cv, owner))
        if len(rest) == 1: return rest[0][1]
        if not rest: raise Dead()
        if len(rest) != len(v.alts): return Union(tuple(rest))
      return v
    return self.class_fallback(o, name, cv, owner)

  def class_fallback(self, o, name, cv, owner):
    if owner is not None: return self.bind(cv, o, owner)
    v = self.models.obj_native_attr(self, o, name)
    if v is not None: return v
    ga, gowner = o.cls.lookup('__getattr__')
    if ga is not None: return self.call(self.bind(ga, o, gowner), [name], {})
    self.raise_('AttributeError', "'%s' object has no attribute '%s'" % (o.cls.name, name))
    raise Dead()

  def set_attr(self, o, name, v):
    if isinstance(o, Union):
      return self.split(o, lambda x: self.set_attr(x, name, v))
    if isinstance(o, Obj):
      cv, owner = o.cls.lookup(name)
      if isinstance(cv, PropertyV) and not o.cls.oldstyle:
        if cv.fset is None:
          self.raise_('AttributeError', "can't set attribute %s" % name)
          raise Dead()
        self.call(cv.fset, [o, v], {})
        return
      if self.blob_ctx: raise Unsupported("attribute store in a loop over unknown data")
      self.note_mutation(o, name)
      if self.models.native_set(self, o, name, v): return
      B = self.B
      if B.AND(o.alloc, B.NOT(self.live)) == 0:
        o.attrs[name] = v
      else:
        o.attrs[name] = self.ite_val(B.CONSTRAIN(self.live, o.alloc), v, o.attrs.get(name, UNDEF))
      return
    if isinstance(o, ClassV):
      if o.epoch < self.epoch: self.mutations.append((self.live, o, name, self.loc(), self.stack()))
      o.ns[name] = v
      return
    if isinstance(o, ModuleV):
      if self.epoch > 0: self.mutations.append((self.live, o, name, self.loc(), self.stack()))
      o.ns[name] = v
      return
    if isinstance(o, FuncV):
      o.attrs[name] = v
      return
    if isinstance(o, Opaque):
      self.event('opaque_set', obj=o, name=name, value=v)
      return
    self.raise_('AttributeError', "'%s' object has no attribute '%s'" % (self.models.type_name(self, o), name))
    raise Dead()

  # ------------------------------------------------------------------ items
  def get_item(self, o, k):
    if isinstance(k, SliceV):
      return self.split(o, lambda x: self.models.get_slice(self, x, k))
    return self.splits([o, k], lambda x, y: self.models.get_item(self, x, y))

  def set_item(self, o, k, v):
    def one(x):
      if isinstance(x, DictV): return self.dict_set(x, k, v)
      return self.models.set_item(self, x, k, v)
    self.split(o, one)

  # ------------------------------------------------------------------ iteration
  def elements(self, v):
    """alternatives (guard, entries) of an iterable"""
    if isinstance(v, ListV):
      if v.kind == 'iter': pass
      return self.list_live(v)
    if isinstance(v, tuple): return [(TRUE, v)]
    if isinstance(v, str): return [(TRUE, tuple(v))]
    if isinstance(v, SStr):
      return [(g, tuple(self.char_of(x) for x in e)) for g, e in v.alts if self.may(g)]
    if isinstance(v, DictV): return self.dict_keys(v)
    if isinstance(v, GenV): return self.run_gen(v)
    if isinstance(v, Union):
      out = []
      for g, x in v.alts:
        if not self.may(g): continue
        saved = self.live
        self.live = self.AND(saved, g)
        try:
          for h, e in self.elements(x): out.append((self.AND(g, h), e))
          after = self.live
        except Dead:
          after = FALSE
        self.live = self.OR(after, self.AND(saved, self.NOT(g)))
      if self.live == 0: raise Dead()
      return out
    if isinstance(v, Obj):
      m, owner = v.cls.lookup('__iter__')
      if m is not None:
        r = self.call(self.bind(m, v, owner), [], {})
        return self.elements(r)
      m, owner = v.cls.lookup('__getitem__')
      if m is not None: raise Unsupported("sequence protocol")
      r = self.models.obj_iter(self, v)
      if r is not None: return r
    if isinstance(v, ClassV) and v.is_enum:
      return [(TRUE, tuple(m for m in v.members))]
    if isinstance(v, Opaque): raise Unsupported("iteration over %s" % v.tag)
    if isinstance(v, SText): raise Unsupported("iteration over text")
    if isinstance(v, Opaques): raise Unsupported("iteration over unknown run")
    self.raise_('TypeError', "'%s' object is not iterable" % self.models.type_name(self, v))
    raise Dead()

  def char_of(self, x):
    if isinstance(x, Blob): return Blob2(x.base, x.start, x.length, True)
    if isinstance(x, int): return chr(x)
    return SStr(((TRUE, (x,)),))

  def dict_keys(self, d, what='k'):
    alts = [(TRUE, ())]
    B = self.B
    for key, (k, v) in d.items.items():
      def item(val):
        return k if what == 'k' else val if what == 'v' else (k, val)
      present = TRUE
      val = v
      if v is UNDEF: continue
      if isinstance(v, Union):
        present = FALSE
        defd = []
        for g, x in v.alts:
          if x is not UNDEF:
            present = B.OR(present, g)
            if self.may(g): defd.append((g, x))
        val = Union(tuple(defd)) if len(defd) > 1 else (defd[0][1] if defd else UNDEF)
      if not self.may(present): continue
      if self.must(present):
        alts = [(g, e + (item(val),)) for g, e in alts]
      else:
        alts = self.norm_seq([(B.AND(g, present), e + (item(val),)) for g, e in alts] + [(B.AND(g, B.NOT(present)), e) for g, e in alts])
    return [(g, e) for g, e in alts if self.may(g)]

  def run_gen(self, gen):
    if gen.result is None:
      gen.result = gen.thunk()
    if gen.used is not None and self.AND(gen.used, self.live) != 0:
      # exhausted generator
      fresh = self.AND(self.live, self.NOT(gen.used))
      out = [(self.AND(g, self.NOT(gen.used)), e) for g, e in self.list_live(gen.result)] + [(gen.used, ())]
      return [(g, e) for g, e in out if self.may(g)]
    gen.used = self.OR(gen.used or FALSE, self.live)
    return self.list_live(gen.result)

  # ------------------------------------------------------------------ calls
  def call(self, fn, args, kwargs):
    if isinstance(fn, Union):
      return self.split(fn, lambda f: self.call(f, args, kwargs))
    if isinstance(fn, Bound):
      return self.call(fn.func, [fn.self] + list(args), kwargs) if not isinstance(fn.func, ClassM) else self.call(fn.func.func, [fn.self] + list(args), kwargs)
    if isinstance(fn, FuncV): return self.call_func(fn, args, kwargs)
    if isinstance(fn, ClassV): return self.instantiate(fn, args, kwargs)
    if isinstance(fn, Native): return self.call_native(fn, args, kwargs)
    if isinstance(fn, StaticM): return self.call(fn.func, args, kwargs)
    if isinstance(fn, Opaque):
      self.event('opaque_call', fn=fn.tag, args=args, kwargs=kwargs)
      return self.models.call_opaque(self, fn, args, kwargs)
    if isinstance(fn, Obj):
      m, owner = fn.cls.lookup('__call__')
      if m is not None: return self.call(self.bind(m, fn, owner), args, kwargs)
    self.raise_('TypeError', "'%s' object is not callable" % self.models.type_name(self, fn))
    raise Dead()

  def call_native(self, fn, args, kwargs):
    if fn.lift:
      n = len(args)
      keys = list(kwargs)
      return self.splits(list(args) + [kwargs[k] for k in keys],
                         lambda *vs: fn.fn(self, list(vs[:n]), dict(zip(keys, vs[n:]))))
    return fn.fn(self, list(args), dict(kwargs))

  def instantiate(self, cls, args, kwargs):
    if cls.ctor is not None: return cls.ctor(self, cls, args, kwargs)
    if cls.is_enum: return self.models.enum_call(self, cls, args, kwargs)
    for c in cls.mro:
      if c.ctor is not None and c.native and c.name != 'object':
        # subclass of a modelled library class
        o = c.ctor(self, cls, None, None)
        break
    else:
      o = self.new_obj(cls)
      self.models.prepare_object(self, o, cls, args, kwargs)
    m, owner = cls.lookup('__init__')
    if m is not None:
      self.call(self.bind(m, o, owner), args, kwargs)
    else:
      if not self.models.default_init(self, o, args, kwargs) and (args or kwargs):
        self.type_error("object() takes no parameters")
    return o

  def bind_params(self, fn, args, kwargs):
    a = fn.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    vals = {}
    args = list(args)
    kwargs = dict(kwargs)
    nd = len(fn.defaults)
    for i, nm in enumerate(names):
      if i < len(args):
        if nm in kwargs:
          self.type_error("%s() got multiple values for argument '%s'" % (fn.name, nm))
        vals[nm] = args[i]
      elif nm in kwargs:
        vals[nm] = kwargs.pop(nm)
      else:
        j = i - (len(names) - nd)
        if j < 0:
          self.type_error("%s() takes at least %d arguments (%s missing)" % (fn.name, len(names) - nd, nm))
        vals[nm] = fn.defaults[j]
    extra = args[len(names):]
    if a.vararg: vals[a.vararg.arg] = tuple(extra)
    elif extra:
      self.type_error("%s() takes at most %d arguments (%d given)" % (fn.name, len(names), len(args)))
    for x, d in zip(a.kwonlyargs, fn.kwdefaults_ if hasattr(fn, 'kwdefaults_') else []):
      pass
    if a.kwarg:
      d = self.new_dict()
      for k, v in kwargs.items(): d.items[('s', k)] = [k, v]
      vals[a.kwarg.arg] = d
    elif kwargs:
      self.type_error("%s() got an unexpected keyword argument '%s'" % (fn.name, sorted(kwargs)[0]))
    return vals

  def call_func(self, fn, args, kwargs):
    if len(self.frames) > 60: raise Unsupported("call depth")
    hook = self.hooks.get(fn.qualname)
    if hook is not None:
      r = hook(self, fn, args, kwargs)
      if r is not NotImplemented: return r
    self.funcs_seen.add((fn.module.name, fn.qualname))
    vals = self.bind_params(fn, args, kwargs)
    names, glob, gen = fn_locals(fn.node)
    if gen:
      cell = GenV(None)
      alloc = self.live
      def thunk():
        return self.run_body(fn, vals, names, glob, True)
      cell.thunk = thunk
      return cell
    return self.run_body(fn, vals, names, glob, False)

  def run_body(self, fn, vals, names, glob, gen):
    f = Frame(fn.qualname, fn.module, self.live, closure=fn.closure, cls=fn.cls, localnames=names)
    f.globalnames = set(glob)
    f.vars.update(vals)
    if fn.node.args.args: f.selfobj = vals.get(fn.node.args.args[0].arg)
    f.line = fn.node.lineno
    if gen: f.gen = self.new_list((), 'gen')
    self.frames.append(f)
    B = self.B
    saved_ctx = self.blob_ctx
    entry = self.live
    try:
      try:
        if isinstance(fn.node, ast.Lambda):
          v = self.ev(fn.node.body)
          f.ret.append((self.live, v))
        else:
          self.block(fn.node.body)
          f.ret.append((self.live, None))
      except Dead:
        pass
    finally:
      self.frames.pop()
    out = FALSE
    for g, v in f.ret: out = B.OR(out, g)
    self.live = out
    if out == 0: raise Dead()
    if gen: return f.gen
    if len(f.ret) == 1: return f.ret[0][1]
    # guards relative to the entry keep the joined values small
    return self.merge_all([(B.CONSTRAIN(g, entry), v) for g, v in f.ret])

  # ------------------------------------------------------------------ entry points for checks
  def run(self, thunk):
    """evaluate thunk() as an analysis entry: returns (live, value, thrown)"""
    sink = []
    saved_live, saved_frames = self.live, list(self.frames)
    self.sinks.append(sink)
    if not self.frames:
      self.frames.append(Frame('<entry>', self.entry_module(), self.live))
    f = self.frames[-1]
    f.trydepth += 1
    try:
      try:
        v = thunk()
        out = self.live
      except Dead:
        v, out = UNDEF, FALSE
    finally:
      self.sinks.pop()
      f.trydepth -= 1
      self.frames = saved_frames
    self.live = saved_live
    return out, v, sink

  def entry_module(self):
    m = self.modules.get('<entry>')
    if m is None:
      m = ModuleV('<entry>', None)
      self.modules['<entry>'] = m
    return m


class Blob2(Blob):
  """blob whose elements are one-character strings or integers, as told by ch"""
  __slots__ = ('ch',)
  def __init__(self, base, start, length, ch):
    Blob.__init__(self, base, start, length)
    self.ch = ch


class SFloat(object):
  """exact rational num/den of an unknown integer"""
  __slots__ = ('num', 'den')
  def __init__(self, num, den): self.num, self.den = num, den
  def __repr__(self): return "SFloat(%r/%d)" % (self.num, self.den)


class ImportProblem(Exception):
  def __init__(self, m, thrown, it):
    self.module, self.thrown = m, thrown
    e = thrown.exc
    msg = ''
    if isinstance(e, Obj):
      a = e.attrs.get('args')
      msg = "%s%r" % (e.cls.name, a)
    Exception.__init__(self, "importing %s raises %s at %s" % (m.name, msg, thrown.loc))
