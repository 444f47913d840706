"""Reduced ordered Boolean functions: the per-bit component of the abstract domain.

Every bit of every abstract value is a Boolean function of the unknown input bits; two bits are equal exactly when
they are the same node, so comparing abstract values needs no search.
"""
import sys
sys.setrecursionlimit(1000000)


class TooBig(Exception):
  pass


FALSE, TRUE = 0, 1


class BDD(object):
  def __init__(self, limit=6000000):
    self.var = [1 << 60, 1 << 60]
    self.lo = [0, 1]
    self.hi = [0, 1]
    self.unique = {}
    self.cache = {}
    self.names = []          # var index -> (label, bit)
    self.soft = set()        # variables that stand for an over-approximation (value not tied to an input)
    self.limit = limit
    self._supp = {}

  # -- variables
  def new_var(self, label, bit=0, soft=False):
    i = len(self.names)
    self.names.append((label, bit))
    if soft: self.soft.add(i)
    return self.mk(i, 0, 1)

  def mk(self, v, lo, hi):
    if lo == hi: return lo
    key = (v, lo, hi)
    n = self.unique.get(key)
    if n is None:
      n = len(self.var)
      if n > self.limit: raise TooBig()
      self.var.append(v); self.lo.append(lo); self.hi.append(hi)
      self.unique[key] = n
    return n

  # -- operations
  def NOT(self, f):
    if f < 2: return 1 - f
    k = ('n', f)
    r = self.cache.get(k)
    if r is None:
      r = self.mk(self.var[f], self.NOT(self.lo[f]), self.NOT(self.hi[f]))
      self.cache[k] = r
      self.cache[('n', r)] = f
    return r

  def AND(self, f, g):
    if f == g: return f
    if f == 0 or g == 0: return 0
    if f == 1: return g
    if g == 1: return f
    if f > g: f, g = g, f
    k = ('a', f, g)
    r = self.cache.get(k)
    if r is not None: return r
    vf, vg = self.var[f], self.var[g]
    if vf == vg:
      r = self.mk(vf, self.AND(self.lo[f], self.lo[g]), self.AND(self.hi[f], self.hi[g]))
    elif vf < vg:
      r = self.mk(vf, self.AND(self.lo[f], g), self.AND(self.hi[f], g))
    else:
      r = self.mk(vg, self.AND(f, self.lo[g]), self.AND(f, self.hi[g]))
    self.cache[k] = r
    return r

  def OR(self, f, g):
    if f == g: return f
    if f == 1 or g == 1: return 1
    if f == 0: return g
    if g == 0: return f
    return self.NOT(self.AND(self.NOT(f), self.NOT(g)))

  def XOR(self, f, g):
    if f == g: return 0
    if f == 0: return g
    if g == 0: return f
    if f == 1: return self.NOT(g)
    if g == 1: return self.NOT(f)
    if f > g: f, g = g, f
    k = ('x', f, g)
    r = self.cache.get(k)
    if r is not None: return r
    vf, vg = self.var[f], self.var[g]
    if vf == vg:
      r = self.mk(vf, self.XOR(self.lo[f], self.lo[g]), self.XOR(self.hi[f], self.hi[g]))
    elif vf < vg:
      r = self.mk(vf, self.XOR(self.lo[f], g), self.XOR(self.hi[f], g))
    else:
      r = self.mk(vg, self.XOR(f, self.lo[g]), self.XOR(f, self.hi[g]))
    self.cache[k] = r
    return r

  def ITE(self, c, f, g):
    if c == 1: return f
    if c == 0: return g
    if f == g: return f
    if f == 1 and g == 0: return c
    if f == 0 and g == 1: return self.NOT(c)
    if f == 1: return self.OR(c, g)
    if f == 0: return self.AND(self.NOT(c), g)
    if g == 0: return self.AND(c, f)
    if g == 1: return self.OR(self.NOT(c), f)
    k = ('i', c, f, g)
    r = self.cache.get(k)
    if r is not None: return r
    vc, vf, vg = self.var[c], self.var[f], self.var[g]
    v = min(vc, vf, vg)
    c0, c1 = (self.lo[c], self.hi[c]) if vc == v else (c, c)
    f0, f1 = (self.lo[f], self.hi[f]) if vf == v else (f, f)
    g0, g1 = (self.lo[g], self.hi[g]) if vg == v else (g, g)
    r = self.mk(v, self.ITE(c0, f0, g0), self.ITE(c1, f1, g1))
    self.cache[k] = r
    return r

  def CONSTRAIN(self, f, c):
    """A function equal to f wherever c holds (generalised cofactor), usually smaller."""
    if c == 1 or f < 2: return f
    if c == 0: return 0
    if f == c: return 1
    k = ('c', f, c)
    r = self.cache.get(k)
    if r is not None: return r
    vf, vc = self.var[f], self.var[c]
    if vc < vf:
      # restrict: drop the variable f does not depend on
      c2 = self.OR(self.lo[c], self.hi[c])
      r = self.CONSTRAIN(f, c2)
    else:
      f0, f1 = self.lo[f], self.hi[f]
      c0, c1 = (self.lo[c], self.hi[c]) if vc == vf else (c, c)
      if c1 == 0: r = self.CONSTRAIN(f0, c0)
      elif c0 == 0: r = self.CONSTRAIN(f1, c1)
      else: r = self.mk(vf, self.CONSTRAIN(f0, c0), self.CONSTRAIN(f1, c1))
    self.cache[k] = r
    return r

  def IMPLIES(self, f, g):
    """does f imply g?"""
    return self.AND(f, self.NOT(g)) == 0

  def quant(self, f, pred, universal):
    memo = {}
    def rec(n):
      if n < 2: return n
      r = memo.get(n)
      if r is not None: return r
      l, h = rec(self.lo[n]), rec(self.hi[n])
      if pred(self.var[n]):
        r = self.AND(l, h) if universal else self.OR(l, h)
      else:
        r = self.mk(self.var[n], l, h)
      memo[n] = r
      return r
    return rec(f)

  def definite(self, f):
    """the part of f that does not hinge on the value of an over-approximated variable"""
    if not self.soft: return f
    if not (self.support(f) & self.soft): return f
    return self.quant(f, lambda v: v in self.soft, True)

  def support(self, f):
    seen = set(); out = set(); st = [f]
    while st:
      n = st.pop()
      if n < 2 or n in seen: continue
      seen.add(n)
      out.add(self.var[n])
      st.append(self.lo[n]); st.append(self.hi[n])
    return out

  def size(self, f):
    seen = set(); st = [f]
    while st:
      n = st.pop()
      if n < 2 or n in seen: continue
      seen.add(n); st.append(self.lo[n]); st.append(self.hi[n])
    return len(seen)

  def witness(self, f):
    """one assignment {var: bool} of f, preferring zero"""
    out = {}
    while f > 1:
      if self.lo[f] != 0:
        out[self.var[f]] = False; f = self.lo[f]
      else:
        out[self.var[f]] = True; f = self.hi[f]
    return out if f == 1 else None

  def describe(self, f, maxn=8):
    """human readable sample of the inputs described by f"""
    w = self.witness(f)
    if w is None: return "infeasible"
    d = {}
    for v, b in w.items():
      label, bit = self.names[v]
      d.setdefault(label, {})[bit] = b
    out = []
    for label in list(d)[:200]:
      bits = d[label]
      if set(bits) == {0} and label.endswith('?'):
        out.append("%s%s" % ('' if bits[0] else 'not ', label))
      else:
        val = sum(1 << i for i, b in bits.items() if b)
        out.append("%s=0x%x" % (label, val))
    s = ", ".join(out[:maxn])
    if len(out) > maxn: s += ", ..."
    return s or "always"
