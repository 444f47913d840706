"""Abstract inputs (arbitrary arguments, arbitrary accepted objects, arbitrary byte strings) and structural comparison."""
from .bdd import TRUE, FALSE
from .values import *
from .interp import Unsupported, Dead, Opaques, SFloat, Blob2


class World(object):
  """one analysis: an interpreter plus the unknown inputs it was given"""
  def __init__(self, it):
    self.it = it
    self.count = 0
    self.refused = []

  def cls(self, qual):
    mod, name = qual.rsplit('.', 1)
    m = self.it.load(mod)
    c = m.ns.get(name)
    if c is None: raise Missing("%s is no longer defined in %s" % (name, mod))
    return c

  # -------------------------------------------------------------- scalars
  def uint(self, label, width): return self.it.new_int(label, width)
  def sint(self, label, width): return self.it.new_int(label, width, signed=True)
  def bool(self, label): return self.it.new_bool(label)

  def interleaved(self, *specs):
    """unsigned numbers [(label, width)] whose bits alternate in the variable order (cheap to compare and to add)"""
    it = self.it
    top = max(n for _, n in specs)
    bits = [[None] * n for _, n in specs]
    for i in reversed(range(top)):
      for j, (label, n) in enumerate(specs):
        if i < n: bits[j][i] = it.B.new_var(label, i, label.startswith('~'))
    return [it.norm_int(tuple(b) + (FALSE,)) for b in bits]

  def run_of(self, label, length, pos=None):
    """run of unknown bytes of the given length; pos: number standing for a position searched in it"""
    base = BlobBase(label)
    if pos is not None: self.it.fresh[('position', id(base))] = (base, pos)
    return Blob(base, 0, length)

  def byte(self, label): return self.uint(label, 8)

  def member(self, cls, label, members=None):
    """an arbitrary member of an enumeration"""
    ms = members or list(cls.members)
    return self.choice(label, ms)

  def choice(self, label, vals):
    it = self.it
    vals = list(vals)
    if len(vals) == 1: return vals[0]
    B = it.B
    sel = []
    rest = TRUE
    for i, v in enumerate(vals[:-1]):
      b = B.new_var('%s=%s?' % (label, nameof(v)), 0)
      sel.append((B.AND(rest, b), v)); rest = B.AND(rest, B.NOT(b))
    sel.append((rest, vals[-1]))
    return it.merge_all(sel)

  def blob(self, label, minlen=0, maxlen=None, width=31, ch=None, elem=None):
    """entries of a run of unknown length and content; constrains nothing by itself"""
    it = self.it
    base = BlobBase(label)
    n, pos = self.interleaved(('len(%s)' % label, width), ('~position in %s' % label, width))
    it.fresh[('position', id(base))] = (base, pos)
    if ch is None: return Blob(base, 0, n)
    return Blob2(base, 0, n, ch)

  def bytelist(self, label, width=31):
    return self.it.new_list((self.blob(label, width=width),))

  def stream(self, entries):
    it = self.it
    C = it.load('bitstring').ns.get('ConstBitStream') if False else None
    ba = it.new_list(tuple(entries), 'bytearray')
    from . import models
    return models.stream_ctor(it, models.STREAM, [ba], {})

  def rest_of(self, stream):
    """[(guard, unread entries, bit offset, position)]"""
    return [(s.g, s.rest, s.off, s.pos) for s in stream.native['states'] if self.it.may(s.g)]

  def assume(self, node):
    self.it.live = self.it.AND(self.it.live, node)
    return self.it.live != 0


class Missing(Exception):
  pass


def nameof(v):
  if isinstance(v, Obj) and v.cls.is_enum: return str(v.attrs.get('_name_', v.cls.name))
  if isinstance(v, Obj): return v.cls.name
  if isinstance(v, ClassV): return v.name
  if isinstance(v, (int, str, float)) or v is None: return repr(v)
  if isinstance(v, ListV): return 'list'
  if isinstance(v, (SI, LI)): return 'int'
  if isinstance(v, SB): return 'bool'
  if isinstance(v, (SStr, SText)): return 'text'
  return type(v).__name__


# ------------------------------------------------------------------ narrowing
def narrow_int(it, v):
  """drop the high bits that repeat the sign in every state considered"""
  B, live, b = it.B, it.live, v.bits
  n = len(b)
  while n > 1 and B.AND(live, B.XOR(b[n - 1], b[n - 2])) == 0: n -= 1
  b = list(b[:n])
  if B.AND(live, b[-1]) == 0: b[-1] = 0
  elif B.AND(live, B.NOT(b[-1])) == 0: b[-1] = 1
  return it.norm_int(b)


def narrow_value(it, v, memo):
  if isinstance(v, SI): return narrow_int(it, v)
  if isinstance(v, Union):
    out, saved = [], it.live
    for g, x in v.alts:
      it.live = it.AND(saved, g)
      if it.live == 0: continue
      out.append((g, narrow_value(it, x, memo)))
    it.live = saved
    if not out: return v
    if len(out) == 1: return out[0][1]
    return Union(out)
  if isinstance(v, Obj) and not v.cls.is_enum and id(v) not in memo:
    memo[id(v)] = v
    for k in list(v.attrs): v.attrs[k] = narrow_value(it, v.attrs[k], memo)
  elif isinstance(v, ListV) and id(v) not in memo:
    memo[id(v)] = v
    saved = it.live
    alts = []
    for g, e in v.alts:
      it.live = it.AND(saved, g)
      if it.live == 0: continue
      alts.append((g, tuple(x if isinstance(x, (Blob, Opaques)) else narrow_value(it, x, memo) for x in e)))
    it.live = saved
    if alts: v.alts = alts
  return v


# ------------------------------------------------------------------ bytes of an object
def to_bytes(it, o):
  """bytearray(o)"""
  from . import models
  return it.split(o, lambda x: models.bytearray_ctor(it, models.BYTEARRAY, [x], {}))


def diff(it, x, y, path='', out=None, seen=None, skip=(), depth=0):
  """[(guard, path, description)]: where the structure of x and y can differ (guards inside the live region)"""
  if out is None: out = []
  if seen is None: seen = set()
  B = it.B
  if x is y: return out
  if isinstance(x, Union) or isinstance(y, Union):
    saved = it.live
    for g, p in it.alts(x):
      for h, q in it.alts(y):
        gh = B.AND(saved, B.AND(g, h))
        if gh == 0: continue
        it.live = gh
        diff(it, p, q, path, out, set(), skip, depth)
    it.live = saved
    return out
  def bad(g, why):
    g = B.AND(it.live, g)
    if g: out.append((g, path, why))
  if x is UNDEF or y is UNDEF:
    bad(TRUE, "%s vs %s" % (nameof(x), nameof(y))); return out
  if isinstance(x, Obj) and isinstance(y, Obj):
    if (id(x), id(y)) in seen: return out
    seen.add((id(x), id(y)))
    if x.cls is not y.cls:
      bad(TRUE, "%s vs %s" % (x.cls.name, y.cls.name)); return out
    if x.cls.is_enum:
      bad(TRUE, "%s.%s vs %s.%s" % (x.cls.name, nameof(x), y.cls.name, nameof(y))); return out
    if depth > 20: raise Unsupported("structure too deep")
    for k in sorted(set(x.attrs) | set(y.attrs)):
      if k in skip: continue
      diff(it, x.attrs.get(k, UNDEF), y.attrs.get(k, UNDEF), path + '.' + k, out, seen, skip, depth + 1)
    return out
  if isinstance(x, ListV) and isinstance(y, ListV):
    if x.kind != y.kind: bad(TRUE, "%s vs %s" % (x.kind, y.kind)); return out
    seqdiff(it, it.list_live(x), it.list_live(y), path, out, seen, skip, depth); return out
  if isinstance(x, (str, SStr)) and isinstance(y, (str, SStr)):
    if isinstance(x, str) and isinstance(y, str):
      if x != y: bad(TRUE, "%r vs %r" % (x, y))
      return out
    seqdiff(it, it.seq_entries(x), it.seq_entries(y), path, out, seen, skip, depth); return out
  if isinstance(x, tuple) and isinstance(y, tuple):
    seqdiff(it, [(TRUE, x)], [(TRUE, y)], path, out, seen, skip, depth); return out
  if isinstance(x, DictV) and isinstance(y, DictV):
    for k in set(x.items) | set(y.items):
      diff(it, x.items.get(k, [0, UNDEF])[1], y.items.get(k, [0, UNDEF])[1], path + '[%s]' % (k,), out, seen, skip, depth + 1)
    return out
  if it.is_intlike(x) and it.is_intlike(y):
    bad(it.ne_witness(x, y), "%s vs %s" % (show(it, x), show(it, y))); return out
  if isinstance(x, (SFloat, float)) or isinstance(y, (SFloat, float)):
    bad(it.NOT(it.eq_node(x, y)), "number differs"); return out
  if isinstance(x, SText) and isinstance(y, SText):
    bad(it.NOT(it.eq_node(x, y)), "text differs"); return out
  if isinstance(x, ClassV) or isinstance(y, ClassV):
    bad(TRUE, "%s vs %s" % (nameof(x), nameof(y))); return out
  if x is None or y is None:
    bad(TRUE, "%s vs %s" % (nameof(x), nameof(y))); return out
  if isinstance(x, Blob) and isinstance(y, Blob):
    if it.shape((x,)) == it.shape((y,)): return out
  if type(x) is not type(y):
    bad(TRUE, "%s vs %s" % (nameof(x), nameof(y))); return out
  bad(it.soft_bool('difference', (id(x), id(y))).node, "%s vs %s" % (nameof(x), nameof(y)))
  return out


def seqdiff(it, aa, bb, path, out, seen, skip, depth):
  B = it.B
  saved = it.live
  for g, e in aa:
    for h, f in bb:
      gh = B.AND(saved, B.AND(g, h))
      if gh == 0: continue
      it.live = gh
      se, sf = strip_blobs(it, e), strip_blobs(it, f)
      if len(se) == len(sf) and all(isinstance(p, (Blob, Opaques)) == isinstance(q, (Blob, Opaques)) for p, q in zip(se, sf)) and \
         all(not isinstance(p, (Blob, Opaques)) or it.shape((p,)) == it.shape((q,)) for p, q in zip(se, sf)):
        for i, (p, q) in enumerate(zip(se, sf)):
          if isinstance(p, (Blob, Opaques)): continue
          diff(it, p, q, path + '[%d]' % i, out, seen, skip, depth + 1)
      elif not any(isinstance(p, (Blob, Opaques)) for p in se + sf):
        out.append((it.live, path, "length %d vs %d" % (len(se), len(sf))))
      else:
        try: n = it.NOT(it.eq_int(it.entries_len(se), it.entries_len(sf)))
        except Unsupported: n = TRUE if False else it.soft_bool('length', (it.shape(se), it.shape(sf))).node
        bad = B.AND(it.live, n)
        if bad: out.append((bad, path, "length differs"))
        ok = B.AND(it.live, it.NOT(n))
        if ok:
          it.live = ok
          eq = it.eq_entries(se, sf)
          b2 = B.AND(ok, it.NOT(eq))
          if b2: out.append((b2, path, "content differs"))
  it.live = saved


def strip_blobs(it, e):
  """drop runs that are certainly empty"""
  out = []
  for x in e:
    if isinstance(x, Blob) and it.must(it.eq_int(x.length, 0)): continue
    out.append(x)
  return tuple(out)


def show(it, v):
  if isinstance(v, int): return str(v)
  if isinstance(v, SI):
    return "int(%s)" % it.B.describe(it.live, 3) if False else "int%d" % len(v.bits)
  return nameof(v)
