"""Abstract values."""


class Undef(object):
  def __repr__(self): return "<undef>"
UNDEF = Undef()


class SI(object):
  """integer, two's complement, least significant bit first, last bit is the sign; every bit a Boolean function"""
  __slots__ = ('bits',)
  def __init__(self, bits): self.bits = bits
  def __repr__(self): return "SI%d" % len(self.bits)


class SApart(SI):
  """an integer that is not joined with others: the position found by a search, which decides what is cut off"""
  __slots__ = ()


class LI(object):
  """linear combination of integers, used for lengths that are not tracked per bit"""
  __slots__ = ('terms', 'const')
  def __init__(self, terms, const):
    self.terms = terms      # sorted tuple of (coeff, base id)
    self.const = const
  def __repr__(self): return "LI%r+%d" % (self.terms, self.const)


class SB(object):
  __slots__ = ('node',)
  def __init__(self, node): self.node = node
  def __repr__(self): return "SB%d" % self.node


class Union(object):
  """value depending on the control-flow partition: disjoint guards"""
  __slots__ = ('alts',)
  def __init__(self, alts): self.alts = alts
  def __repr__(self): return "U" + repr([v for g, v in self.alts])


class Blob(object):
  """a run of bytes of unknown length and content inside a byte sequence"""
  __slots__ = ('base', 'start', 'length')
  def __init__(self, base, start, length):
    self.base, self.start, self.length = base, start, length
  def __repr__(self): return "Blob(%s)" % (self.base.name,)


class BlobBase(object):
  def __init__(self, name, kind='bytes'):
    self.name = name
    self.kind = kind
    self.bytes = {}          # start key -> byte value


class BlobElem(object):
  """the generic element of a blob inside a loop over it"""
  __slots__ = ('blob', 'conv')
  def __init__(self, blob, conv=None): self.blob, self.conv = blob, conv


class SStr(object):
  """Python 2 byte string: alternatives of (guard, entries); entries are byte values or blobs"""
  __slots__ = ('alts',)
  def __init__(self, alts): self.alts = alts
  def __repr__(self): return "SStr%r" % ([len(e) for g, e in self.alts],)


class SText(object):
  """text containing formatted unknown values: parts are str or ('fmt', spec, value)"""
  __slots__ = ('parts',)
  def __init__(self, parts): self.parts = parts
  def __repr__(self): return "SText%r" % (self.parts,)


class ListV(object):
  """list / bytearray / generator result; alternatives of (guard, entries)"""
  __slots__ = ('kind', 'alts', 'alloc', 'epoch', 'origin', 'owner', 'frozen')
  def __init__(self, kind, alts, alloc, epoch=0, origin=None):
    self.kind, self.alts, self.alloc, self.epoch, self.origin = kind, alts, alloc, epoch, origin
    self.owner = None
  def __repr__(self): return "%s%r" % (self.kind, [e for g, e in self.alts])


class DictV(object):
  __slots__ = ('items', 'alloc', 'epoch', 'origin', 'owner')
  def __init__(self, alloc, epoch=0, origin=None):
    self.items = {}          # hashable key -> [key value, value]
    self.alloc, self.epoch, self.origin = alloc, epoch, origin
    self.owner = None
  def __repr__(self): return "dict%r" % (list(self.items),)


class SetV(DictV):
  pass


class Obj(object):
  __slots__ = ('cls', 'attrs', 'alloc', 'epoch', 'origin', 'native', 'owner', 'label')
  def __init__(self, cls, alloc, epoch=0, origin=None):
    self.cls = cls
    self.attrs = {}
    self.alloc, self.epoch, self.origin = alloc, epoch, origin
    self.native = None
    self.owner = None
    self.label = None
  def __repr__(self): return "<%s>" % (self.cls.name,)


class ClassV(object):
  def __init__(self, name, bases, ns, module, node=None, oldstyle=False, native=False):
    self.name, self.bases, self.ns, self.module, self.node = name, bases, ns, module, node
    self.oldstyle = oldstyle
    self.native = native
    self.is_enum = any(getattr(b, 'is_enum', False) for b in bases)
    self.members = []
    self.ctor = None         # native constructor
    self.mro = compute_mro(self)
    self.epoch = 0
  @property
  def qualname(self):
    return (self.module.name + '.' if self.module is not None else '') + self.name
  def __repr__(self): return "<class %s>" % self.name
  def lookup(self, name):
    for c in self.mro:
      if name in c.ns: return c.ns[name], c
    return None, None
  def issub(self, other):
    return other in self.mro


def compute_mro(c):
  if c.oldstyle or all(b.oldstyle for b in c.bases) and c.bases and not c.native:
    out = [c]
    for b in c.bases:
      for x in b.mro:
        if x not in out: out.append(x)
    return out
  seqs = [list(b.mro) for b in c.bases] + [list(c.bases)]
  out = [c]
  while True:
    seqs = [s for s in seqs if s]
    if not seqs: return out
    for s in seqs:
      cand = s[0]
      if not any(cand in t[1:] for t in seqs): break
    else:
      # inconsistent (mixing old style classes): fall back to depth first
      out = [c]
      for b in c.bases:
        for x in b.mro:
          if x in out: out.remove(x)
          out.append(x)
      return out
    out.append(cand)
    for s in seqs:
      if s[0] is cand: del s[0]


class FuncV(object):
  def __init__(self, node, module, name, closure, defaults, kwdefaults=None, cls=None):
    self.node, self.module, self.name, self.closure, self.defaults = node, module, name, closure, defaults
    self.cls = cls
    self.is_gen = False
    self.attrs = {}
  @property
  def qualname(self):
    return (self.cls.name + '.' if self.cls is not None else '') + self.name
  def __repr__(self): return "<function %s>" % self.qualname


class Bound(object):
  __slots__ = ('func', 'self')
  def __init__(self, func, self_): self.func, self.self = func, self_
  def __repr__(self): return "<bound %r>" % (self.func,)


class StaticM(object):
  def __init__(self, func): self.func = func
class ClassM(object):
  def __init__(self, func): self.func = func
class PropertyV(object):
  def __init__(self, fget, fset=None): self.fget, self.fset = fget, fset


class Native(object):
  """modelled library function: fn(interp, args, kwargs)"""
  def __init__(self, name, fn, lift=True):
    self.name, self.fn, self.lift = name, fn, lift
  def __repr__(self): return "<native %s>" % self.name


class ModuleV(object):
  def __init__(self, name, path=None):
    self.name, self.path = name, path
    self.ns = {}
    self.tree = None
    self.external = False
  def __repr__(self): return "<module %s>" % self.name


class Opaque(object):
  """value of an unmodelled library: nothing is known about it"""
  __slots__ = ('tag',)
  def __init__(self, tag): self.tag = tag
  def __repr__(self): return "<opaque %s>" % self.tag


class GenV(object):
  """generator: evaluated when first iterated"""
  __slots__ = ('thunk', 'result', 'used')
  def __init__(self, thunk): self.thunk, self.result, self.used = thunk, None, None


class SuperV(object):
  __slots__ = ('cls', 'obj')
  def __init__(self, cls, obj): self.cls, self.obj = cls, obj


class SliceV(object):
  __slots__ = ('lo', 'hi', 'step')
  def __init__(self, lo, hi, step): self.lo, self.hi, self.step = lo, hi, step
