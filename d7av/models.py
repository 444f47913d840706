"""Abstract models of the Python 2 builtins and of the libraries the repository uses."""
import ast, math, re, string, struct as _struct
from .bdd import TRUE, FALSE
from .values import *
from . import frontend

OBJECT = ClassV('object', [], {}, None, native=True)


def _b(name, bases=(OBJECT,)):
  return ClassV(name, list(bases), {}, None, native=True)

BASESTRING = _b('basestring')
STR = _b('str', [BASESTRING])
UNICODE = _b('unicode', [BASESTRING])
INT = _b('int')
LONG = _b('long')
BOOL = _b('bool', [INT])
FLOAT = _b('float')
LIST = _b('list')
TUPLE = _b('tuple')
DICT = _b('dict')
SET = _b('set')
FROZENSET = _b('frozenset')
BYTEARRAY = _b('bytearray')
TYPE = _b('type')
NONETYPE = _b('NoneType')
FUNCTION = _b('function')
XRANGE = _b('xrange')
GENERATOR = _b('generator')
SLICE = _b('slice')
CLASSOBJ = _b('classobj')
INSTANCE = _b('instance')
MODULE = _b('module')
PROPERTY = _b('property')
STATICMETHOD = _b('staticmethod')
CLASSMETHOD = _b('classmethod')

_EXC = {}


def _exc(name, *bases):
  c = ClassV(name, [_EXC[b] if isinstance(b, str) else b for b in bases], {}, None, native=True)
  c.is_exc = True
  _EXC[name] = c
  return c

_exc('BaseException', OBJECT)
_exc('Exception', 'BaseException')
_exc('SystemExit', 'BaseException')
_exc('KeyboardInterrupt', 'BaseException')
_exc('GeneratorExit', 'BaseException')
_exc('StopIteration', 'Exception')
_exc('StandardError', 'Exception')
for _n, _p in (('ArithmeticError', 'StandardError'), ('ZeroDivisionError', 'ArithmeticError'), ('OverflowError', 'ArithmeticError'),
               ('AssertionError', 'StandardError'), ('AttributeError', 'StandardError'), ('EnvironmentError', 'StandardError'),
               ('IOError', 'EnvironmentError'), ('OSError', 'EnvironmentError'), ('EOFError', 'StandardError'),
               ('ImportError', 'StandardError'), ('LookupError', 'StandardError'), ('IndexError', 'LookupError'),
               ('KeyError', 'LookupError'), ('NameError', 'StandardError'), ('UnboundLocalError', 'NameError'),
               ('RuntimeError', 'StandardError'), ('NotImplementedError', 'RuntimeError'), ('TypeError', 'StandardError'),
               ('ValueError', 'StandardError'), ('UnicodeError', 'ValueError'), ('UnicodeDecodeError', 'UnicodeError'),
               ('UnicodeEncodeError', 'UnicodeError'), ('SyntaxError', 'StandardError'), ('SystemError', 'StandardError'),
               ('MemoryError', 'StandardError'), ('BufferError', 'StandardError'), ('ReferenceError', 'StandardError'),
               ('Warning', 'Exception'), ('DeprecationWarning', 'Warning'), ('UserWarning', 'Warning')):
  _exc(_n, _p)
# libraries
_exc('struct.error', 'Exception')
_exc('binascii.Error', 'Exception')
_exc('bitstring.Error', 'Exception')
_exc('bitstring.ReadError', 'bitstring.Error', 'IndexError')
_exc('bitstring.CreationError', 'bitstring.Error', 'ValueError')
_exc('bitstring.InterpretError', 'bitstring.Error', 'ValueError')
_exc('bitstring.ByteAlignError', 'bitstring.Error')
_exc('serial.SerialException', 'IOError')
_exc('serial.SerialTimeoutException', 'serial.SerialException')
_exc('serial.PortNotOpenError', 'serial.SerialException')
_exc('cerberus.SchemaError', 'Exception')
_exc('cerberus.DocumentError', 'Exception')
for _n, _s in (('struct.error', 'error'), ('bitstring.ReadError', 'ReadError'), ('bitstring.Error', 'Error'),
               ('bitstring.CreationError', 'CreationError'), ('serial.SerialException', 'SerialException'),
               ('bitstring.InterpretError', 'InterpretError'), ('bitstring.ByteAlignError', 'ByteAlignError'),
               ('serial.SerialTimeoutException', 'SerialTimeoutException'), ('cerberus.SchemaError', 'SchemaError'),
               ('cerberus.DocumentError', 'DocumentError'), ('binascii.Error', 'Error'), ('serial.PortNotOpenError', 'PortNotOpenError')):
  _EXC[_n].name = _s

for c in _EXC.values(): c.is_exc = True
BASEEXC = _EXC['BaseException']


def exc_class(it, name):
  return _EXC[name]


def U(msg):
  from .interp import Unsupported
  raise Unsupported(msg)


def dead():
  from .interp import Dead
  raise Dead()


def err(it, name, *args):
  it.raise_(name, *args)
  dead()


# ------------------------------------------------------------------------------------------------- types
def type_of(it, v):
  from .interp import SFloat
  if v is None: return NONETYPE
  if isinstance(v, (bool, SB)): return BOOL
  if isinstance(v, (int, SI, LI)): return INT
  if isinstance(v, (float, SFloat)): return FLOAT
  if isinstance(v, (str, SStr, SText)): return STR
  if isinstance(v, tuple): return TUPLE
  if isinstance(v, ListV): return BYTEARRAY if v.kind == 'bytearray' else GENERATOR if v.kind == 'gen' else LIST
  if isinstance(v, SetV): return SET
  if isinstance(v, DictV): return DICT
  if isinstance(v, Obj): return v.cls
  if isinstance(v, ClassV): return CLASSOBJ if v.oldstyle else TYPE
  if isinstance(v, (FuncV, Native, Bound)): return FUNCTION
  if isinstance(v, ModuleV): return MODULE
  if isinstance(v, GenV): return GENERATOR
  if isinstance(v, BlobElem): return STR if v.conv == 'chr' else INT
  if isinstance(v, SliceV): return SLICE
  if isinstance(v, PropertyV): return PROPERTY
  return None


def type_name(it, v):
  t = type_of(it, v)
  return t.name if t is not None else repr(v)


def isinstance_node(it, v, t):
  if isinstance(t, tuple):
    r = FALSE
    for x in t: r = it.OR(r, isinstance_node(it, v, x))
    return r
  if isinstance(v, Union):
    r = FALSE
    for g, x in v.alts:
      if it.may(g): r = it.OR(r, it.AND(g, isinstance_node(it, x, t)))
    return r
  if isinstance(v, Opaque) or isinstance(t, Opaque):
    if isinstance(t, Opaque) and not isinstance(v, Opaque): return FALSE
    return it.soft_bool('isinstance', (id(v), id(t))).node
  if not isinstance(t, ClassV):
    if isinstance(t, Union): U("isinstance class alternatives")
    err(it, 'TypeError', 'isinstance() arg 2 must be a class, type, or tuple of classes and types')
  c = type_of(it, v)
  if c is None: U("isinstance of %r" % (v,))
  if t is OBJECT: return TRUE
  if t is LONG and c is INT: return FALSE
  return TRUE if c.issub(t) else FALSE


# ------------------------------------------------------------------------------------------------- enum
ENUM = _b('Enum'); ENUM.is_enum = True
INTENUM = ClassV('IntEnum', [INT, ENUM], {}, None, native=True); INTENUM.is_enum = True


def is_intenum(cls): return INT in cls.mro


def unenum(it, v):
  if isinstance(v, Obj) and v.cls.is_enum and INT in v.cls.mro: return v.attrs['_value_']
  return v


def build_enum(it, cls):
  cls.members = []
  seen = []
  for name, v in list(cls.ns.items()):
    if name.startswith('__') and name.endswith('__'): continue
    if isinstance(v, (FuncV, StaticM, ClassM, PropertyV, Native)): continue
    if name == '_order_': continue
    for m in seen:
      if type(m.attrs['_value_']) == type(v) and m.attrs['_value_'] == v:
        cls.ns[name] = m
        break
    else:
      o = Obj(cls, TRUE, 0, None)
      o.attrs.update(_value_=v, value=v, _name_=name, name=name)
      o.label = cls.name + '.' + name
      seen.append(o)
      cls.ns[name] = o
      cls.members.append(o)
  cls.enum_map = dict((n, v) for n, v in cls.ns.items() if isinstance(v, Obj) and v.cls is cls)


def enum_call(it, cls, args, kwargs):
  if len(args) != 1: U("enum construction")
  def one(v):
    if isinstance(v, Obj) and v.cls is cls: return v
    v = unenum(it, v)
    if isinstance(v, Opaque): U("enum of unknown")
    alts = []
    rest = TRUE
    for m in cls.members:
      g = it.eq_node(v, m.attrs['_value_'])
      if it.may(g):
        alts.append((g, m)); rest = it.AND(rest, it.NOT(g))
    it.raise_('ValueError', '%s is not a valid %s' % (v if isinstance(v, (int, str)) else 'value', cls.name), guard=rest)
    if not alts: dead()
    return it.merge_all(alts)
  return it.split(args[0], one)


# ------------------------------------------------------------------------------------------------- text
def text_parts(v):
  if isinstance(v, str): return (v,) if v else ()
  if isinstance(v, SText): return v.parts
  if isinstance(v, SStr): return (('str', '', v),)
  if isinstance(v, Union): return (('alt', '', v),)
  return (('opaque', '', v),)


def mktext(parts):
  out = []
  for p in parts:
    if p == '': continue
    if isinstance(p, str) and out and isinstance(out[-1], str): out[-1] += p
    else: out.append(p)
  if not out: return ''
  if len(out) == 1 and isinstance(out[0], str): return out[0]
  if len(out) == 1 and out[0][0] == 'str' and out[0][1] == '': return out[0][2]
  return SText(tuple(out))


def to_str(it, v, repr_=False):
  """str(v) / repr(v)"""
  from .interp import SFloat
  if isinstance(v, Union): return it.split(v, lambda x: to_str(it, x, repr_))
  if isinstance(v, (str, SStr, SText)):
    if repr_: return repr(v) if isinstance(v, str) else SText((("repr", '', v),))
    return v
  if v is None or isinstance(v, (bool, int)): return str(v)
  if isinstance(v, float): return repr(v)
  if isinstance(v, (SI, LI)): return SText((('int', 'd', v),))
  if isinstance(v, SB): return SText((('bool', '', v),))
  if isinstance(v, (SFloat, BlobElem)): return SText((('opaque', '', v),))
  if isinstance(v, Obj):
    if v.cls.is_enum:
      m, owner = v.cls.lookup('__str__' if not repr_ else '__repr__')
      if m is None:
        return v.label if not repr_ else '<%s: %r>' % (v.label, v.attrs['_value_'])
    for nm in (('__repr__',) if repr_ else ('__str__', '__repr__')):
      m, owner = v.cls.lookup(nm)
      if m is not None:
        r = it.call(it.bind(m, v, owner), [], {})
        def chk(x):
          if isinstance(x, (str, SStr, SText, Opaque)): return x
          err(it, 'TypeError', '%s returned non-string (type %s)' % (nm, type_name(it, x)))
        return it.split(r, chk)
    if is_exc(v.cls):
      a = v.attrs.get('args', ())
      if isinstance(a, tuple):
        if len(a) == 0: return ''
        if len(a) == 1: return to_str(it, a[0]) if v.cls.name != 'KeyError' else to_str(it, a[0], True)
    return SText(('<', ('object', '', v.cls.name), '>'))
  if isinstance(v, tuple):
    parts = ['(']
    for i, x in enumerate(v):
      if i: parts.append(', ')
      parts += list(text_parts(to_str(it, x, True)))
    if len(v) == 1: parts.append(',')
    return mktext(parts + [')'])
  if isinstance(v, ListV):
    if v.kind == 'bytearray' and not repr_:
      return bytes_of(it, v)
    if v.kind == 'gen': return SText((('opaque', '', 'generator'),))
    def one(e):
      parts = ['[']
      first = True
      for x in e:
        if not first: parts.append(', ')
        first = False
        if isinstance(x, Blob) or x.__class__.__name__ == 'Opaques': parts.append(('opaque', '', 'run'))
        else: parts += list(text_parts(to_str(it, x, True)))
      return mktext(parts + [']'])
    return it.fork(it.list_live(v), one)
  if isinstance(v, DictV):
    parts = ['{']
    for k, (kk, x) in v.items.items():
      parts += list(text_parts(to_str(it, kk, True))) + [': ']
      if isinstance(x, Union):
        x = Union(tuple((g, y) for g, y in x.alts if y is not UNDEF))
      if x is not UNDEF: parts += list(text_parts(to_str(it, x, True)))
      parts.append(', ')
    return mktext(parts + ['}'])
  if isinstance(v, ClassV): return "<class '%s'>" % v.qualname
  return SText((('opaque', '', v),))


def is_exc(cls): return BASEEXC in cls.mro


INTSPEC = re.compile(r'^(?:(.?[<>=^])?)([ +-]?)(#?)(0?)(\d*)(,?)(?:\.\d+)?([bcdoxXn%eEfFgGs]?)$')


def fmt_value(it, v, spec):
  """format(v, spec)"""
  from .interp import SFloat
  if isinstance(spec, Union) or isinstance(v, Union):
    return it.splits([v, spec], lambda a, b: fmt_value(it, a, b))
  if not isinstance(spec, str): return SText((('opaque', '', v),))
  m, owner = (v.cls.lookup('__format__') if isinstance(v, Obj) else (None, None))
  if m is not None: return it.call(it.bind(m, v, owner), [spec], {})
  if spec == '': return to_str(it, v)
  g = INTSPEC.match(spec)
  if not g: 
    err(it, 'ValueError', 'Invalid conversion specification')
  code = g.group(7)
  num = it.is_intlike(v) or isinstance(v, (float, SFloat)) or (isinstance(v, BlobElem) and v.conv is None)
  if isinstance(v, Obj) and v.cls.is_enum and is_intenum(v.cls): v = v.attrs['_value_']; num = True
  if num:
    isf = isinstance(v, (float, SFloat))
    if code == 's' or (isf and code and code in 'bcdoxX'):
      err(it, 'ValueError', "Unknown format code '%s' for object of type '%s'" % (code, type_name(it, v)))
    if isinstance(v, (bool, int, float)):
      try: return format(v, spec)
      except (ValueError, OverflowError): err(it, 'ValueError', 'format')
    if isinstance(v, SB): v = it.norm_int(it.bits(v))
    if isinstance(v, SI): return SText((('int', spec, v),))
    return SText((('opaque', spec, v),))
  if code and code in 'bcdoxXneEfFgG%':
    err(it, 'ValueError', "Unknown format code '%s' for object of type '%s'" % (code, type_name(it, v)))
  s = to_str(it, v)
  if isinstance(s, str):
    try: return format(s, spec)
    except ValueError: err(it, 'ValueError', 'format')
  if isinstance(s, SText) and len(s.parts) == 1 and isinstance(s.parts[0], tuple) and s.parts[0][1] in ('', 'd'):
    p = s.parts[0]
    return SText(((p[0] + '/s', spec, p[2]),))
  return SText((('opaque', spec, s),))


def str_format(it, fmt, args, kwargs):
  parts = []
  auto = 0
  try:
    fields = list(string.Formatter().parse(fmt))
  except ValueError as e:
    err(it, 'ValueError', str(e))
  for lit, field, spec, conv in fields:
    if lit: parts.append(lit)
    if field is None: continue
    m = re.match(r'^([^.\[]*)(.*)$', field)
    head, rest = m.group(1), m.group(2)
    if head == '':
      head = auto; auto += 1
    elif head.isdigit(): head = int(head)
    if isinstance(head, int):
      if head >= len(args): err(it, 'IndexError', 'tuple index out of range')
      v = args[head]
    else:
      if head not in kwargs: err(it, 'KeyError', head)
      v = kwargs[head]
    for a, ix in re.findall(r'\.([A-Za-z_]\w*)|\[([^\]]*)\]', rest):
      if a: v = it.get_attr(v, a)
      else: v = it.get_item(v, int(ix) if ix.isdigit() else ix)
    if conv == 's': v = to_str(it, v)
    elif conv == 'r': v = to_str(it, v, True)
    if spec and '{' in spec: spec = str_format(it, spec, args[auto:], kwargs)
    t = fmt_value(it, v, spec or '')
    parts.append(('late', t))
  return join_late(it, parts)


def join_late(it, parts):
  """concatenate literal strings and possibly alternative texts"""
  vals = [p[1] for p in parts if isinstance(p, tuple) and p[0] == 'late']
  n = 1
  for v in vals:
    if isinstance(v, Union): n *= len(v.alts)
  if n > 64 or n > 1 and it.keep_alts:
    out = []
    for p in parts: out += list(text_parts(p[1])) if isinstance(p, tuple) and p[0] == 'late' else [p]
    return mktext(out)
  def build(*vs):
    vs = list(vs)
    out = []
    for p in parts:
      if isinstance(p, tuple) and p[0] == 'late': out += list(text_parts(vs.pop(0)))
      else: out.append(p)
    if any(isinstance(p, tuple) and p[0] == 'str' for p in out) and all(isinstance(p, str) or p[0] == 'str' for p in out):
      acc = ''
      for p in out: acc = concat_str(it, acc, p if isinstance(p, str) else p[2])
      return acc
    return mktext(out)
  return it.splits(vals, build)


def percent_format(it, fmt, arg):
  args = list(arg) if isinstance(arg, tuple) else [arg]
  parts = []
  pos = 0
  used = 0
  for m in re.finditer(r'%(\((\w+)\))?([-#0 +]*)(\*|\d*)(?:\.(\d+))?[hlL]?([diouxXeEfFgGcrs%])', fmt):
    parts.append(fmt[pos:m.start()]); pos = m.end()
    code = m.group(6)
    if code == '%': parts.append('%'); continue
    if m.group(2):
      v = it.get_item(arg, m.group(2))
    else:
      if used >= len(args): err(it, 'TypeError', 'not enough arguments for format string')
      v = args[used]; used += 1
    def one(v):
      v = unenum(it, v)
      if code == 'r': return to_str(it, v, True)
      if code == 's': return to_str(it, v)
      if it.is_intlike(v) or isinstance(v, float):
        if isinstance(v, (int, float)):
          try: return ('%' + m.group(3) + m.group(4) + (('.' + m.group(5)) if m.group(5) else '') + code) % v
          except TypeError: err(it, 'TypeError', 'number required')
        if code in 'di' and not m.group(3) and not m.group(4): return SText((('int', 'd', v),))
        return SText((('int', m.group(3) + m.group(4) + code, v),))
      if isinstance(v, (Opaque, BlobElem, SText)) or v.__class__.__name__ == 'SFloat': return SText((('opaque', '', v),))
      if code == 'c' and isinstance(v, (str, SStr)): return v
      err(it, 'TypeError', '%%%s format: a number is required, not %s' % (code, type_name(it, v)))
    parts.append(('late', it.split(v, one)))
  parts.append(fmt[pos:])
  if used < len(args) and isinstance(arg, tuple): err(it, 'TypeError', 'not all arguments converted during string formatting')
  if used == 0 and not isinstance(arg, (tuple, DictV)): err(it, 'TypeError', 'not all arguments converted during string formatting')
  return join_late(it, parts)


def concat_str(it, a, b):
  if isinstance(a, str) and isinstance(b, str): return a + b
  if isinstance(a, SText) or isinstance(b, SText) or isinstance(a, Opaque) or isinstance(b, Opaque):
    return mktext(list(text_parts(a)) + list(text_parts(b)))
  out = []
  for g, e in it.seq_entries(a):
    for h, f in it.seq_entries(b):
      gh = it.AND(g, h)
      if it.may(gh): out.append((gh, tuple(e) + tuple(f)))
  return it.mkstr(it.norm_seq(out))


def char_code(it, c):
  """byte value of a one character string"""
  if isinstance(c, str) and len(c) == 1: return ord(c)
  if isinstance(c, SStr) and len(c.alts) == 1 and len(c.alts[0][1]) == 1 and not isinstance(c.alts[0][1][0], Blob):
    return c.alts[0][1][0]
  return None


# ------------------------------------------------------------------------------------------------- sequences
def conv_entry(it, x, kind):
  """entry x stored in a byte sequence"""
  if isinstance(x, Blob):
    if getattr(x, 'ch', False): return Blob(x.base, x.start, x.length)
    return x
  if x.__class__.__name__ == 'Opaques': U("unknown run as bytes")
  x = unenum(it, x)
  if isinstance(x, BlobElem): return Blob(x.blob.base, x.blob.start, x.blob.length)
  if isinstance(x, Union):
    return it.split(x, lambda y: conv_entry(it, y, kind))
  c = char_code(it, x)
  if c is not None: return c
  if isinstance(x, (str, SStr)): err(it, 'ValueError', 'string must be of size 1')
  if isinstance(x, (bool, SB)): x = it.norm_int(it.bits(x))
  if it.is_intlike(x):
    bad = it.OR(it.lt(x, 0), it.lt(255, x))
    it.raise_('ValueError', 'byte must be in range(0, 256)', guard=bad)
    if it.live == 0: dead()
    if isinstance(x, SI):
      b = it.ext(x.bits, 9)[:8]
      return it.norm_int(tuple(b) + (FALSE,))
    return x
  if isinstance(x, Opaque): U("unknown value as byte")
  if isinstance(x, float) or x.__class__.__name__ == 'SFloat': err(it, 'TypeError', 'an integer or string of size 1 is required')
  err(it, 'TypeError', 'an integer or string of size 1 is required, not %s' % type_name(it, x))


def byte_seq_alts(it, v):
  """alternatives of byte entries for anything bytearray()/extend() accepts"""
  if isinstance(v, (str, SStr)): return [(g, tuple(e)) for g, e in it.seq_entries(v) if it.may(g)]
  if isinstance(v, ListV) and v.kind == 'bytearray': return it.list_live(v)
  alts = it.elements(v)
  out = []
  entry = it.live
  live = FALSE
  for g, e in alts:
    it.live = it.AND(entry, g)
    if it.live == 0: continue
    try:
      ne = tuple(conv_entry(it, x, 'bytearray') for x in e)
      out.append((g, ne))
      live = it.OR(live, it.live)
    except Exception as ex:
      if ex.__class__.__name__ != 'Dead': raise
  it.live = live
  if live == 0: dead()
  return it.norm_seq(out)


def bytes_of(it, v):
  """str(bytearray)"""
  return it.mkstr(it.norm_seq([(g, e) for g, e in it.list_live(v)]))


def new_in_blob(it, l):
  if it.blob_ctx: it.blob_new.add(id(l)); it.keep.append(l)


def blob_entries(it, l, entries):
  """entries added to list l inside a loop over an unknown run"""
  if not it.blob_ctx: return entries
  if id(l) in it.blob_new: U("list built inside a loop over unknown data")
  if len(entries) != 1: U("several elements per iteration over unknown data")
  key = (id(it.blob_ctx[-1][0]), id(l))
  if key in it.blob_done: U("several elements per iteration over unknown data")
  it.blob_done.add(key)
  return (it.blob_result(entries[0]),)


def list_append(it, l, v):
  ent = (v,)
  if l.kind == 'bytearray' and not isinstance(v, BlobElem): ent = (conv_entry(it, v, 'bytearray'),)
  ent = blob_entries(it, l, ent)
  it.list_modify(l, lambda e: e + ent, 'append')


def list_extend(it, l, v):
  if isinstance(v, Union): return it.split(v, lambda x: list_extend(it, l, x))
  alts = byte_seq_alts(it, v) if l.kind == 'bytearray' else it.elements(v)
  if it.blob_ctx:
    if len(alts) != 1: U("alternatives in a loop over unknown data")
    ent = blob_entries(it, l, tuple(alts[0][1]))
    it.list_modify(l, lambda e: e + ent, 'extend')
    return
  if len(alts) == 1:
    ent = tuple(alts[0][1])
    it.list_modify(l, lambda e: it.join_runs(e, ent), 'extend')
    return
  entry = it.live
  for g, e in alts:
    it.live = it.AND(entry, g)
    if it.live == 0: continue
    ent = tuple(e)
    it.list_modify(l, lambda x, ent=ent: it.join_runs(x, ent), 'extend')
  it.live = entry


def seq_alts(it, o):
  """(guard, entries) of any indexable sequence"""
  if isinstance(o, tuple): return [(TRUE, o)]
  if isinstance(o, ListV): return it.list_live(o)
  if isinstance(o, str): return [(TRUE, tuple(ord(c) for c in o))]
  if isinstance(o, SStr): return [(g, e) for g, e in o.alts if it.may(g)]
  return None


def rebuild(it, o, alts):
  if isinstance(o, (str, SStr)): return it.mkstr(it.norm_seq(alts))
  if isinstance(o, tuple):
    if len(alts) == 1: return tuple(alts[0][1])
    return it.merge_all([(g, tuple(e)) for g, e in alts])
  l = it.new_seq(it.norm_seq(alts), o.kind if o.kind != 'gen' else 'list')
  new_in_blob(it, l)
  return l


def has_run(e):
  return any(isinstance(x, Blob) or x.__class__.__name__ == 'Opaques' for x in e)


def as_index(it, v):
  v = unenum(it, v)
  if isinstance(v, (bool, SB)): v = it.norm_int(it.bits(v))
  return v


def get_slice(it, o, k):
  if isinstance(o, SText) or isinstance(o, Opaque):
    if isinstance(o, SText): return text_slice(it, o, k)
    return Opaque(o.tag + '[]')
  if isinstance(o, Obj):
    m, owner = o.cls.lookup('__getitem__')
    if m is not None: return it.call(it.bind(m, o, owner), [k], {})
  alts = seq_alts(it, o)
  if alts is None: err(it, 'TypeError', "'%s' object has no attribute '__getitem__'" % type_name(it, o))
  def bounds(lo, hi, step):
    lo, hi, step = as_index(it, lo), as_index(it, hi), as_index(it, step)
    for x in (lo, hi, step):
      if x is not None and not it.is_intlike(x): err(it, 'TypeError', 'slice indices must be integers')
    out = []
    entry = it.live
    for g, e in alts:
      it.live = it.AND(entry, g)
      if it.live == 0: continue
      if not has_run(e) and (lo is None or isinstance(lo, int)) and (hi is None or isinstance(hi, int)) and (step is None or isinstance(step, int)):
        out.append((g, tuple(e)[slice(lo, hi, step)]))
        continue
      if step == -1 and lo is None and hi is None: U("reversing an unknown run")
      if step not in (None, 1): U("stepped slice of unknown data")
      n = None
      def resolve(x):
        if isinstance(x, int):
          if x < 0:
            v = it.add(it.entries_len(e), x)
            neg = it.lt(v, 0)
            if it.may(neg): v = it.ite_val(neg, 0, v)
            return v
          return x
        neg = it.lt(x, 0)
        if it.may(neg): U("slice bound of unknown sign")
        return x
      l2 = resolve(lo) if lo is not None else 0
      if hi is None:
        for h, rest, short in it.drop(e, l2): out.append((it.AND(g, h), rest))
      else:
        h2 = resolve(hi)
        for h, t, rest, short in it.take(e, h2):
          it.live = it.AND(it.AND(entry, g), h)
          if it.live == 0: continue
          for h3, r2, s3 in it.drop(t, l2):
            out.append((it.AND(it.AND(g, h), h3), r2))
    it.live = entry
    return rebuild(it, o, out)
  return it.splits([k.lo, k.hi, k.step], bounds)


def end_parts(it, o, last, fits, f):
  """f of the text o, whose first or last part is one of several texts: done inside that part when each fits"""
  parts = list(o.parts)
  i = -1 if last else 0
  ys = list(it.alts(parts[i][2]))
  if all(fits(y) for _, y in ys):
    parts[i] = ('alt', '', Union([(g, f(y)) for g, y in ys]))
    return mktext(parts)
  rest = parts[:-1] if last else parts[1:]
  return Union([(g, f(mktext(rest + list(text_parts(y)) if last else list(text_parts(y)) + rest))) for g, y in ys])


def is_alt(p): return isinstance(p, tuple) and p[0] == 'alt'


def text_slice(it, o, k):
  lo, hi = k.lo, k.hi
  if k.step is None and lo in (None, 0) and isinstance(hi, int) and hi < 0 and is_alt(o.parts[-1]):
    def fits(y):
      p = text_parts(y)[-1:]
      return bool(p) and (isinstance(p[0], str) and len(p[0]) >= -hi or is_alt(p[0]))
    return end_parts(it, o, True, fits, lambda y: y[:hi] if isinstance(y, str) else text_slice(it, y, k))
  if k.step is None and (lo is None or isinstance(lo, int) and lo >= 0):
    parts = list(o.parts)
    lo = lo or 0
    while lo > 0 and parts and isinstance(parts[0], str):
      if len(parts[0]) > lo: parts[0] = parts[0][lo:]; lo = 0
      else: lo -= len(parts[0]); parts.pop(0)
    if lo == 0:
      if hi is None: return mktext(parts)
      if isinstance(hi, int) and hi < 0 and parts and isinstance(parts[-1], str) and len(parts[-1]) >= -hi:
        parts[-1] = parts[-1][:hi]
        return mktext([p for p in parts if p != ''])
      if isinstance(hi, int) and hi >= 0:
        n = hi - (k.lo or 0)
        if parts and isinstance(parts[0], str) and len(parts[0]) >= n: return parts[0][:max(n, 0)]
  x = expand_text(it, o)
  if x is not None: return it.splits([x], lambda y: it.get_item(y, k))
  return SText((('opaque', '', 'slice'),))


def get_item(it, o, k):
  if isinstance(o, DictV):
    def missing():
      if isinstance(o, DefaultDictV):
        v = it.call(o.factory, [], {})
        it.dict_set(o, k, v)
        return v
      err(it, 'KeyError', k if isinstance(k, (int, str)) else 'key')
    return it.dict_get(o, k, missing)
  if isinstance(o, Opaque): return Opaque(o.tag + '[]')
  if isinstance(o, Obj):
    m, owner = o.cls.lookup('__getitem__')
    if m is not None: return it.call(it.bind(m, o, owner), [k], {})
    err(it, 'TypeError', "'%s' object has no attribute '__getitem__'" % o.cls.name)
  if isinstance(o, ClassV) and o.is_enum:
    if isinstance(k, str):
      m = o.enum_map.get(k)
      if m is None: err(it, 'KeyError', k)
      return m
    if isinstance(k, (SStr, SText, Opaque)):
      alts = []; rest = TRUE
      for nm, m in o.enum_map.items():
        g = it.eq_node(k, nm)
        g = it.AND(g, rest)
        if it.may(g): alts.append((g, m)); rest = it.AND(rest, it.NOT(g))
      it.raise_('KeyError', 'name', guard=rest)
      if not alts: dead()
      return it.merge_all(alts)
    err(it, 'KeyError', 'name')
  if isinstance(o, SText):
    r = text_slice(it, o, SliceV(k, k + 1 if k != -1 else None, None)) if isinstance(k, int) and k >= 0 else None
    if isinstance(r, str) and r: return r
    x = expand_text(it, o)
    if x is not None: return it.splits([x], lambda y: it.get_item(y, k))
    return r if isinstance(r, str) and r else SText((('opaque', '', 'char'),))
  alts = seq_alts(it, o)
  if alts is None:
    err(it, 'TypeError', "'%s' object has no attribute '__getitem__'" % type_name(it, o))
  k = as_index(it, k)
  if not it.is_intlike(k): err(it, 'TypeError', '%s indices must be integers, not %s' % (type_name(it, o), type_name(it, k)))
  isstr = isinstance(o, (str, SStr))
  def one(e):
    def at(i):
      if not has_run(e):
        if not -len(e) <= i < len(e): err(it, 'IndexError', 'list index out of range')
        x = e[i]
        return it.char_of(x) if isstr else x
      j = i if i >= 0 else None
      if j is None:
        k2 = -i
        tail = e[len(e) - k2:] if len(e) >= k2 else None
        if tail and not has_run(tail): return it.char_of(tail[0]) if isstr else tail[0]
        U("negative index into unknown data")
      res = []
      entry = it.live
      alts2 = it.drop(e, j)
      out = FALSE
      for g, rest, short in alts2:
        it.live = it.AND(entry, g)
        if it.live == 0: continue
        try:
          while True:
            if not rest or short: err(it, 'IndexError', 'index out of range')
            x = rest[0]
            if isinstance(x, Blob):
              ne = it.lt(0, x.length)
              if it.may(ne):
                sv = it.live
                it.live = it.AND(sv, ne)
                b = it.blob_byte(x, 0)
                if getattr(x, 'ch', False): b = it.char_of(b)
                res.append((it.AND(g, ne), b)); out = it.OR(out, it.live)
                it.live = it.AND(sv, it.NOT(ne))
                g = it.AND(g, it.NOT(ne))
              if it.live == 0: break
              rest = rest[1:]
              continue
            res.append((g, x)); out = it.OR(out, it.live)
            break
        except Exception as ex:
          if ex.__class__.__name__ != 'Dead': raise
      it.live = out
      if out == 0: dead()
      v = it.merge_all(res)
      return it.char_of(v) if isstr and it.is_intlike(v) else v
    if isinstance(k, int): return at(k)
    n = len(e)
    if has_run(e): U("unknown index into unknown data")
    bad = it.OR(it.NOT(it.lt(k, n)), it.lt(k, -n))
    it.raise_('IndexError', 'list index out of range', guard=bad)
    if it.live == 0: dead()
    return it.fork(it.cases(k, 300), at)
  return it.fork(alts, one)


def set_item(it, o, k, v):
  if isinstance(o, Opaque): return
  if isinstance(o, Obj):
    m, owner = o.cls.lookup('__setitem__')
    if m is not None: return it.call(it.bind(m, o, owner), [k, v], {})
  if not isinstance(o, ListV): err(it, 'TypeError', "'%s' object does not support item assignment" % type_name(it, o))
  if isinstance(k, SliceV):
    if k.lo is None and k.hi is None and k.step is None:
      alts = byte_seq_alts(it, v) if o.kind == 'bytearray' else it.elements(v)
      if len(alts) != 1: U("slice assignment of alternatives")
      ent = tuple(alts[0][1])
      return it.list_modify(o, lambda e: ent, 'setslice')
    if not all(x is None or isinstance(x, int) for x in (k.lo, k.hi, k.step)): U("slice assignment")
    alts = byte_seq_alts(it, v) if o.kind == 'bytearray' else it.elements(v)
    if len(alts) != 1: U("slice assignment of alternatives")
    ent = tuple(alts[0][1])
    def f(e):
      if has_run(e): U("slice assignment in unknown data")
      l = list(e); l[slice(k.lo, k.hi, k.step)] = ent
      return tuple(l)
    return it.list_modify(o, f, 'setslice')
  def one(k):
    k = as_index(it, k)
    if not isinstance(k, int):
      if it.is_intlike(k): return it.fork(it.cases(k, 64), one)
      err(it, 'TypeError', 'list indices must be integers')
    val = conv_entry(it, v, 'bytearray') if o.kind == 'bytearray' else v
    for g, e in it.list_live(o):
      if has_run(e): U("item assignment in unknown data")
      if not -len(e) <= k < len(e): it.raise_('IndexError', 'list assignment index out of range', guard=g)
    if it.live == 0: dead()
    def f(e):
      if not -len(e) <= k < len(e): return e
      l = list(e); l[k] = val
      return tuple(l)
    it.list_modify(o, f, 'setitem')
  it.split(k, one)


def del_item(it, o, k):
  def one(o):
    if isinstance(o, DictV):
      it.dict_get(o, k, lambda: err(it, 'KeyError', 'key'))
      it.dict_set(o, k, UNDEF)
      return
    if isinstance(o, Opaque): return
    if not isinstance(o, ListV): err(it, 'TypeError', 'object does not support item deletion')
    if isinstance(k, SliceV) and any(isinstance(x, Union) for x in (k.lo, k.hi, k.step)):
      return it.splits([k.lo, k.hi, k.step], lambda *x: del_item(it, o, SliceV(*x)))
    if isinstance(k, SliceV):
      if k.lo in (None, 0) and k.step is None and k.hi is not None:
        # del x[:n]
        out = []
        entry = it.live
        for g, e in it.list_live(o):
          it.live = it.AND(entry, g)
          if it.live == 0: continue
          hi = k.hi
          if isinstance(hi, int) and hi < 0: U("negative slice deletion")
          for h, rest, short in it.drop(e, hi): out.append((it.AND(g, h), rest))
        it.live = entry
        return replace_alts(it, o, out, 'delslice')
      if k.lo is None and k.hi is None and k.step is None:
        return it.list_modify(o, lambda e: (), 'delslice')
      def f(e):
        if has_run(e) or not all(x is None or isinstance(x, int) for x in (k.lo, k.hi, k.step)): U("slice deletion")
        l = list(e); del l[slice(k.lo, k.hi, k.step)]
        return tuple(l)
      return it.list_modify(o, f, 'delslice')
    if not isinstance(k, int): U("deletion at unknown index")
    list_pop(it, o, [k])
  it.split(o, one)


def replace_alts(it, l, alts, what):
  """list l becomes one of alts (guards relative to the live state)"""
  it.note_mutation(l, what)
  B = it.B
  if B.AND(l.alloc, B.NOT(it.live)) == 0:
    l.alts = it.norm_seq(alts)
    return
  rel = B.CONSTRAIN(it.live, l.alloc)
  out = [(B.AND(rel, g), e) for g, e in alts]
  nrel = B.NOT(rel)
  out += [(B.AND(nrel, g), e) for g, e in l.alts]
  l.alts = it.norm_seq(out)


def list_pop(it, l, args):
  k = as_index(it, args[0]) if args else -1
  if not isinstance(k, int): U("pop at unknown index")
  if it.blob_ctx: U("pop in a loop over unknown data")
  res = []
  new = []
  entry = it.live
  ok = FALSE
  for g, e in it.list_live(l):
    it.live = it.AND(entry, g)
    if it.live == 0: continue
    try:
      if not has_run(e):
        if not -len(e) <= k < len(e) : err(it, 'IndexError', 'pop from empty list' if not e else 'pop index out of range')
        le = list(e); x = le.pop(k)
        res.append((g, x)); new.append((g, tuple(le)))
      elif k == 0:
        for h, t, rest, short in it.take(e, 1):
          gh = it.AND(g, h)
          if not it.may(gh): continue
          if short:
            it.raise_('IndexError', 'pop from empty list', guard=gh); continue
          t = [x for x in t if not isinstance(x, Blob)]
          res.append((gh, t[0])); new.append((gh, rest))
      elif k == -1 and e and not isinstance(e[-1], Blob) and e[-1].__class__.__name__ != 'Opaques':
        res.append((g, e[-1])); new.append((g, e[:-1]))
      else: U("pop from unknown data")
      ok = it.OR(ok, it.live)
    except Exception as ex:
      if ex.__class__.__name__ != 'Dead': raise
  it.live = ok
  if ok == 0: dead()
  # alternatives that raised keep their content
  replace_alts(it, l, [(g, e) for g, e in new], 'pop')
  return it.merge_all(res)


def contains(it, c, x):
  if isinstance(x, Union):
    r = FALSE
    def one(y):
      return contains(it, c, y)
    return it.split(x, one)
  if isinstance(c, DictV):
    v = it.dict_get(c, x, lambda: UNDEF) if it.hkey(x) is None else None
    if it.hkey(x) is not None:
      ent = c.items.get(it.hkey(x))
      if ent is None: return False
      r = FALSE
      for g, y in it.alts(ent[1]):
        if y is not UNDEF: r = it.OR(r, g)
      return it.mkbool(r)
    r = FALSE
    for g, y in it.alts(v):
      if y is not UNDEF: r = it.OR(r, g)
    return it.mkbool(r)
  if isinstance(c, (str,)) and isinstance(x, str): return x in c
  if isinstance(c, (str, SStr, SText)):
    if isinstance(x, (str, SStr, SText)): return it.soft_bool('substring', (id(c), id(x)))
    err(it, 'TypeError', "'in <string>' requires string as left operand")
  if isinstance(c, Obj):
    m, owner = c.cls.lookup('__contains__')
    if m is not None: return it.mkbool(it.truth(it.call(it.bind(m, c, owner), [x], {})))
  if isinstance(c, ClassV) and c.is_enum:
    return x in c.members
  if isinstance(c, Opaque): return it.soft_bool('in', (id(c), id(x)))
  if isinstance(c, ListV) and c.kind == 'bytearray':
    cc = char_code(it, x)
    if cc is not None: x = cc
  r = FALSE
  for g, e in it.elements(c):
    s = FALSE
    for y in e:
      if isinstance(y, Blob):
        s = it.OR(s, it.soft_bool('in unknown data', (id(y), id(x))).node)
        continue
      if y.__class__.__name__ == 'Opaques':
        s = it.OR(s, it.soft_bool('in unknown data', (id(y), id(x))).node); continue
      s = it.OR(s, TRUE if x is y else it.eq_full(x, y))
      if s == TRUE: break
    r = it.OR(r, it.AND(g, s))
  return it.mkbool(r)


# ------------------------------------------------------------------------------------------------- floats
def _fparts(it, v):
  from .interp import SFloat
  if isinstance(v, SFloat): return v.num, v.den
  if isinstance(v, float):
    if v in (float('inf'), float('-inf')) or v != v: return None
    return v.as_integer_ratio()
  return v, 1


def float_lt(it, a, b):
  x, y = _fparts(it, a), _fparts(it, b)
  if x is None or y is None: U("infinite float")
  # num/den < num2/den2 ; denominators positive
  return it.lt(it.binop1('*', x[0], y[1]), it.binop1('*', y[0], x[1]))


def float_eq(it, a, b):
  if not (it.is_intlike(a) or isinstance(a, float) or a.__class__.__name__ == 'SFloat'): return FALSE
  if not (it.is_intlike(b) or isinstance(b, float) or b.__class__.__name__ == 'SFloat'): return FALSE
  x, y = _fparts(it, a), _fparts(it, b)
  if x is None or y is None: return FALSE
  return it.eq_int(it.binop1('*', x[0], y[1]), it.binop1('*', y[0], x[1]))


def binop_other(it, o, a, b):
  from .interp import SFloat
  fl = lambda v: isinstance(v, (float, SFloat))
  if (fl(a) or fl(b)) and (fl(a) or it.is_intlike(a)) and (fl(b) or it.is_intlike(b)):
    x, y = _fparts(it, a), _fparts(it, b)
    if x is None or y is None: U("float")
    if o in ('+', '-'):
      d = x[1] * y[1] // math.gcd(x[1], y[1])
      n = it.binop1(o, it.binop1('*', x[0], d // x[1]), it.binop1('*', y[0], d // y[1]))
    elif o == '*': n, d = it.binop1('*', x[0], y[0]), x[1] * y[1]
    elif o in ('/', '//', '%') and isinstance(y[0], int) and isinstance(y[1], int) and y[0] > 0:
      n, d = it.binop1('*', x[0], y[1]), x[1] * y[0]
      if o == '//': return it.mkfloat(it.divmod_const(n, d)[0])
      if o == '%':
        q, r = it.divmod_const(n, d)
        return SFloat(it.binop1('*', r, y[0]), d * 1) if d != y[0] else it.mkfloat(r)
    else: U("float operation")
    if isinstance(n, int): return n / d
    return SFloat(n, d)
  if isinstance(a, Obj) and isinstance(b, Obj) and a.cls.native and b.cls.native:
    r = dt_arith(it, o, a, b)
    if r is not None: return r
  strs = lambda v: isinstance(v, (str, SStr, SText))
  if o == '+':
    if strs(a) and strs(b): return concat_str(it, a, b)
    if isinstance(a, tuple) and isinstance(b, tuple): return a + b
    if isinstance(a, ListV) and a.kind == 'bytearray' and (isinstance(b, (str, SStr)) or isinstance(b, ListV) and b.kind == 'bytearray'):
      return cat(it, a, it.list_live(a), byte_seq_alts(it, b))
    if isinstance(b, ListV) and b.kind == 'bytearray' and isinstance(a, (str, SStr)):
      return cat(it, b, byte_seq_alts(it, a), it.list_live(b))
    if isinstance(a, ListV) and isinstance(b, ListV) and a.kind != 'gen' and b.kind != 'gen' and a.kind == b.kind:
      return cat(it, a, it.list_live(a), it.list_live(b))
  if o == '*':
    if it.is_intlike(a): a, b = b, a
    if it.is_intlike(b) and (isinstance(a, (str, SStr, tuple, ListV))):
      def rep(n):
        if isinstance(a, str): return a * n
        if isinstance(a, tuple): return a * n
        if isinstance(a, ListV):
          l = it.new_seq([(g, e * max(n, 0)) for g, e in it.list_live(a)], a.kind)
          return l
        return it.mkstr(it.norm_seq([(g, e * max(n, 0)) for g, e in a.alts]))
      return it.fork(it.cases(b, 300), rep)
  if o == '%' and isinstance(a, str): return percent_format(it, a, b)
  if o == '%' and isinstance(a, (SStr, SText)): return SText((('opaque', '', 'text'),))
  if o == '|' and isinstance(a, SetV) and isinstance(b, SetV):
    d = SetV(it.live, it.epoch, it.loc()); d.items.update(a.items); d.items.update(b.items); return d
  if o == '-' and isinstance(a, SetV) and isinstance(b, SetV):
    d = SetV(it.live, it.epoch, it.loc()); d.items.update((k, v) for k, v in a.items.items() if k not in b.items); return d
  if o == '&' and isinstance(a, SetV) and isinstance(b, SetV):
    d = SetV(it.live, it.epoch, it.loc()); d.items.update((k, v) for k, v in a.items.items() if k in b.items); return d
  if isinstance(a, Opaque) or isinstance(b, Opaque): return Opaque('arith')
  nm = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'div', '//': 'floordiv', '%': 'mod', '<<': 'lshift', '>>': 'rshift', '|': 'or', '&': 'and', '^': 'xor', '**': 'pow'}[o]
  for x, y, m in ((a, b, '__%s__' % nm), (b, a, '__r%s__' % nm)):
    if isinstance(x, Obj):
      f, owner = x.cls.lookup(m)
      if f is not None: return it.call(it.bind(f, x, owner), [y], {})
  err(it, 'TypeError', "unsupported operand type(s) for %s: '%s' and '%s'" % (o, type_name(it, a), type_name(it, b)))


def cat(it, o, aa, bb):
  out = []
  for g, e in aa:
    for h, f in bb:
      gh = it.AND(g, h)
      if it.may(gh): out.append((gh, tuple(e) + tuple(f)))
  l = it.new_seq(it.norm_seq(out), o.kind)
  new_in_blob(it, l)
  return l


# ------------------------------------------------------------------------------------------------- methods
def N(name, fn, lift=True):
  return Native(name, fn, lift)


def bit_length(it, o):
  lo, hi = it.int_range(o)
  if lo < 0: U("bit_length of a negative number")
  r, rest = [], TRUE
  for n in range(hi.bit_length(), 0, -1):
    g = it.AND(rest, it.NOT(it.lt(o, 1 << (n - 1))))
    rest = it.AND(rest, it.lt(o, 1 << (n - 1)))
    if it.may(g): r.append((g, n))
  if it.may(rest): r.append((rest, 0))
  return it.fork(r, lambda n: n)


def value_attr(it, o, name):
  r = value_attr_(it, o, name)
  if r is None and name in NOT_MODELLED.get(type_name(it, o), ()): U("%s.%s" % (type_name(it, o), name))
  return r


def value_attr_(it, o, name):
  from .interp import SFloat
  if isinstance(o, (str, SStr, SText)):
    f = STR_METHODS.get(name)
    if f is not None: return Native('str.' + name, lambda it, a, k: f(it, o, a, k))
    return None
  if isinstance(o, ListV):
    if o.kind == 'gen': 
      if name == 'next': return Native('next', lambda it, a, k: b_next(it, [o] + a, k))
      return None
    f = (BA_METHODS if o.kind == 'bytearray' else LIST_METHODS).get(name) or LIST_METHODS.get(name)
    if f is not None: return Native('list.' + name, lambda it, a, k: f(it, o, a, k), lift=(name not in ('append', 'insert')))
    return None
  if isinstance(o, DictV):
    f = DICT_METHODS.get(name)
    if isinstance(o, SetV): f = SET_METHODS.get(name)
    if f is not None: return Native('dict.' + name, lambda it, a, k: f(it, o, a, k), lift=False)
    return None
  if isinstance(o, tuple):
    if name == 'index': return Native('tuple.index', lambda it, a, k: list_index(it, o, a, k))
    if name == 'count': return Native('tuple.count', lambda it, a, k: l_count(it, it.new_list(o), a, k))
    return None
  if isinstance(o, (FuncV,)):
    if name in o.attrs: return o.attrs[name]
    if name in ('__name__', 'func_name'): return o.name
    return None
  if isinstance(o, Bound):
    if name in ('im_self', '__self__'): return o.self
    if name in ('im_func', '__func__'): return o.func
    if name == '__name__': return getattr(o.func, 'name', '?')
    return None
  if it.is_intlike(o):
    if name == 'bit_length': return Native('bit_length', lambda it, a, k: o.bit_length() if isinstance(o, int) else bit_length(it, o))
    if name in ('real', 'numerator'): return o
    return None
  if isinstance(o, (float, SFloat)):
    if name == 'is_integer' and isinstance(o, float): return Native('is_integer', lambda it, a, k: o.is_integer())
    return None
  if isinstance(o, GenV):
    if name == 'next': return Native('next', lambda it, a, k: b_next(it, [o] + a, k))
    return None
  if isinstance(o, PropertyV):
    if name == 'setter': return Native('setter', lambda it, a, k: PropertyV(o.fget, a[0]))
    return None
  if isinstance(o, Native):
    if name == 'from_iterable' and o.name == 'chain': return Native('chain.from_iterable', m_chain_from, lift=False)
    if name == '__name__': return o.name.split('.')[-1]
    U("attribute %s of %s" % (name, o.name))
  if o is None: return None
  if isinstance(o, BlobElem): U("attribute of unknown element")
  return None


def _concrete(name):
  def f(it, s, a, k):
    if isinstance(s, str) and all(isinstance(x, (str, int, type(None))) or isinstance(x, tuple) for x in a):
      try: r = getattr(s, name)(*a)
      except (TypeError, ValueError) as e: err(it, type(e).__name__, str(e))
      if isinstance(r, list): return it.new_list(tuple(r))
      return r
    if name in ('isdigit', 'isalpha', 'isalnum', 'isupper', 'islower', 'isspace', 'startswith', 'endswith', 'find', 'count', 'rfind'):
      if name in ('startswith', 'endswith') and len(a) == 1 and isinstance(a[0], str) and isinstance(s, SText):
        p = s.parts[0] if name == 'startswith' else s.parts[-1]
        if isinstance(p, str) and len(p) >= len(a[0]): return getattr(p, name)(a[0])
      if name in ('find', 'count', 'rfind'): return it.soft_int(name, 16)
      return it.soft_bool('str.' + name, (id(s), repr(a)))
    if name in ('index', 'rindex'):
      it.raise_('ValueError', 'substring not found', guard=it.soft_bool('substring').node)
      return it.soft_int('index', 16)
    if hex_text(s) and all(isinstance(x, str) for x in a):
      r = hex_method(it, s, name, a)
      if r is not None: return r
    if name in ('split', 'rsplit', 'splitlines', 'partition', 'rpartition'): return Opaque('split')
    if isinstance(s, SStr) and name in ('upper', 'lower', 'strip', 'rstrip', 'lstrip', 'replace', 'title'):
      return SText(((name, repr(a), s),))
    if isinstance(s, SText) and name in ('strip', 'lstrip', 'rstrip') and (not a or isinstance(a[0], str)):
      parts = list(s.parts)
      a = a or [' \t\n\r\x0b\x0c']
      for left in (False, True):
        if name != ('rstrip', 'lstrip')[not left] and is_alt(parts[-1 if not left else 0]):
          side = 'lstrip' if left else 'rstrip'
          def fits(y):
            p = text_parts(y)[:1] if left else text_parts(y)[-1:]
            return bool(p) and (is_alt(p[0]) or isinstance(p[0], str) and getattr(p[0], side)(a[0]) != '')
          one = lambda y: getattr(y, side)(a[0]) if isinstance(y, str) else _concrete(side)(it, y, a, {})
          r = end_parts(it, s, not left, fits, one)
          if name == 'strip' : return it.split(r, lambda x: _concrete('rstrip' if left else 'lstrip')(it, x, a, {}))
          return r
      if name != 'rstrip' and isinstance(parts[0], str):
        t = parts[0].lstrip(a[0])
        if t: parts[0] = t
      if name != 'lstrip' and isinstance(parts[-1], str):
        t = parts[-1].rstrip(a[0])
        if t: parts[-1] = t
      return mktext(parts)
    return SText((('opaque', name, s),))
  return f


def hex_text(s):
  """text of literal pieces and of the hexadecimal digits of unknown bytes"""
  return isinstance(s, SText) and all(isinstance(p, str) or p[0] == 'hexlify' for p in s.parts)


def hex_method(it, s, name, a):
  """replace and split of such a text, where what is looked for cannot be among the digits"""
  if name == 'replace' and len(a) == 2 and a[0] and not set(a[0].lower()) & set('0123456789abcdef'):
    return mktext([p.replace(a[0], a[1]) if isinstance(p, str) else p for p in s.parts])
  if name == 'split' and (not a or len(a) == 1 and len(a[0]) == 1 and a[0].lower() not in '0123456789abcdef'):
    words, cur, seen = [], [], False
    for p in s.parts:
      if not isinstance(p, str): cur.append(p); seen = True; continue
      for ch in p:
        if ch.isspace() if not a else ch == a[0]:
          if seen or a: words.append(mktext(cur) if cur else '')
          cur, seen = [], False
        else: cur.append(ch); seen = True
    if seen or a: words.append(mktext(cur) if cur else '')
    return it.new_list(tuple(words))
  if name == 'translate': return None
  return None


def unhex_text(it, s, spaces=False):
  """the bytes whose digits make up the text; None when that is not known"""
  if not hex_text(s): return None
  out = []
  for p in s.parts:
    if not isinstance(p, str): out.append(p[2]); continue
    if spaces: p = p.replace(' ', '')
    if re.search(r'\s', p): err(it, 'TypeError', 'Non-hexadecimal digit found')
    try: out.append(''.join(chr(b) for b in bytes.fromhex(p)))
    except ValueError: err(it, 'TypeError', 'Non-hexadecimal digit found')
  r = out[0]
  for x in out[1:]: r = it.binop('+', r, x)
  return r


def s_format(it, s, a, k):
  if not isinstance(s, str): return SText((('opaque', '', 'format'),))
  return str_format(it, s, a, k)


def s_join(it, s, a, k):
  seq = a[0]
  def one(e):
    acc = []
    first = True
    for x in e:
      if not first and s: acc.append(('late', s))
      first = False
      if isinstance(x, Blob):
        if getattr(x, 'ch', False) and s == '':
          acc.append(('late', SStr(((TRUE, (Blob(x.base, x.start, x.length),)),)))); continue
        if not getattr(x, 'ch', False):
          ne = it.lt(0, x.length)
          it.raise_('TypeError', 'sequence item: expected string, int found', guard=ne)
          if it.live == 0: dead()
          continue
        acc.append(('late', SText((('opaque', '', 'run'),)))); continue
      if x.__class__.__name__ == 'Opaques':
        acc.append(('late', SText((('opaque', '', 'run'),)))); continue
      def chk(y):
        if isinstance(y, (str, SStr, SText, Opaque)): return y
        if isinstance(y, BlobElem): return SText((('opaque', '', y),))
        err(it, 'TypeError', 'sequence item: expected string, %s found' % type_name(it, y))
      acc.append(('late', it.split(x, chk)))
    return join_late(it, acc)
  return it.fork(it.elements(seq), one)


def s_decode(it, s, a, k):
  enc = (a[0] if a else k.get('encoding', 'ascii'))
  if not isinstance(enc, str): return SText((('opaque', '', s),))
  enc = enc.lower().replace('_', '-')
  if enc == 'hex':
    r = unhex_text(it, s)
    if r is not None: return r
    if isinstance(s, str):
      try: return ''.join(chr(b) for b in bytes.fromhex(s)) if not re.search(r'\s', s) else err(it, 'TypeError', 'Non-hexadecimal digit found')
      except ValueError: err(it, 'TypeError', 'Non-hexadecimal digit found')
    it.raise_('TypeError', 'Non-hexadecimal digit found', guard=it.soft_bool('not hex').node)
    return Opaque('decoded')
  if enc in ('ascii', 'utf-8', 'utf8', 'us-ascii'):
    if isinstance(s, str):
      if enc.startswith('utf'): 
        try: s.encode('latin-1').decode('utf-8')
        except (UnicodeDecodeError, UnicodeEncodeError): err(it, 'UnicodeDecodeError', 'codec')
        return s
      if any(ord(c) > 127 for c in s): err(it, 'UnicodeDecodeError', 'ascii')
      return s
    if isinstance(s, SStr):
      strict = not (len(a) > 1 or 'errors' in k)
      if not strict: return SText((('opaque', '', s),))
      bad = FALSE
      for g, e in s.alts:
        for i, x in enumerate(e):
          if isinstance(x, Blob):
            bad = it.OR(bad, it.AND(g, it.soft_bool('non-ascii run', id(x.base)).node))
          elif isinstance(x, int):
            if x > 127: bad = it.OR(bad, g)
          else:
            bits = it.ext(it.bits(x), 8)
            b = bits[7]
            if enc.startswith('utf') and b != 0:
              # a text cannot start with a continuation byte nor end with a lead byte
              sure = FALSE
              if i == 0: sure = it.AND(b, it.NOT(bits[6]))
              if i == len(e) - 1: sure = it.OR(sure, it.AND(b, bits[6]))
              b = it.OR(sure, it.AND(b, it.soft_bool('invalid utf-8').node))
            bad = it.OR(bad, it.AND(g, b))
      it.raise_('UnicodeDecodeError', 'ascii', guard=bad)
      if it.live == 0: dead()
      return s
    return s
  if enc in ('latin-1', 'latin1', 'iso-8859-1'): return s
  return SText((('opaque', '', s),))


def s_encode(it, s, a, k):
  enc = (a[0] if a else k.get('encoding', 'ascii'))
  enc = enc.lower() if isinstance(enc, str) else '?'
  if enc == 'hex':
    if isinstance(s, (str,)): return s.encode('latin-1').hex()
    if isinstance(s, SStr): return SText((('hexlify', '', s),))
    return SText((('opaque', '', s),))
  if isinstance(s, str):
    if any(ord(c) > 127 for c in s): err(it, 'UnicodeEncodeError', 'ascii')
    return s
  if isinstance(s, SStr): return s_decode(it, s, ['ascii'], {})
  return s


def s_just(side):
  def f(it, s, a, k):
    n = a[0]; fill = a[1] if len(a) > 1 else ' '
    if not isinstance(n, int) or not isinstance(fill, str): return SText((('opaque', '', s),))
    if isinstance(s, str): return s.ljust(n, fill) if side == 'l' else s.rjust(n, fill)
    if isinstance(s, SStr) and not any(has_run(e) for g, e in s.alts):
      pad = lambda e: (ord(fill),) * max(0, n - len(e))
      return it.mkstr(it.norm_seq([(g, tuple(e) + pad(e) if side == 'l' else pad(e) + tuple(e)) for g, e in s.alts]))
    if isinstance(s, SStr):
      out = []
      entry = it.live
      for g, e in s.alts:
        it.live = it.AND(entry, g)
        if it.live == 0: continue
        ln = it.entries_len(e)
        short = it.lt(ln, n)
        ok = it.AND(g, it.NOT(short))
        if it.may(it.NOT(short)): out.append((ok, tuple(e)))
        if it.may(short):
          for h, m in it.cases(ln, 64):
            if m >= n or not it.may(h): continue
            pad = (ord(fill),) * (n - m)
            out.append((it.AND(it.AND(g, short), h), tuple(e) + pad if side == 'l' else pad + tuple(e)))
      it.live = entry
      return it.mkstr(it.norm_seq(out))
    if isinstance(s, SText) and len(s.parts) == 1 and isinstance(s.parts[0], tuple) and s.parts[0][:2] == ('int', 'd') and len(fill) == 1:
      return SText((('int/s', '%s%s%d' % (fill, '<' if side == 'l' else '>', n), s.parts[0][2]),))
    return SText((('opaque', '', s),))
  return f


def s_zfill(it, s, a, k):
  if isinstance(s, SText) and len(s.parts) == 1 and isinstance(s.parts[0], tuple) and s.parts[0][:2] == ('int', 'd') and len(a) == 1 and isinstance(a[0], int) and a[0] > 0:
    return SText((('int', '0%dd' % a[0], s.parts[0][2]),))
  return _concrete('zfill')(it, s, a, k)


STR_METHODS = dict((n, _concrete(n)) for n in ('upper', 'lower', 'strip', 'lstrip', 'rstrip', 'replace', 'split', 'rsplit', 'startswith',
  'endswith', 'isdigit', 'isalpha', 'isalnum', 'isupper', 'islower', 'isspace', 'find', 'rfind', 'index', 'rindex', 'count', 'zfill', 'center', 'title', 'capitalize',
  'splitlines', 'partition', 'rpartition', 'expandtabs', 'swapcase'))
STR_METHODS.update(format=s_format, join=s_join, decode=s_decode, encode=s_encode, ljust=s_just('l'), rjust=s_just('r'), zfill=s_zfill)


def list_index(it, l, a, k):
  if len(a) > 1: U("index with bounds")
  x = a[0]
  ba = isinstance(l, ListV) and l.kind == 'bytearray'
  if ba:
    c = char_code(it, x)
    if c is not None: x = c
  def one(e):
    alts, miss = positions(it, e, x)
    it.raise_('ValueError', 'value not in list', guard=miss)
    if it.live == 0: dead()
    return it.merge_all(alts)
  return it.fork(it.elements(l) if not ba else it.list_live(l), one)


def positions(it, e, x):
  """[(guard, index)] of the first element equal to x, and the guard that there is none"""
  miss = TRUE
  alts = []
  off = 0
  for y in e:
    if isinstance(y, Blob) or y.__class__.__name__ == 'Opaques':
      if not isinstance(y, Blob): U("index in unknown run")
      if it.surely_empty(y): continue
      found = it.soft_bool('found', (id(y.base), it.ikey(y.start), it.ikey(y.length))).node
      pre = it.fresh.pop(('position', id(y.base)), None)
      if pre is not None: it.softs.append(('position', it.loc()))
      pos = pre[1] if pre is not None else it.soft_int('position', 20, False)
      # the position lies inside the run
      found = it.AND(found, it.lt(pos, y.length))
      g = it.AND(miss, found)
      if it.may(g): alts.append((g, it.add(off, pos)))
      miss = it.AND(miss, it.NOT(found))
      off = it.add(off, y.length)
      continue
    eq = it.eq_full(y, x)
    g = it.AND(miss, eq)
    if it.may(g): alts.append((g, off))
    miss = it.AND(miss, it.NOT(eq))
    off = it.add(off, 1)
  return alts, miss


def l_insert(it, l, a, k):
  i = a[0]
  if not isinstance(i, int): U("insert at unknown index")
  v = conv_entry(it, a[1], 'b') if l.kind == 'bytearray' else a[1]
  if it.blob_ctx: U("insert in a loop over unknown data")
  def f(e):
    if i == 0: return (v,) + tuple(e)
    if has_run(e): U("insert into unknown data")
    x = list(e); x.insert(i, v)
    return tuple(x)
  it.list_modify(l, f, 'insert')


def l_remove(it, l, a, k):
  x = a[0]
  def f(e):
    for i, y in enumerate(e):
      if isinstance(y, Blob): U("remove from unknown data")
      eq = it.eq_full(y, x)
      if it.must(eq): return tuple(e[:i]) + tuple(e[i + 1:])
      if it.may(eq): U("remove of uncertain element")
    err(it, 'ValueError', 'list.remove(x): x not in list')
  it.list_modify(l, f, 'remove')


def l_sort(it, l, a, k):
  if it.epoch > l.epoch: it.note_mutation(l, 'sort')
  def f(e):
    if has_run(e): U("sorting unknown data")
    return tuple(sort_entries(it, list(e), k.get('key'), k.get('reverse', False)))
  it.list_modify(l, f, 'sort')


def sort_entries(it, e, key, rev):
  ks = [it.call(key, [x], {}) if key is not None else x for x in e]
  ks = [unenum(it, x) for x in ks]
  if all(isinstance(x, (int, float)) for x in ks) or all(isinstance(x, str) for x in ks) or \
     all(isinstance(x, tuple) and all(isinstance(y, (int, str)) for y in x) for x in ks):
    order = sorted(range(len(e)), key=lambda i: ks[i], reverse=bool(rev))
    return [e[i] for i in order]
  if len(e) <= 1: return e
  U("sorting unknown values")


def l_reverse(it, l, a, k):
  def f(e):
    if has_run(e): U("reversing unknown data")
    return tuple(reversed(e))
  it.list_modify(l, f, 'reverse')


def l_count(it, l, a, k):
  def one(e):
    n = 0
    for y in e:
      if has_run((y,)): return it.soft_int('count', 16, False)
      eq = it.eq_full(y, a[0])
      n = it.add(n, it.norm_int((eq, FALSE)))
    return n
  return it.fork(it.list_live(l), one)


LIST_METHODS = {
  'append': lambda it, l, a, k: list_append(it, l, a[0]),
  'extend': lambda it, l, a, k: list_extend(it, l, a[0]),
  'pop': lambda it, l, a, k: list_pop(it, l, a),
  'index': list_index, 'insert': l_insert, 'remove': l_remove, 'sort': l_sort, 'reverse': l_reverse, 'count': l_count,
}


def apart(it, v): return SApart(v.bits) if isinstance(v, SI) else v


def ba_find(it, l, a, k):
  c = char_code(it, a[0])
  start = a[1] if len(a) > 1 else 0
  if c is None or len(a) > 2: return it.soft_int('find', 20)
  def one(e):
    entry = it.live
    res = []
    for g, rest, short in (it.drop(e, start) if start != 0 else [(TRUE, e, FALSE)]):
      it.live = it.AND(entry, g)
      if it.live == 0: continue
      alts, miss = positions(it, rest, c)
      res += [(it.AND(g, h), apart(it, it.add(start, v))) for h, v in alts]
      if it.may(miss): res.append((it.AND(g, miss), -1))
    it.live = entry
    return it.merge_all(res)
  if not isinstance(start, int) or start < 0: return it.soft_int('find', 20)
  return it.fork(it.list_live(l), one)


BA_METHODS = {
  'decode': lambda it, l, a, k: s_decode(it, bytes_of(it, l), a, k),
  'find': ba_find,
  'join': lambda it, l, a, k: s_join(it, bytes_of(it, l), a, k),
}


def d_get(it, d, a, k):
  default = a[1] if len(a) > 1 else None
  return it.dict_get(d, a[0], lambda: default)


def d_update(it, d, a, k):
  for src in a:
    if isinstance(src, DictV):
      for key, (kk, vv) in list(src.items.items()): it.dict_set(d, kk, vv)
    else:
      alts = it.elements(src)
      if len(alts) != 1 or has_run(alts[0][1]): U("dict.update")
      for x in alts[0][1]: it.dict_set(d, it.get_item(x, 0), it.get_item(x, 1))
  for n, v in k.items(): it.dict_set(d, n, v)


def d_pop(it, d, a, k):
  def missing():
    if len(a) > 1: return a[1]
    err(it, 'KeyError', 'key')
  v = it.dict_get(d, a[0], missing)
  if it.hkey(a[0]) in d.items: it.dict_set(d, a[0], UNDEF)
  return v


def d_setdefault(it, d, a, k):
  default = a[1] if len(a) > 1 else None
  def missing():
    it.dict_set(d, a[0], default)
    return default
  return it.dict_get(d, a[0], missing)


def d_copy(it, d, a, k):
  n = it.new_dict()
  n.items = dict((x, list(y)) for x, y in d.items.items())
  return n


def d_list(what):
  return lambda it, d, a, k: it.new_seq(it.norm_seq(it.dict_keys(d, what)))


def d_clear(it, d, a, k):
  for key, (kk, vv) in list(d.items.items()): it.dict_set(d, kk, UNDEF)


DICT_METHODS = dict(get=d_get, update=d_update, pop=d_pop, setdefault=d_setdefault, copy=d_copy, clear=d_clear,
  items=d_list('kv'), iteritems=d_list('kv'), keys=d_list('k'), iterkeys=d_list('k'), values=d_list('v'), itervalues=d_list('v'),
  has_key=lambda it, d, a, k: contains(it, d, a[0]))


def set_add(it, s, a, k):
  it.dict_set(s, a[0], True)


SET_METHODS = dict(add=set_add, discard=lambda it, s, a, k: it.dict_set(s, a[0], UNDEF) if it.hkey(a[0]) in s.items else None,
  update=lambda it, s, a, k: [[set_add(it, s, [x], {}) for x in e] for g, e in it.elements(a[0])] and None,
  copy=lambda it, s, a, k: _setcopy(it, s))


def _setcopy(it, s):
  d = SetV(it.live, it.epoch, it.loc()); d.items.update((k, list(v)) for k, v in s.items.items()); return d


def make_set(it, l):
  d = SetV(it.live, it.epoch, it.loc())
  alts = it.elements(l)
  if len(alts) != 1: U("set of alternatives")
  for x in alts[0][1]:
    if it.hkey(x) is None: U("set of unknown values")
    d.items[it.hkey(x)] = [x, True]
  return d


# ------------------------------------------------------------------------------------------------- objects
def obj_native_attr(it, o, name):
  if name == '__class__': return o.cls
  if name == '__dict__':
    d = ObjDictV(it.live, it.epoch, it.loc())
    d.owner = o
    for k, v in o.attrs.items():
      if k.startswith('$'): continue
      if v is UNDEF: continue
      d.items[('s', k)] = [k, v]
    return d
  if name == '__module__': return o.cls.module.name if o.cls.module is not None else '__builtin__'
  if name == '__doc__': return None
  if name == 'next' and False: return None
  for c in o.cls.mro:
    t = NATIVE_METHODS.get(id(c))
    if t and name in t:
      f = t[name]
      if f.__name__ == '_prop': return f(it, o)
      return Native(c.name + '.' + name, lambda it, a, k: f(it, o, a, k))
  if name in ('__init__',) and not o.cls.oldstyle: return Native('object.__init__', lambda it, a, k: None)
  if name in ('__hash__',): return Native('hash', lambda it, a, k: it.soft_int('hash', 32))
  if name in ('__str__', '__repr__') and not o.cls.oldstyle: return Native(name, lambda it, a, k: SText(('<', ('object', '', o.cls.name), '>')))
  return None


def native_set(it, o, name, v):
  for c in o.cls.mro:
    t = NATIVE_SET.get(id(c))
    if t and name in t:
      t[name](it, o, v); return True
  return False


NATIVE_METHODS = {}
NATIVE_SET = {}


def object_method(it, name):
  if name == '__init__': return Native('object.__init__', lambda it, a, k: exc_init(it, a))
  if name in ('__setattr__',): return Native('object.__setattr__', lambda it, a, k: it.set_attr(a[0], a[1], a[2]))
  if name in ('__getattribute__',): return Native('object.__getattribute__', lambda it, a, k: it.get_attr(a[0], a[1]))
  if name in ('__str__', '__repr__'): return Native(name, lambda it, a, k: SText((('opaque', '', 'object'),)))
  if name == '__eq__' or name == '__ne__' or name == '__hash__': return None
  return None


def exc_init(it, a):
  if isinstance(a[0], Obj) and is_exc(a[0].cls):
    a[0].attrs['args'] = tuple(a[1:])
    a[0].attrs['message'] = a[1] if len(a) == 2 else ''
  elif len(a) > 1 and isinstance(a[0], Obj):
    for c in a[0].cls.mro:
      if c.native and c is not OBJECT: return None
    err(it, 'TypeError', 'object.__init__() takes no parameters')
  return None


def class_special(it, c, name):
  if name == '__name__': return c.name
  if name == '__module__': return c.module.name if c.module is not None else '__builtin__'
  if name == '__mro__': return tuple(c.mro)
  if name == '__bases__': return tuple(c.bases)
  if name == '__doc__': return None
  if name == '__dict__':
    d = it.new_dict()
    for k, v in c.ns.items(): d.items[('s', k)] = [k, v]
    return d
  if name == '__members__' and c.is_enum:
    d = it.new_dict()
    for k, v in c.enum_map.items(): d.items[('s', k)] = [k, v]
    return d
  if name == '__class__': return TYPE
  for b in c.mro:
    t = NATIVE_METHODS.get(id(b))
    if t and name in t:
      f = t[name]
      return Native(b.name + '.' + name, lambda it, a, k: f(it, a[0], a[1:], k))
  if name == '__init__':
    return Native('object.__init__', lambda it, a, k: exc_init(it, a))
  if name in ('__new__',) and not c.oldstyle:
    return Native('object.__new__', lambda it, a, k: it.new_obj(a[0]))
  if name in ('__str__', '__repr__') and not c.oldstyle:
    return Native(name, lambda it, a, k: SText((('opaque', '', 'object'),)))
  if c is DICT and name == 'fromkeys':
    def fromkeys(it, a, k):
      alts = it.elements(a[0])
      if len(alts) != 1 or has_run(alts[0][1]): U("dict.fromkeys")
      d = it.new_dict()
      for x in alts[0][1]: it.dict_set(d, x, a[1] if len(a) > 1 else None)
      return d
    return Native('fromkeys', fromkeys, lift=False)
  if c is STR and name in STR_METHODS:
    f = STR_METHODS[name]
    return Native('str.' + name, lambda it, a, k: f(it, a[0], a[1:], k))
  if c is BYTEARRAY and name == 'fromhex':
    def fromhex(it, a, k):
      if isinstance(a[0], str):
        try: return it.new_seq(((TRUE, tuple(bytes.fromhex(a[0]))),), 'bytearray')
        except ValueError: err(it, 'ValueError', 'non-hexadecimal number found')
      r = unhex_text(it, a[0], True)
      return Opaque('bytearray.fromhex') if r is None else bytearray_ctor(it, BYTEARRAY, [r], {})
    return Native('fromhex', fromhex)
  return None


def obj_iter(it, o):
  return None


def default_init(it, o, args, kwargs):
  if is_exc(o.cls): return True
  for c in o.cls.mro:
    if c.native and c is not OBJECT:
      m = NATIVE_METHODS.get(id(c), {}).get('__init__')
      if m is not None: m(it, o, list(args), kwargs)
      return True
  return False


def prepare_object(it, o, cls, args, kwargs):
  """state a modelled base class sets up at allocation"""
  if is_exc(cls):
    o.attrs['args'] = tuple(args)
    o.attrs['message'] = args[0] if len(args) == 1 else ''
    o.native = {}


def opaque_class(it, b):
  if isinstance(b, Opaque):
    c = ClassV(b.tag, [OBJECT], {}, None, native=True)
    c.opaque = True
    return c
  if isinstance(b, Native): return OBJECT
  U("base class %r" % (b,))


def call_opaque(it, fn, args, kwargs):
  h = it.hooks.get('opaque:' + fn.tag)
  if h is not None: return h(it, args, kwargs)
  return Opaque(fn.tag + '()')


# ------------------------------------------------------------------------------------------------- builtins
def b_len(it, a, k):
  v = a[0]
  if isinstance(v, (str, tuple)): return len(v)
  if isinstance(v, (SStr, ListV)):
    if isinstance(v, ListV) and v.kind == 'gen': err(it, 'TypeError', "object of type 'generator' has no len()")
    alts = v.alts
    return it.fork([(g, e) for g, e in alts if it.may(g)], lambda e: it.entries_len(e))
  if hex_text(v):
    n = 0
    for p in v.parts: n = it.add(n, len(p) if isinstance(p, str) else it.binop('*', 2, b_len(it, [p[2]], {})))
    return n
  if isinstance(v, DictV):
    n = 0
    for key, (kk, x) in v.items.items():
      p = FALSE
      for g, y in it.alts(x):
        if y is not UNDEF: p = it.OR(p, g)
      n = it.add(n, it.norm_int((p, FALSE)))
    return n
  if isinstance(v, Obj):
    m, owner = v.cls.lookup('__len__')
    if m is not None:
      r = it.call(it.bind(m, v, owner), [], {})
      def chk(x):
        if isinstance(x, (bool, SB)): x = it.norm_int(it.bits(x))
        if not it.is_intlike(x):
          if isinstance(x, Opaque): return it.soft_int('len', 16, False)
          err(it, 'TypeError', 'an integer is required')
        it.raise_('ValueError', '__len__() should return >= 0', guard=it.lt(x, 0))
        return x
      return it.split(r, chk)
    t = obj_native_attr(it, v, '__len__')
    if t is not None: return it.call(t, [], {})
    err(it, 'TypeError', "object of type '%s' has no len()" % v.cls.name if not v.cls.oldstyle else 'len')
  if isinstance(v, ClassV) and v.is_enum: return len(v.members)
  if isinstance(v, SText): return it.soft_int('length of text', 16, False)
  if isinstance(v, Opaque): return it.soft_int('length of ' + v.tag, 16, False)
  err(it, 'TypeError', "object of type '%s' has no len()" % type_name(it, v))


def b_range(it, a, k):
  a = [as_index(it, x) for x in a]
  for x in a:
    if not it.is_intlike(x): err(it, 'TypeError', 'range() integer argument expected, got %s.' % type_name(it, x))
  if all(isinstance(x, int) for x in a):
    r = range(*a)
    if len(r) > 4000: U("long range")
    return it.new_list(tuple(r))
  if len(a) == 1 or (len(a) == 2 and isinstance(a[0], int)):
    lo = a[0] if len(a) == 2 else 0
    hi = a[-1]
    mx = it.int_range(hi)[1]
    if mx - lo > 300: U("range over an unknown length")
    cs = it.cases(hi, 400)
    return it.fork(cs, lambda n: it.new_list(tuple(range(lo, n))))
  i = [j for j, x in enumerate(a) if not isinstance(x, int)][0]
  return it.fork(it.cases(a[i], 300), lambda n: b_range(it, a[:i] + [n] + a[i + 1:], k))


def int_ctor(it, cls, args, kwargs):
  if not args: return 0
  if len(args) == 2 or 'base' in kwargs:
    s, base = args[0], (args[1] if len(args) == 2 else kwargs['base'])
    def parse(s, base):
      if isinstance(s, str) and isinstance(base, int):
        try: return int(s, base)
        except ValueError: err(it, 'ValueError', 'invalid literal for int()')
      if isinstance(s, (SStr, SText)) and isinstance(base, int) and base == 10: return int_ctor(it, cls, [s], {})
      if isinstance(s, (SStr, SText, Opaque)):
        if isinstance(s, SText) and len(s.parts) == 1 and s.parts[0][0] == 'hexlify' and base == 16:
          es = it.seq_entries(s.parts[0][2])
          if len(es) == 1 and not has_run(es[0][1]) and es[0][1]: return be_int(it, es[0][1])
        if isinstance(base, int) and base in (2, 8, 16):
          x = expand_text(it, s) if isinstance(s, SText) else s
          if isinstance(x, (str, SStr, Union)):
            def chars(y):
              r = int_ctor(it, cls, [y, base], {}) if isinstance(y, str) else int_of_chars(it, y, base)
              if r is not None: return r
              it.raise_('ValueError', 'invalid literal for int()', guard=it.soft_bool('invalid literal').node)
              return it.soft_int('int of text', 32)
            return it.splits([x], chars)
        it.raise_('ValueError', 'invalid literal for int()', guard=it.soft_bool('invalid literal').node)
        return it.soft_int('int of text', 32)
      err(it, 'TypeError', "int() can't convert non-string with explicit base")
    return it.splits([s, base], parse)
  def one(v):
    from .interp import SFloat
    v = unenum(it, v)
    if isinstance(v, (bool, SB)): return it.norm_int(it.bits(v))
    if it.is_intlike(v): return v
    if isinstance(v, float):
      if v != v or v in (float('inf'), float('-inf')): err(it, 'OverflowError' if v == v else 'ValueError', 'cannot convert float')
      return int(v)
    if isinstance(v, SFloat):
      if v.den == 1: return v.num
      neg = it.lt(v.num, 0)
      if it.may(neg):
        q = it.fork([(neg, 1), (it.NOT(neg), 0)], lambda s: it.neg(it.divmod_const(it.neg(v.num), v.den)[0]) if s else it.divmod_const(v.num, v.den)[0])
        return q
      return it.divmod_const(v.num, v.den)[0]
    if isinstance(v, str):
      try: return int(v)
      except ValueError: err(it, 'ValueError', 'invalid literal for int() with base 10: %r' % v)
    if isinstance(v, SText):
      r = parse_decimal(it, v)
      if r is not None: return r
      x = expand_text(it, v)
      if isinstance(x, (str, SStr, Union)): return it.splits([x], one)
    if isinstance(v, SStr):
      r = int_of_chars(it, v)
      if r is not None: return r
    if isinstance(v, (SStr, SText, Opaque)):
      it.raise_('ValueError', 'invalid literal for int()', guard=it.soft_bool('invalid literal', id(v)).node)
      return it.soft_int('int of text', 32)
    if isinstance(v, BlobElem):
      if v.conv is None: return v
      U("int of unknown character")
    if isinstance(v, Obj):
      m, owner = v.cls.lookup('__int__')
      if m is not None: return it.call(it.bind(m, v, owner), [], {})
      m, owner = v.cls.lookup('__trunc__')
      if m is not None: return it.call(it.bind(m, v, owner), [], {})
    err(it, 'TypeError', "int() argument must be a string or a number, not '%s'" % type_name(it, v))
  return it.split(args[0], one)


DEC = re.compile(r'^(0?[<>=]?)(0?)(\d*)d?$')


def parse_decimal(it, t):
  """int(text) when the text is one formatted integer with a padding that int() ignores"""
  if len(t.parts) == 1 and isinstance(t.parts[0], tuple) and t.parts[0][0] in ('int', 'int/s'):
    spec = t.parts[0][1]
    v = t.parts[0][2]
    neg = it.may(it.lt(v, 0))
    if spec in ('', 'd'): return v
    m = re.match(r'^(?:(.)?([<>=]))?(0?)(\d*)(d?)$', spec)
    if m and not neg:
      fill, al, zero, width, code = m.groups()
      fill = fill or ('0' if zero else ' ')
      if al == '<' and fill == '0': return None
      if fill in ('0', ' '): return v
    if spec.endswith(('x', 'X', 'o', 'b')): return None
  return None


def digit_chars(it, v, spec, as_text=False):
  """characters of a formatted number: alternatives (guard, codes), or None"""
  m = INTSPEC.match(spec)
  if not m or m.group(3) or m.group(6): return None
  al, sign, _, zero, width, _, code = m.groups()
  code = code or 'd'
  if as_text and code == 's': code = 'd'
  base = {'d': 10, 'x': 16, 'X': 16, 'o': 8, 'b': 2}.get(code)
  if base is None or (sign and sign != '-'): return None
  if not isinstance(v, (int, SI)): return None
  fill, how = ' ', '<' if as_text else '>'
  if zero: fill, how = '0', '='
  if al: fill, how = (al[0], al[1]) if len(al) == 2 else (' ', al[0])
  width = int(width or 0)
  neg = it.lt(v, 0)
  bits = it.bits(v)
  per = {16: 4, 8: 3, 2: 1}.get(base)
  if per and isinstance(v, SI) and fill == '0' and how in ('=', '>') and not it.may(neg) and len(bits) - 1 <= per * width:
    bits = it.ext(bits, per * width + 1)
    t = []
    for i in reversed(range(width)):
      d = it.norm_int(tuple(bits[per * i:per * i + per]) + (FALSE,))
      c = it.add(d, 48)
      if base == 16: c = it.ite_val(it.lt(d, 10), c, it.add(d, 87 if code == 'x' else 55))
      t.append(c)
    return [(TRUE, tuple(t))]
  if isinstance(v, SI) and len(bits) > 21: return None
  out = []
  for g, minus in ((it.NOT(neg), False), (neg, True)):
    if not it.may(g): continue
    saved = it.live
    it.live = it.AND(saved, g)
    x = it.neg(v) if minus else v
    it.live = saved
    n = 1
    while True:
      h = it.AND(g, it.lt(x, base ** n))
      if n > 1: h = it.AND(h, it.NOT(it.lt(x, base ** (n - 1))))
      if it.may(h):
        ds = []
        y = x
        for i in range(n):
          y, d = it.divmod_const(y, base)
          c = it.add(d, 48)
          if base == 16: c = it.ite_val(it.lt(d, 10), c, it.add(d, 87 if code == 'x' else 55))
          ds.append(c)
        ds.reverse()
        sg = [45] if minus else []
        padn = max(0, width - len(ds) - len(sg))
        f = [ord(fill)] * padn
        if how == '<': t = sg + ds + f
        elif how == '^': t = f[:padn // 2] + sg + ds + f[padn // 2:]
        elif how == '=': t = sg + f + ds
        else: t = f + sg + ds
        out.append((h, tuple(t)))
      if not it.may(it.AND(g, it.NOT(it.lt(x, base ** n)))): break
      n += 1
      if n > 22: return None
  return out


def expand_text(it, t):
  """the characters of a text made of literals and formatted numbers of bounded width, or None"""
  acc = [(TRUE, ())]
  for p in t.parts:
    if isinstance(p, str): alts = [(TRUE, tuple(ord(c) for c in p))]
    elif p[0] in ('int', 'int/s'): alts = digit_chars(it, p[2], p[1], p[0] == 'int/s')
    elif p[0] == 'hexlify' and isinstance(p[2], (str, SStr)): alts = hex_chars(it, p[2])
    else: return None
    if alts is None: return None
    acc = [(it.AND(g, h), e + f) for g, e in acc for h, f in alts if it.may(it.AND(g, h))]
    if len(acc) > 64: return None
  return it.mkstr(tuple(acc))


def hex_chars(it, s):
  out = []
  for g, e in it.seq_entries(s):
    if has_run(e) or not all(isinstance(x, (int, SI)) for x in e): return None
    t = []
    for x in e:
      b = it.ext(it.bits(x), 9)
      for n in (b[4:8], b[:4]):
        d = it.norm_int(tuple(n) + (FALSE,))
        t.append(it.ite_val(it.lt(d, 10), it.add(d, 48), it.add(d, 87)))
    out.append((g, tuple(t)))
  return out


def int_of_chars(it, s, base=10):
  """int(text) for a text of known length with unknown characters"""
  out = []
  bad = FALSE
  for g, e in s.alts:
    if has_run(e) or any(not (isinstance(x, int) or isinstance(x, SI)) for x in e): return None
    if not it.may(g): continue
    e = list(e)
    ws = (9, 10, 11, 12, 13, 32)
    while e and e[0] in ws: e.pop(0)
    while e and e[-1] in ws: e.pop()
    minus = False
    if e and e[0] in (43, 45): minus = e.pop(0) == 45
    if base == 16 and len(e) > 2 and e[0] == 48 and e[1] in (88, 120): e = e[2:]
    if not e: bad = it.OR(bad, g); continue
    v = 0
    okg = g
    for x in e:
      isd = it.AND(it.NOT(it.lt(x, 48)), it.lt(x, 48 + min(base, 10)))
      d = it.sub(x, 48)
      good = isd
      if base == 16:
        for a in (65, 97):
          isl = it.AND(it.NOT(it.lt(x, a)), it.lt(x, a + 6))
          d = it.ite_val(isl, it.sub(x, a - 10), d)
          good = it.OR(good, isl)
      # a sign or a blank in an unknown character is not followed further
      okg = it.AND(okg, good)
      v = it.add(it.binop1('*', v, base), d)
    bad = it.OR(bad, it.AND(g, it.NOT(okg)))
    if it.may(okg): out.append((okg, it.neg(v) if minus else v))
  bad = it.AND(bad, it.live)
  if it.may(bad): it.raise_('ValueError', 'invalid literal for int()', guard=bad)
  if not out: dead()
  return it.merge_all(out)


def be_int(it, entries):
  acc = ()
  for x in reversed(entries):
    b = it.ext(it.bits(x), 9)[:8] if not isinstance(x, int) else tuple((x >> i) & 1 for i in range(8))
    acc = acc + tuple(b)
  return it.norm_int(acc + (FALSE,))


def str_ctor(it, cls, args, kwargs):
  if not args: return ''
  return it.split(args[0], lambda v: to_str(it, v))


def list_ctor(it, cls, args, kwargs):
  if not args: 
    l = it.new_list()
    new_in_blob(it, l)
    return l
  def one(v):
    l = it.new_seq(it.norm_seq(it.elements(v)))
    new_in_blob(it, l)
    return l
  return it.split(args[0], one)


def tuple_ctor(it, cls, args, kwargs):
  if not args: return ()
  def one(v):
    alts = it.elements(v)
    for g, e in alts:
      if has_run(e):
        l = it.new_seq(it.norm_seq(alts)); return l
    return it.merge_all([(g, tuple(e)) for g, e in alts])
  return it.split(args[0], one)


def bytearray_ctor(it, cls, args, kwargs):
  if not args:
    l = it.new_list((), 'bytearray'); new_in_blob(it, l); return l
  def one(v):
    v = unenum(it, v)
    if it.is_intlike(v) and not isinstance(v, (bool, SB)):
      def n(m):
        if m < 0: err(it, 'ValueError', 'negative count')
        if m > 4096: U("large bytearray")
        return it.new_list((0,) * m, 'bytearray')
      if isinstance(v, SI):
        it.raise_('ValueError', 'negative count', guard=it.lt(v, 0))
        if it.live == 0: dead()
        return it.fork(it.cases(v, 300), n)
      return n(v)
    if isinstance(v, Opaque): U("bytearray of unknown value")
    if isinstance(v, SText):
      if len(v.parts) == 1 and v.parts[0][0] == 'str': v = v.parts[0][2]
      else: U("bytearray of text")
    if v is None: err(it, 'TypeError', "'NoneType' object is not iterable")
    l = it.new_seq(it.norm_seq(byte_seq_alts(it, v)), 'bytearray')
    new_in_blob(it, l)
    return l
  return it.split(args[0], one)


def dict_ctor(it, cls, args, kwargs):
  d = it.new_dict()
  if args:
    v = args[0]
    if isinstance(v, DictV):
      d.items = dict((x, list(y)) for x, y in v.items.items())
    else:
      alts = it.elements(v)
      if len(alts) != 1: U("dict of alternatives")
      for e in alts[0][1]:
        kv = it.unpack(e, 2)
        it.dict_set(d, kv[0], kv[1])
  for n, v in kwargs.items(): it.dict_set(d, n, v)
  return d


def bool_ctor(it, cls, args, kwargs):
  if not args: return False
  return it.mkbool(it.truth(args[0]))


def float_ctor(it, cls, args, kwargs):
  if not args: return 0.0
  def one(v):
    v = unenum(it, v)
    if isinstance(v, (bool, SB)): v = it.norm_int(it.bits(v))
    if isinstance(v, (int, float)): return float(v)
    if it.is_intlike(v): return it.mkfloat(v)
    if isinstance(v, str):
      try: return float(v)
      except ValueError: err(it, 'ValueError', 'could not convert string to float')
    if v.__class__.__name__ == 'SFloat': return v
    if isinstance(v, (Opaque, SText, SStr)): return Opaque('float')
    err(it, 'TypeError', 'float() argument must be a string or a number')
  return it.split(args[0], one)


def type_ctor(it, cls, args, kwargs):
  if len(args) == 3:
    name, bases, ns = args
    nsd = dict((kk, vv) for key, (kk, vv) in ns.items.items())
    return ClassV(name, list(bases), nsd, it.frames[-1].module)
  def one(v):
    t = type_of(it, v)
    if isinstance(v, Opaque): return Opaque('type')
    if isinstance(v, Obj) and v.cls.oldstyle: return INSTANCE
    return t
  return it.split(args[0], one)


INT.ctor = int_ctor; LONG.ctor = int_ctor; STR.ctor = str_ctor; UNICODE.ctor = str_ctor; LIST.ctor = list_ctor
TUPLE.ctor = tuple_ctor; BYTEARRAY.ctor = bytearray_ctor; DICT.ctor = dict_ctor; BOOL.ctor = bool_ctor
FLOAT.ctor = float_ctor; TYPE.ctor = type_ctor
SET.ctor = lambda it, cls, a, k: make_set(it, a[0]) if a else SetV(it.live, it.epoch, it.loc())
FROZENSET.ctor = SET.ctor
XRANGE.ctor = lambda it, cls, a, k: it.call(Native('xrange', b_range), a, k)
STATICMETHOD.ctor = lambda it, cls, a, k: StaticM(a[0])
CLASSMETHOD.ctor = lambda it, cls, a, k: ClassM(a[0])
PROPERTY.ctor = lambda it, cls, a, k: PropertyV(a[0] if a else k.get('fget'), a[1] if len(a) > 1 else k.get('fset'))
for _c in (INT, LONG, STR, UNICODE, LIST, TUPLE, BYTEARRAY, DICT, BOOL, FLOAT, TYPE, SET, FROZENSET, XRANGE, STATICMETHOD, CLASSMETHOD, PROPERTY):
  _c.builtin = True


def b_ord(it, a, k):
  v = a[0]
  c = char_code(it, v)
  if c is not None: return c
  if isinstance(v, BlobElem) and v.conv == 'chr': return BlobElem(v.blob, None)
  if isinstance(v, (str, SStr)): err(it, 'TypeError', 'ord() expected a character')
  if isinstance(v, (SText, Opaque)): return it.soft_int('ord', 8, False)
  err(it, 'TypeError', 'ord() expected string of length 1, but %s found' % type_name(it, v))


def b_chr(it, a, k):
  v = as_index(it, a[0])
  if isinstance(v, BlobElem):
    if v.conv is None: return BlobElem(v.blob, 'chr')
    err(it, 'TypeError', 'an integer is required')
  if not it.is_intlike(v): err(it, 'TypeError', 'an integer is required')
  bad = it.OR(it.lt(v, 0), it.lt(255, v))
  it.raise_('ValueError', 'chr() arg not in range(256)', guard=bad)
  if it.live == 0: dead()
  if isinstance(v, SI): v = it.norm_int(it.ext(v.bits, 9)[:8] + (FALSE,))
  return it.char_of(v)


def map_alts(it, fn, v):
  out = []
  entry = it.live
  total = FALSE
  alts = it.elements(v)
  entry = it.live
  for g, e in alts:
    it.live = it.AND(entry, g)
    if it.live == 0: continue
    try:
      res = []
      for x in e:
        if x.__class__.__name__ == 'Opaques':
          res.append(x); continue
        if isinstance(x, Blob):
          el = BlobElem(x, 'chr' if getattr(x, 'ch', False) else None)
          start = it.live
          it.blob_ctx.append((x, None, set(), 99))
          try: r = it.call(fn, [el], {}) if fn is not None else el
          finally: it.blob_ctx.pop()
          if it.live != start: U("mapping unknown data may fail")
          res.append(it.blob_result(r))
          continue
        res.append(it.call(fn, [x], {}) if fn is not None else x)
      out.append((g, tuple(res)))
      total = it.OR(total, it.live)
    except Exception as ex:
      if ex.__class__.__name__ != 'Dead': raise
  it.live = total
  if total == 0: dead()
  return it.norm_seq(out)


def b_map(it, a, k):
  if len(a) == 2:
    if isinstance(a[0], Opaque): return Opaque('map')
    return it.new_seq(map_alts(it, a[0], a[1]))
  out = []
  live, total = it.live, FALSE
  for g, es in aligned(it, a[1:]):
    it.live = it.AND(live, g)
    if it.live == 0: continue
    n = max(len(x) for x in es)
    es = [tuple(x) + (None,) * (n - len(x)) for x in es]
    try: res = tuple(tuple(x) if a[0] is None else it.call(a[0], list(x), {}) for x in zip(*es))
    except Exception as ex:
      if ex.__class__.__name__ != 'Dead': raise
      it.live = FALSE; res = ()
    total = it.OR(total, it.live)
    if it.live: out.append((it.AND(g, it.live) if it.live != it.AND(live, g) else g, res))
  it.live = total
  if total == 0: dead()
  return it.new_seq(it.norm_seq(out))


def concrete_elems(it, v):
  alts = it.elements(v)
  if len(alts) != 1: U("alternatives of an iterable")
  e = alts[0][1]
  if has_run(e): U("unknown run")
  return e


def aligned(it, vs):
  """[(guard, [elements of each])] for every combination of alternatives that can occur"""
  out = [(TRUE, [])]
  for v in vs:
    new = []
    for g, e in it.elements(v):
      if has_run(e): U("unknown run")
      for g0, es in out:
        g1 = it.AND(g0, g)
        if g1 and it.may(g1): new.append((g1, es + [e]))
    if len(new) > 200: U("alternatives of an iterable")
    out = new
  return out


def b_filter(it, a, k):
  out = []
  live, total = it.live, FALSE
  for g, (es,) in aligned(it, a[1:2]):
    it.live = it.AND(live, g)
    if it.live == 0: continue
    res = it.new_list()
    try:
      for x in es:
        c = it.truth(it.call(a[0], [x], {}) if a[0] is not None else x)
        it.branch(c, lambda: it.list_modify(res, lambda e: e + (x,), 'append', log=False), lambda: None)
    except Exception as ex:
      if ex.__class__.__name__ != 'Dead': raise
      it.live = FALSE
    total = it.OR(total, it.live)
    if it.live: out += [(it.AND(g, g2), e2) for g2, e2 in it.elements(res)]
  it.live = total
  if total == 0: dead()
  return it.new_seq(it.norm_seq(out))


def b_zip(it, a, k):
  return it.new_seq(it.norm_seq([(g, tuple(tuple(x) for x in zip(*es))) for g, es in aligned(it, a)]))


def b_enumerate(it, a, k):
  start = a[1] if len(a) > 1 else k.get('start', 0)
  out = []
  for g, e in it.elements(a[0]):
    if has_run(e): U("enumerating an unknown run")
    out.append((g, tuple((start + i, x) for i, x in enumerate(e))))
  return it.new_seq(it.norm_seq(out))


def b_reversed(it, a, k):
  out = []
  for g, e in it.elements(a[0]):
    if has_run(e): U("reversing an unknown run")
    out.append((g, tuple(reversed(e))))
  return it.new_seq(it.norm_seq(out))


def b_sorted(it, a, k):
  out = []
  key = k.get('key') or (a[2] if len(a) > 2 else None)
  for g, e in it.elements(a[0]):
    if has_run(e): U("sorting an unknown run")
    out.append((g, tuple(sort_entries(it, list(e), key, k.get('reverse', False)))))
  return it.new_seq(it.norm_seq(out))


def b_sum(it, a, k):
  def one(e):
    acc = a[1] if len(a) > 1 else 0
    for x in e:
      if has_run((x,)): x = it.soft_int('sum of a run', 24, False)
      acc = it.binop('+', acc, x)
    return acc
  return it.fork(it.elements(a[0]), one)


def b_minmax(which):
  def f(it, a, k):
    key = k.get('key')
    def one(e):
      if not e: err(it, 'ValueError', which + '() arg is an empty sequence')
      acc = e[0]
      if has_run(e): return it.soft_int(which, 8, False)
      for x in e[1:]:
        ka, kx = (it.call(key, [acc], {}), it.call(key, [x], {})) if key is not None else (acc, x)
        c = it.truth(it.compare1('Lt' if which == 'min' else 'Gt', kx, ka)) if not isinstance(ka, Union) and not isinstance(kx, Union) else \
          it.truth(it.splits([kx, ka], lambda p, q: it.compare1('Lt' if which == 'min' else 'Gt', p, q)))
        acc = it.ite_val(c, x, acc)
      return acc
    if len(a) == 1: return it.fork(it.elements(a[0]), one)
    return one(tuple(a))
  return f


def b_anyall(is_any):
  def f(it, a, k):
    r = FALSE if is_any else TRUE
    out = FALSE
    for g, e in it.elements(a[0]):
      r = FALSE if is_any else TRUE
      for x in e:
        if has_run((x,)): t = it.soft_bool('any of a run').node
        else: t = it.truth(x)
        r = it.OR(r, t) if is_any else it.AND(r, t)
      out = it.OR(out, it.AND(g, r))
    return it.mkbool(out)
  return f


def b_isinstance(it, a, k):
  return it.mkbool(isinstance_node(it, a[0], a[1]))


def b_issubclass(it, a, k):
  if isinstance(a[0], ClassV):
    ts = a[1] if isinstance(a[1], tuple) else (a[1],)
    return any(isinstance(t, ClassV) and a[0].issub(t) for t in ts)
  if isinstance(a[0], Opaque): return it.soft_bool('issubclass')
  err(it, 'TypeError', 'issubclass() arg 1 must be a class')


def b_hasattr(it, a, k):
  return it.mkbool(it.has_attr(a[0], a[1]))


def b_getattr(it, a, k):
  if isinstance(a[1], (SStr, SText, Opaque)): return Opaque('attribute')
  if len(a) == 3:
    h = it.has_attr(a[0], a[1])
    return it.fork([(h, 1), (it.NOT(h), 0)], lambda x: it.get_attr(a[0], a[1]) if x else a[2])
  return it.get_attr(a[0], a[1])


def b_setattr(it, a, k):
  if not isinstance(a[1], str): U("setattr with unknown name")
  it.set_attr(a[0], a[1], a[2])


def b_dir(it, a, k):
  o = a[0]
  names = []
  if isinstance(o, Obj):
    names += [n for n in o.attrs if not n.startswith('$')]
    for c in o.cls.mro: names += [n for n in c.ns if n not in names]
  elif isinstance(o, ClassV):
    for c in o.mro: names += [n for n in c.ns if n not in names]
  else: return Opaque('dir')
  return it.new_list(sorted(set(names)))


def b_abs(it, a, k):
  v = as_index(it, a[0])
  if isinstance(v, (int, float)): return abs(v)
  if it.is_intlike(v): return it.ite_val(it.lt(v, 0), it.neg(v), v)
  return Opaque('abs')


def b_round(it, a, k):
  v = as_index(it, a[0])
  if isinstance(v, (int, float)):
    return float(math.floor(abs(v) + 0.5) * (1 if v >= 0 else -1)) if len(a) == 1 else float(round(v, a[1]))
  if it.is_intlike(v): return it.mkfloat(v)
  return Opaque('round')


def b_hex(kind):
  def f(it, a, k):
    v = as_index(it, a[0])
    if isinstance(v, (bool, int)): return {'hex': hex, 'bin': bin, 'oct': oct}[kind](int(v))
    if it.is_intlike(v): return SText(((kind, '', v),))
    if isinstance(v, (Opaque, BlobElem)): return SText((('opaque', '', v),))
    if isinstance(v, Obj):
      m, owner = v.cls.lookup('__%s__' % kind)
      if m is not None: return it.call(it.bind(m, v, owner), [], {})
      m, owner = v.cls.lookup('__index__')
      if m is not None: return f(it, [it.call(it.bind(m, v, owner), [], {})], {})
    err(it, 'TypeError', "%s() argument can't be converted to %s" % (kind, kind))
  return f


def b_iter(it, a, k):
  v = a[0]
  if isinstance(v, (GenV, ListV)) : return v
  out = it.elements(v)
  l = it.new_seq(it.norm_seq(out))
  return l


def b_next(it, a, k):
  v = a[0]
  if isinstance(v, GenV):
    if v.result is None: v.result = v.thunk()
    l = v.result
  elif isinstance(v, ListV): l = v
  elif isinstance(v, Opaque): return Opaque('next')
  else: err(it, 'TypeError', 'not an iterator')
  res = []; new = []
  for g, e in it.list_live(l):
    if not e:
      if len(a) > 1: res.append((g, a[1])); new.append((g, e))
      else: it.raise_('StopIteration', guard=g)
      continue
    if has_run(e[:1]): U("next of an unknown run")
    res.append((g, e[0])); new.append((g, e[1:]))
  if it.live == 0: dead()
  replace_alts(it, l, new, 'next')
  return it.merge_all(res)


def b_divmod(it, a, k): return (it.binop('//', a[0], a[1]), it.binop('%', a[0], a[1]))
def b_pow(it, a, k): return it.binop('**', a[0], a[1])


def b_print(it, a, k):
  h = it.hooks.get('print')
  for x in a:
    t = to_str(it, x)
    if h: h(it, x, t)


def b_format(it, a, k):
  return fmt_value(it, a[0], a[1] if len(a) > 1 else '')


def b_reduce(it, a, k):
  e = list(concrete_elems(it, a[1]))
  acc = a[2] if len(a) > 2 else e.pop(0)
  for x in e: acc = it.call(a[0], [acc, x], {})
  return acc


def b_vars(it, a, k):
  return obj_native_attr(it, a[0], '__dict__')


def b_exit(it, a, k):
  it.event('exit')
  err(it, 'SystemExit', *a)


def b_slice(it, a, k):
  return SliceV(*((None, a[0], None) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else None)))


NOTIMPL = Opaque('NotImplemented')
BUILTINS = {
  'True': True, 'False': False, 'None': None,
  'object': OBJECT, 'int': INT, 'long': LONG, 'str': STR, 'bytes': STR, 'unicode': UNICODE, 'basestring': BASESTRING,
  'list': LIST, 'tuple': TUPLE, 'dict': DICT, 'set': SET, 'frozenset': FROZENSET, 'bytearray': BYTEARRAY, 'bool': BOOL, 'float': FLOAT,
  'type': TYPE, 'xrange': XRANGE, 'property': PROPERTY, 'staticmethod': STATICMETHOD, 'classmethod': CLASSMETHOD,
  'len': N('len', b_len), 'range': N('range', b_range), 'ord': N('ord', b_ord), 'chr': N('chr', b_chr), 'unichr': N('unichr', b_chr),
  'map': N('map', b_map), 'filter': N('filter', b_filter), 'zip': N('zip', b_zip), 'enumerate': N('enumerate', b_enumerate),
  'reversed': N('reversed', b_reversed), 'sorted': N('sorted', b_sorted), 'sum': N('sum', b_sum), 'min': N('min', b_minmax('min')),
  'max': N('max', b_minmax('max')), 'any': N('any', b_anyall(True)), 'all': N('all', b_anyall(False)),
  'isinstance': N('isinstance', b_isinstance), 'issubclass': N('issubclass', b_issubclass), 'hasattr': N('hasattr', b_hasattr),
  'getattr': N('getattr', b_getattr), 'setattr': N('setattr', b_setattr, False), 'dir': N('dir', b_dir), 'abs': N('abs', b_abs),
  'round': N('round', b_round), 'hex': N('hex', b_hex('hex')), 'bin': N('bin', b_hex('bin')), 'oct': N('oct', b_hex('oct')),
  'iter': N('iter', b_iter), 'next': N('next', b_next), 'divmod': N('divmod', b_divmod), 'pow': N('pow', b_pow),
  'repr': N('repr', lambda it, a, k: to_str(it, a[0], True)), 'print': N('print', b_print), 'format': N('format', b_format),
  'reduce': N('reduce', b_reduce), 'vars': N('vars', b_vars), 'exit': N('exit', b_exit), 'quit': N('exit', b_exit),
  'id': N('id', lambda it, a, k: it.soft_int('id', 32, False)), 'hash': N('hash', lambda it, a, k: it.soft_int('hash', 32)),
  'callable': N('callable', lambda it, a, k: isinstance(a[0], (FuncV, Native, Bound, ClassV)) or (isinstance(a[0], Obj) and a[0].cls.lookup('__call__')[0] is not None)),
  'slice': N('slice', b_slice), 'open': N('open', lambda it, a, k: Opaque('file')), 'raw_input': N('raw_input', lambda it, a, k: Opaque('input')),
  'input': N('input', lambda it, a, k: Opaque('input')), 'NotImplemented': NOTIMPL, '__name__': '__main__',
  'buffer': N('buffer', lambda it, a, k: a[0]), 'memoryview': N('memoryview', lambda it, a, k: a[0]), 'globals': N('globals', lambda it, a, k: Opaque('globals')),
  'locals': N('locals', lambda it, a, k: Opaque('locals')),
}
for _n, _c in _EXC.items():
  if '.' not in _n: BUILTINS[_n] = _c


# ------------------------------------------------------------------------------------------------- struct
CODES = {'b': (1, True), 'B': (1, False), 'h': (2, True), 'H': (2, False), 'i': (4, True), 'I': (4, False), 'l': (4, True), 'L': (4, False),
         'q': (8, True), 'Q': (8, False)}


def parse_fmt(it, fmt):
  if not isinstance(fmt, str): U("struct format")
  end = '@'
  f = fmt
  if f and f[0] in '<>=!@': end, f = f[0], f[1:]
  out = []
  for n, c in re.findall(r'(\d*)([a-zA-Z?])', f):
    if c in CODES or c == '?':
      out += [(c,)] * (int(n) if n else 1)
    elif c == 's': out.append(('s', int(n) if n else 1))
    elif c == 'x': out.append(('x', int(n) if n else 1))
    elif c == 'c': out += [('c',)] * (int(n) if n else 1)
    else: U("struct format %s" % fmt)
  big = end in '>!'
  return big, out, end == '@'


def struct_pack(it, a, k):
  big, codes, native = parse_fmt(it, a[0])
  vals = list(a[1:])
  need = len([c for c in codes if c[0] != 'x'])
  if need != len(vals): err(it, 'struct.error', 'pack requires exactly %d arguments' % need)
  out = ()
  for c in codes:
    if c[0] == 'x': out += (0,) * c[1]; continue
    v = vals.pop(0)
    if c[0] in ('s', 'c'):
      n = c[1] if c[0] == 's' else 1
      es = it.seq_entries(v) if isinstance(v, (str, SStr)) else None
      if es is None: err(it, 'struct.error', 'argument for s must be a string')
      if len(es) != 1 or has_run(es[0][1]): U("packing unknown string")
      e = tuple(es[0][1])[:n]
      out += e + (0,) * (n - len(e)); continue
    v = unenum(it, v)
    if c[0] == '?':
      out += (it.norm_int((it.truth(v), FALSE)),); continue
    size, signed = CODES[c[0]]
    if native and size > 1 and len(out) % size: out += (0,) * (size - len(out) % size)
    def one(v):
      if isinstance(v, (bool, SB)): v = it.norm_int(it.bits(v))
      if isinstance(v, Obj):
        m, owner = v.cls.lookup('__int__')
        if m is not None: v = it.call(it.bind(m, v, owner), [], {})
      if isinstance(v, float): v = int(v)
      if v.__class__.__name__ == 'SFloat': v = int_ctor(it, None, [v], {})
      if isinstance(v, Opaque): return it.soft_int('packed', 8 * size, False)
      if not it.is_intlike(v): err(it, 'struct.error', 'required argument is not an integer')
      lo, hi = (-(1 << (8 * size - 1)), (1 << (8 * size - 1)) - 1) if signed else (0, (1 << (8 * size)) - 1)
      bad = it.OR(it.lt(v, lo), it.lt(hi, v))
      it.raise_('struct.error', 'argument out of range', guard=bad)
      if it.live == 0: dead()
      return v
    v = it.split(v, one)
    if isinstance(v, Union): U("packing alternatives")
    b = it.ext(it.bits(v), 8 * size)[:8 * size]
    bs = [it.norm_int(tuple(b[8 * i:8 * i + 8]) + (FALSE,)) for i in range(size)]
    out += tuple(reversed(bs)) if big else tuple(bs)
  return it.mkstr(((TRUE, out),))


def struct_size(codes, native):
  n = 0
  for c in codes:
    if c[0] in ('s', 'x'): n += c[1]
    elif c[0] in ('c', '?'): n += 1
    else:
      s = CODES[c[0]][0]
      if native and n % s: n += s - n % s
      n += s
  return n


def struct_unpack(it, a, k):
  big, codes, native = parse_fmt(it, a[0])
  size = struct_size(codes, native)
  v = a[1]
  if isinstance(v, Opaque): return tuple(Opaque('unpacked') for c in codes)
  alts = seq_alts(it, v) if not isinstance(v, (tuple,)) else None
  if alts is None or isinstance(v, ListV) and v.kind != 'bytearray': err(it, 'TypeError' if not isinstance(v, SText) else 'struct.error', 'unpack requires a string argument')
  def one(e):
    if has_run(e):
      ln = it.entries_len(e)
      bad = it.NOT(it.eq_int(ln, size))
      it.raise_('struct.error', 'unpack requires a string argument of length %d' % size, guard=bad)
      if it.live == 0: dead()
      r = it.take(e, size)
      good = [(g, t) for g, t, rest, short in r if not short and not has_run(t) and it.may(g)]
      if not good: U("unpacking unknown data")
      return it.fork(good, lambda t: unpack_bytes(t))
    if len(e) != size:
      err(it, 'struct.error', 'unpack requires a string argument of length %d' % size)
    return unpack_bytes(e)
  def unpack_bytes(e):
    out = []
    p = 0
    for c in codes:
      if c[0] == 'x': p += c[1]; continue
      if c[0] in 's': out.append(it.mkstr(((TRUE, tuple(e[p:p + c[1]])),))); p += c[1]; continue
      if c[0] == 'c': out.append(it.char_of(e[p])); p += 1; continue
      if c[0] == '?': out.append(it.mkbool(it.truth(e[p]))); p += 1; continue
      s, signed = CODES[c[0]]
      if native and p % s: p += s - p % s
      bs = e[p:p + s]; p += s
      if not big: bs = tuple(reversed(bs))
      v = be_int(it, bs)
      if signed:
        b = it.ext(it.bits(v), 8 * s)[:8 * s]
        v = it.norm_int(tuple(b))
      out.append(v)
    return tuple(out)
  return it.fork(alts, one)


# ------------------------------------------------------------------------------------------------- bitstring
STREAM = _b('ConstBitStream')
STREAM_NAMES = ('ConstBitStream', 'BitStream', 'Bits', 'BitArray')


def v_entries(it, v):
  alts = [(g, e) for g, e in it.seq_entries(v) if it.may(g)]
  if len(alts) != 1: U("bits of alternatives")
  return tuple(alts[0][1])


class St(object):
  __slots__ = ('g', 'rest', 'off', 'pos', 'total', 'all')
  def __init__(self, g, rest, off, pos, total, all_):
    self.g, self.rest, self.off, self.pos, self.total, self.all = g, rest, off, pos, total, all_


def stream_ctor(it, cls, args, kwargs):
  if args is None: U("subclass of a bit stream")
  src = None
  if 'bytes' in kwargs: src = kwargs['bytes']
  elif 'hex' in kwargs or 'filename' in kwargs or 'auto' in kwargs or 'uint' in kwargs:
    if 'auto' in kwargs: src = kwargs['auto']
    else: return Opaque('stream')
  elif args: src = args[0]
  else: src = ''
  def one(v):
    o = it.new_obj(STREAM)
    if isinstance(v, Opaque): U("stream over unknown value")
    if isinstance(v, ListV) and v.kind == 'bytearray': alts = it.list_live(v)
    elif isinstance(v, (str, SStr)) and 'bytes' in kwargs: alts = [(g, e) for g, e in it.seq_entries(v) if it.may(g)]
    elif isinstance(v, (str, SStr, SText)):
      if isinstance(v, str) and v == '': alts = [(TRUE, ())]
      elif isinstance(v, str) and v.startswith('0x'):
        try: alts = [(TRUE, tuple(bytes.fromhex(v[2:])))]
        except ValueError: err(it, 'bitstring.CreationError', 'invalid symbol in hex initialiser')
      else: err(it, 'bitstring.CreationError', 'unrecognised bitstring token')
    elif isinstance(v, ListV) or isinstance(v, tuple):
      if 'bytes' in kwargs: alts = byte_seq_alts(it, v)
      else: U("bit stream over a list of booleans")
    elif isinstance(v, Obj) and 'bytes' in kwargs:
      alts = byte_seq_alts(it, v)
    else: err(it, 'bitstring.CreationError', 'cannot initialise bitstring from %s' % type_name(it, v))
    o.native = {'states': [St(g, tuple(e), 0, 0, it.entries_len(e), tuple(e)) for g, e in alts]}
    return o
  return it.split(src, one)

STREAM.ctor = stream_ctor


def live_states(it, o):
  return [s for s in o.native['states'] if it.may(s.g)]


def put_states(it, o, new):
  """new: [(guard, St fields)] valid in the live region"""
  B = it.B
  if B.AND(o.alloc, B.NOT(it.live)) == 0:
    o.native['states'] = merge_states(it, new)
    return
  rel = B.CONSTRAIN(it.live, o.alloc)
  nrel = B.NOT(rel)
  out = []
  for s in new: out.append(St(B.AND(s.g, rel), s.rest, s.off, s.pos, s.total, s.all))
  for s in o.native['states']:
    g = B.AND(s.g, nrel)
    if g: out.append(St(g, s.rest, s.off, s.pos, s.total, s.all))
  o.native['states'] = merge_states(it, out)


def merge_states(it, sts):
  out = []
  ix = {}
  for s in sts:
    if s.g == 0: continue
    k = (it.shape(s.rest), s.off, it.ikey(s.pos), it.ikey(s.total), len(s.all), it.shape(s.all))
    j = ix.get(k)
    if j is None:
      ix[k] = len(out); out.append(s)
    else:
      t = out[j]
      if t.rest != s.rest:
        rest = tuple(x if x is y else (y if isinstance(y, Blob) else it.ite_val(s.g, x, y)) for x, y in zip(s.rest, t.rest))
      else: rest = t.rest
      if t.all is not s.all and t.all != s.all:
        al = tuple(x if x is y else (y if isinstance(y, Blob) else it.ite_val(s.g, x, y)) for x, y in zip(s.all, t.all))
      else: al = t.all
      out[j] = St(it.OR(t.g, s.g), rest, t.off, t.pos, t.total, al)
  return out


TOK = re.compile(r'^(uintbe|uintle|uintne|intbe|intle|uint|int|bytes|bits|bin|hex|oct|bool|pad|float)\s*:?\s*(.*)$')


def token_alts(it, fmt, kwargs):
  """[(guard, kind, length)]"""
  if isinstance(fmt, (int, SI)) and not isinstance(fmt, bool): return [(TRUE, 'bits', fmt)]
  if isinstance(fmt, str):
    m = TOK.match(fmt.strip())
    if m is None:
      if re.match(r'^\d+$', fmt.strip()): return [(TRUE, 'bits', int(fmt))]
      err(it, 'ValueError', "Don't understand the token %s" % fmt)
    kind, n = m.group(1), m.group(2).strip()
    if kind == 'bool': return [(TRUE, 'bool', 1)]
    if n == '': return [(TRUE, kind, None)]
    if re.match(r'^\d+$', n): return [(TRUE, kind, int(n))]
    if n in kwargs: return [(TRUE, kind, kwargs[n])]
    err(it, 'ValueError', "Don't understand the length %s" % fmt)
  if isinstance(fmt, SText) and len(fmt.parts) == 2 and isinstance(fmt.parts[0], str) and isinstance(fmt.parts[1], tuple) and fmt.parts[1][0] == 'int' and fmt.parts[1][1] in ('', 'd', 'i', 'u'):
    m = TOK.match(fmt.parts[0])
    if m is None or m.group(2): err(it, 'ValueError', "Don't understand the token")
    return [(TRUE, m.group(1), fmt.parts[1][2])]
  U("bit stream token %r" % (fmt,))


def s_read(it, o, a, k, peek=False):
  fmt = a[0] if a else k.get('fmt')
  res = it.split(fmt, lambda f: read_token(it, o, f, {x: y for x, y in k.items() if x != 'fmt'}, peek))
  return res


def read_token(it, o, fmt, kw, peek=False, wantpad=False):
  alts = token_alts(it, fmt, kw)
  g, kind, n = alts[0]
  n = as_index(it, n) if n is not None else None
  def with_n(n):
    if n is not None and not it.is_intlike(n): err(it, 'ValueError', 'bad token length')
    return read_kind(it, o, kind, n, peek)
  if isinstance(n, Union): return it.split(n, with_n)
  if kind == 'bits' and isinstance(n, SI) and all(b == FALSE for b in n.bits[:3]):
    lo, hi = it.int_range(n)
    if hi - lo > 128: return with_n(n)
  if kind != 'bytes' and isinstance(n, SI): return it.fork(it.cases(n, 80), with_n)
  return with_n(n)


def read_kind(it, o, kind, n, peek):
  B = it.B
  if n is not None and it.may(it.lt(n, 0)):
    it.raise_('ValueError', 'Cannot read negative amount', guard=it.lt(n, 0))
    if it.live == 0: dead()
  sts = live_states(it, o)
  new, res = [], []
  entry = it.live
  out = FALSE
  for s in sts:
    it.live = it.AND(entry, s.g)
    if it.live == 0: continue
    try:
      for g, v, ns in read_state(it, s, kind, n):
        res.append((g, v)); new.append(ns)
      out = B.OR(out, it.live)
    except Exception as ex:
      if ex.__class__.__name__ != 'Dead': raise
  it.live = out
  if out == 0: dead()
  if not peek: put_states(it, o, new)
  if len(res) > 1: return it.merge_all([(B.CONSTRAIN(g, entry), v) for g, v in res])
  return res[0][1]


def read_error(it, g):
  it.raise_('bitstring.ReadError', 'Reading off the end of the data.', guard=g)


BITS = _b('Bits')


def new_bits(it, bits=None, seq=None):
  """what reading a number of bits gives: the bits (first one first), or whole bytes"""
  o = it.new_obj(BITS)
  if bits is not None and len(bits) % 8 == 0:
    seq = tuple(it.norm_int(tuple(reversed(bits[i:i + 8])) + (FALSE,)) for i in range(0, len(bits), 8))
  if bits is None and not has_run(seq):
    bits = ()
    for x in seq: bits += tuple(reversed(it.ext(it.bits(x), 9)[:8])) if not isinstance(x, int) else tuple((x >> i) & 1 for i in range(7, -1, -1))
  o.native = {'bits': bits, 'seq': seq}
  return o


def bits_of(it, o):
  b = o.native['bits']
  if b is None: U("bits of an unknown run")
  return b


def bits_bytes(it, o):
  if o.native['seq'] is None: err(it, 'bitstring.InterpretError', 'Cannot interpret as bytes unambiguously')
  return it.mkstr(((TRUE, o.native['seq']),))


def bits_num(kind):
  def _prop(it, o):
    b = bits_of(it, o)
    if not b: err(it, 'bitstring.InterpretError', 'Cannot interpret an empty bitstring as an integer')
    return conv_bits(it, kind, list(b))
  return _prop


def bits_len(it, o):
  if o.native['bits'] is not None: return len(o.native['bits'])
  return it.mul_const(it.entries_len(o.native['seq']), 8)


def _bprop(f):
  def _prop(it, o): return f(it, o)
  return _prop


def bits_item(it, o, a, k):
  b = bits_of(it, o)
  if not isinstance(a[0], int): U("bit at an unknown position")
  if not -len(b) <= a[0] < len(b): err(it, 'IndexError', 'Slice index out of range.')
  return it.mkbool(b[a[0]])


def read_state(it, s, kind, n):
  """[(guard, value, new state)] of one read from one state"""
  B = it.B
  if kind == 'bits' and not s.off and not isinstance(n, int):
    by = it.shr(n, 3)
    return [(g, new_bits(it, None, v_entries(it, v)), st) for g, v, st in read_state(it, s, 'bytes', by)]
  if kind == 'bits' and not s.off and n % 8 == 0 and has_run(s.rest):
    return [(g, new_bits(it, None, v_entries(it, v)), st) for g, v, st in read_state(it, s, 'bytes', n // 8)]
  if kind == 'bytes':
    if s.off: U("unaligned byte read")
    if n is None: U("bytes without length")
    # length check first
    out = []
    r = it.take(s.rest, n)
    for h, t, rest, short in r:
      g = B.AND(s.g, h)
      if not it.may(g): continue
      if short:
        read_error(it, g); continue
    for h, t, rest, short in r:
      g = B.AND(s.g, h)
      if short or not it.may(g): continue
      out.append((g, it.mkstr(((TRUE, tuple(t)),)), St(g, rest, 0, it.add(s.pos, it.mul_const(n, 8) if not isinstance(n, int) else 8 * n), s.total, s.all)))
    if not out or it.live == 0: dead()
    return out
  if n is None:
    U("read without a length")
  if not isinstance(n, int): U("bit read of unknown size")
  if kind in ('uint', 'int', 'uintbe', 'intbe', 'uintle', 'intle', 'uintne') and n == 0:
    err(it, 'bitstring.InterpretError', 'Cannot interpret an empty bitstring as an integer')
  if n == 0:
    return [(s.g, None if kind == 'pad' else '', s)]
  nb = (s.off + n + 7) // 8
  out = []
  r = it.take(s.rest, nb)
  for h, t, rest, short in r:
    g = B.AND(s.g, h)
    if short and it.may(g): read_error(it, g)
  if it.live == 0: dead()
  for h, t, rest, short in r:
    g = B.AND(s.g, h)
    if short or not it.may(g): continue
    t = tuple(x for x in t)
    if any(isinstance(x, Blob) for x in t):
      U("bit read across an unknown run")
    bits = []   # msb first
    for x in t:
      b = it.ext(it.bits(x), 9)[:8] if not isinstance(x, int) else tuple((x >> i) & 1 for i in range(8))
      bits += list(reversed(b))
    bits = bits[s.off:s.off + n]
    noff = (s.off + n) % 8
    nrest = ((t[-1],) + tuple(rest)) if noff else tuple(rest)
    v = conv_bits(it, kind, bits)
    out.append((g, v, St(g, nrest, noff, it.add(s.pos, n), s.total, s.all)))
  if not out: dead()
  return out


def conv_bits(it, kind, bits):
  if kind == 'bool': return it.mkbool(bits[0])
  if kind == 'pad': return None
  lsb = tuple(reversed(bits))
  if kind in ('uintle', 'intle'):
    if len(bits) % 8: err(it, 'bitstring.InterpretError', 'whole byte')
    chunks = [lsb[i:i + 8] for i in range(0, len(lsb), 8)]
    lsb = tuple(b for c in reversed(chunks) for b in c)
  if kind in ('uint', 'uintbe', 'uintle'): return it.norm_int(lsb + (FALSE,))
  if kind in ('int', 'intbe', 'intle'): return it.norm_int(lsb)
  if kind == 'bits': return new_bits(it, tuple(bits))
  if kind == 'hex':
    return SText((('hex', '', it.norm_int(lsb + (FALSE,))),))
  if kind in ('bin', 'oct'): return SText((('bin', '', it.norm_int(lsb + (FALSE,))),))
  U("token %s" % kind)


def s_readlist(it, o, a, k, peek=False):
  fmt = a[0]
  toks = None
  kw = {x: y for x, y in k.items() if x != 'fmt'}
  saved = None
  if isinstance(fmt, str): toks = [t for t in re.split(r'\s*,\s*', fmt) if t]
  elif isinstance(fmt, (ListV, tuple)): toks = list(concrete_elems(it, fmt))
  elif isinstance(fmt, SText): toks = [fmt]
  else: U("readlist format")
  if peek:
    before = list(o.native['states'])
  res = []
  for t in toks:
    m = re.match(r'^(\d+)\*(.*)$', t) if isinstance(t, str) else None
    rep = 1
    if m: rep, t = int(m.group(1)), m.group(2)
    for _ in range(rep):
      v = read_token(it, o, t, kw)
      if isinstance(t, str) and t.startswith('pad'): continue
      res.append(v)
  if peek: o.native['states'] = before
  return it.new_list(res)


def st_prop(f):
  def _prop(it, o):
    sts = live_states(it, o)
    if not sts: dead()
    return it.fork([(s.g, s) for s in sts], lambda s: f(it, s))
  return _prop


def p_bytepos(it, s):
  if s.off: err(it, 'bitstring.ByteAlignError', 'Not byte aligned in _getbytepos().')
  return it.shr(s.pos, 3)


def set_pos(scale):
  def f(it, o, v):
    v = as_index(it, v)
    bits = it.mul_const(v, scale) if scale != 1 else v
    new = []
    for s in live_states(it, o):
      if it.same_int(bits, s.pos): new.append(s); continue
      if isinstance(bits, int):
        if bits % 8 and has_run(s.all): U("seek")
        for h, rest, short in it.drop(s.all, bits // 8):
          g = it.AND(s.g, h)
          if not it.may(g): continue
          if short: it.raise_('ValueError', 'Cannot seek past the end of the data.', guard=g); continue
          new.append(St(g, rest, bits % 8, bits, s.total, s.all))
      else:
        by = it.shr(bits, 3)
        for h, rest, short in it.drop(s.all, by):
          g = it.AND(s.g, h)
          if not it.may(g): continue
          if short: it.raise_('ValueError', 'Cannot seek past the end of the data.', guard=g); continue
          new.append(St(g, rest, 0, bits, s.total, s.all))
    if it.live == 0 or not new: dead()
    put_states(it, o, new)
  return f


def s_bytes(it, s):
  return it.mkstr(((TRUE, s.all),))


def s_iter_dead(*a): U("iterating over a bit stream")


NATIVE_METHODS[id(STREAM)] = {
  'read': lambda it, o, a, k: s_read(it, o, a, k),
  'peek': lambda it, o, a, k: s_read(it, o, a, k, True),
  'readlist': lambda it, o, a, k: s_readlist(it, o, a, k),
  'peeklist': lambda it, o, a, k: s_readlist(it, o, a, k, True),
  'pos': st_prop(lambda it, s: s.pos), 'bitpos': st_prop(lambda it, s: s.pos),
  'bytepos': st_prop(p_bytepos),
  'len': st_prop(lambda it, s: it.mul_const(s.total, 8)), 'length': st_prop(lambda it, s: it.mul_const(s.total, 8)),
  'bytes': st_prop(s_bytes), 'tobytes': lambda it, o, a, k: st_prop(s_bytes)(it, o),
  'bytealign': lambda it, o, a, k: U("bytealign"),
  '__len__': lambda it, o, a, k: st_prop(lambda it, s: it.mul_const(s.total, 8))(it, o),
}
NATIVE_METHODS[id(BITS)] = {
  'uint': bits_num('uint'), 'int': bits_num('int'), 'uintbe': bits_num('uint'), 'hex': bits_num('hex'), 'bin': bits_num('bin'), 'bool': bits_num('bool'),
  'bytes': _bprop(bits_bytes), 'tobytes': lambda it, o, a, k: bits_bytes(it, o), 'len': _bprop(bits_len), 'length': _bprop(bits_len),
  '__len__': lambda it, o, a, k: bits_len(it, o), '__getitem__': bits_item,
  '__iter__': lambda it, o, a, k: it.new_list(tuple(it.mkbool(b) for b in bits_of(it, o))),
}
NATIVE_SET[id(STREAM)] = {'pos': set_pos(1), 'bitpos': set_pos(1), 'bytepos': set_pos(8)}


# ------------------------------------------------------------------------------------------------- cerberus
VALIDATOR = _b('Validator')


def validator_ctor(it, cls, args, kwargs):
  o = it.new_obj(cls)
  o.native = {'schema': None, 'err': FALSE}
  if args is not None: validator_init(it, o, args, kwargs)
  return o

VALIDATOR.ctor = validator_ctor


def validator_init(it, o, args, kwargs):
  o.native['schema'] = args[0] if args else kwargs.get('schema')
  o.native['unknown'] = kwargs.get('allow_unknown', args[1] if len(args) > 1 else False)


def v_error(it, o, a, k):
  o.native['err'] = it.OR(o.native['err'], it.live)
  return None


def v_validate(it, o, a, k):
  doc = a[0]
  schema = a[1] if len(a) > 1 else o.native['schema']
  ok = doc_ok(it, o, schema, doc, o.native.get('unknown', False))
  o.native['ok'] = ok
  return it.mkbool(ok)


def sget(it, d, name):
  ent = d.items.get(('s', name))
  return ent[1] if ent is not None else UNDEF


def doc_ok(it, o, schema, doc, unknown):
  if isinstance(schema, Opaque) or isinstance(doc, Opaque): return it.soft_bool('validation').node
  if not isinstance(schema, DictV): err(it, 'cerberus.SchemaError', 'schema')
  if not isinstance(doc, DictV): err(it, 'cerberus.DocumentError', 'document')
  B = it.B
  ok = TRUE
  for key, (name, value) in list(doc.items.items()):
    ent = schema.items.get(key)
    if ent is None:
      if unknown is False: ok = B.AND(ok, it.NOT(present(it, value)))
      continue
    defs = ent[1]
    if isinstance(defs, Union): U("schema alternatives")
    for g, v in it.alts(value):
      if v is UNDEF or not it.may(g): continue
      saved = it.live
      it.live = B.AND(saved, g)
      lost0 = it.live
      try:
        f = field_ok(it, o, defs, name, v)
      except Exception as ex:
        if ex.__class__.__name__ != 'Dead': raise
        f = FALSE
        it.live = FALSE
      lost = B.AND(lost0, it.NOT(it.live))
      it.live = B.AND(saved, it.NOT(lost))
      ok = B.AND(ok, B.OR(it.NOT(g), f))
      if it.live == 0: dead()
  if not True: pass
  for key, (name, defs) in schema.items.items():
    if isinstance(defs, DictV) and sget(it, defs, 'required') is True and key not in doc.items: ok = FALSE
  return ok


def present(it, v):
  r = FALSE
  for g, x in it.alts(v):
    if x is not UNDEF: r = it.OR(r, g)
  return r


KNOWN_RULES = {'nullable', 'type', 'min', 'max', 'allowed', 'minlength', 'maxlength', 'schema', 'oneof_schema', 'anyof_schema', 'allof_schema',
               'noneof_schema', 'required', 'allow_unknown', 'empty', 'forbidden', 'oneof', 'anyof', 'readonly', 'regex', 'default', 'coerce'}


def is_sequence(v):
  return isinstance(v, tuple) or (isinstance(v, ListV) and v.kind != 'gen')


def field_ok(it, o, defs, name, v):
  """node: the (single alternative) value v satisfies the rule set"""
  B = it.B
  if isinstance(v, Union):
    r = FALSE
    for g, x in v.alts:
      if not it.may(g): continue
      saved = it.live
      it.live = B.AND(saved, g)
      f = field_ok(it, o, defs, name, x)
      lost = B.AND(B.AND(saved, g), it.NOT(it.live))
      it.live = B.AND(saved, it.NOT(lost))
      r = B.OR(r, B.AND(g, f))
      if it.live == 0: dead()
    return r
  if isinstance(v, Opaque): return it.soft_bool('validation of ' + v.tag, id(v)).node
  rules = dict((kk, vv) for key, (kk, vv) in defs.items.items())
  if v is None:
    n = rules.get('nullable')
    return TRUE if n is True else FALSE
  t = rules.get('type', UNDEF)
  if t is not UNDEF:
    ts = [t] if isinstance(t, str) else list(concrete_elems(it, t))
    okt = False
    for ty in ts:
      if ty == 'integer': okt = okt or it.is_intlike(unenum(it, v)) or (isinstance(v, BlobElem) and v.conv is None)
      elif ty == 'boolean': okt = okt or isinstance(v, (bool, SB))
      elif ty == 'list': okt = okt or is_sequence(v)
      elif ty == 'string': okt = okt or isinstance(v, (str, SStr, SText)) or (isinstance(v, BlobElem) and v.conv == 'chr')
      elif ty == 'dict': okt = okt or (isinstance(v, DictV) and not isinstance(v, SetV))
      elif ty == 'float': okt = okt or isinstance(v, float) or v.__class__.__name__ == 'SFloat' or it.is_intlike(v)
      elif ty == 'number': okt = okt or (it.is_intlike(v) and not isinstance(v, (bool, SB))) or isinstance(v, float)
      elif ty == 'binary': okt = okt or isinstance(v, (str, SStr)) or isinstance(v, ListV) and v.kind == 'bytearray'
      elif ty == 'set': okt = okt or isinstance(v, SetV)
      elif ty in ('date', 'datetime'): pass
      else: err(it, 'cerberus.SchemaError', 'unknown type')
    if not okt: return FALSE
  ok = TRUE
  vv = unenum(it, v)
  for rule, c in rules.items():
    if rule in ('nullable', 'type', 'required', 'allow_unknown', 'readonly', 'default', 'coerce'): continue
    if rule in ('min', 'max'):
      if isinstance(vv, BlobElem):
        lo, hi = 0, 255
        if rule == 'min': ok = ok if c <= lo else B.AND(ok, it.soft_bool('bytes >= min').node)
        else: ok = ok if c >= hi else B.AND(ok, it.soft_bool('bytes <= max').node)
        continue
      bad = it.lt_node(vv, c) if rule == 'min' else it.lt_node(c, vv)
      ok = B.AND(ok, it.NOT(bad))
    elif rule == 'allowed':
      if is_sequence(v):
        for g, e in it.elements(v):
          for x in e: ok = B.AND(ok, B.OR(it.NOT(g), it.truth(contains(it, c, x))))
      elif isinstance(v, BlobElem): ok = B.AND(ok, it.soft_bool('allowed bytes').node)
      else: ok = B.AND(ok, it.truth(contains(it, c, v)))
    elif rule == 'forbidden':
      ok = B.AND(ok, it.NOT(it.truth(contains(it, c, v))))
    elif rule in ('minlength', 'maxlength', 'empty'):
      if is_sequence(v) or isinstance(v, (str, SStr, SText, DictV)) or isinstance(v, Obj) and v.cls.lookup('__iter__')[0] is not None:
        if isinstance(v, SText):
          ok = B.AND(ok, it.soft_bool('text length', (id(v), rule)).node); continue
        if isinstance(v, Obj): n = b_len(it, [v], {})
        else: n = b_len(it, [v], {})
        if rule == 'minlength': bad = it.lt_node(n, c)
        elif rule == 'maxlength': bad = it.lt_node(c, n)
        else: bad = it.eq_int(n, 0) if c is False else FALSE
        ok = B.AND(ok, it.NOT(bad))
    elif rule == 'schema':
      if c is None: continue
      if is_sequence(v):
        for g, e in it.elements(v):
          saved = it.live
          it.live = B.AND(saved, g)
          r = TRUE
          for x in e:
            if isinstance(x, Blob):
              el = BlobElem(x, 'chr' if getattr(x, 'ch', False) else None)
              f = field_ok(it, o, c, 0, el)
              r = B.AND(r, B.OR(f, it.NOT(it.lt(0, x.length))))
            elif x.__class__.__name__ == 'Opaques': r = B.AND(r, it.soft_bool('run items').node)
            else: r = B.AND(r, field_ok(it, o, c, 0, x))
          it.live = saved
          ok = B.AND(ok, B.OR(it.NOT(g), r))
      elif isinstance(v, DictV):
        ok = B.AND(ok, doc_ok(it, o, c, v, o.native.get('unknown', False)))
    elif rule in ('oneof_schema', 'anyof_schema', 'allof_schema', 'noneof_schema'):
      alts = concrete_elems(it, c)
      oks = []
      for d in alts:
        if isinstance(v, DictV): oks.append(doc_ok(it, o, d, v, True))
        else: oks.append(FALSE if rule[0] != 'x' else TRUE)
      if rule == 'oneof_schema':
        one, many = FALSE, FALSE
        for x in oks:
          many = B.OR(many, B.AND(one, x)); one = B.OR(one, x)
        ok = B.AND(ok, B.AND(one, it.NOT(many)))
      elif rule == 'anyof_schema':
        one = FALSE
        for x in oks: one = B.OR(one, x)
        ok = B.AND(ok, one)
      elif rule == 'allof_schema':
        for x in oks: ok = B.AND(ok, x)
      else:
        for x in oks: ok = B.AND(ok, it.NOT(x))
    elif rule == 'regex':
      ok = B.AND(ok, it.soft_bool('regex', (id(v), 'regex')).node)
    else:
      m, owner = o.cls.lookup('_validate_' + str(rule))
      if m is None: err(it, 'cerberus.SchemaError', "unknown rule '%s'" % rule)
      if isinstance(v, BlobElem): U("custom rule on unknown data")
      saved_err = o.native['err']
      o.native['err'] = FALSE
      it.call(it.bind(m, o, owner), [c, name, v], {})
      e = o.native['err']
      o.native['err'] = saved_err
      ok = B.AND(ok, it.NOT(e))
  return ok


NATIVE_METHODS[id(VALIDATOR)] = {
  'validate': v_validate, '_error': v_error, '__call__': v_validate,
  '__init__': lambda it, o, a, k: validator_init(it, o, a, k),
}


def _verrors():
  def _prop(it, o): return Opaque('errors')
  return _prop
NATIVE_METHODS[id(VALIDATOR)]['errors'] = _verrors()


# ------------------------------------------------------------------------------------------------- crc
# generator polynomials of the 16 bit checksums the checksum library knows by name
CRC16 = {'crc-16': 0x18005, 'crc-16-buypass': 0x18005, 'crc-16-dds-110': 0x18005, 'crc-16-dect': 0x10589, 'crc-16-dnp': 0x13D65, 'crc-16-en-13757': 0x13D65, 'crc-16-genibus': 0x11021,
         'crc-16-maxim': 0x18005, 'crc-16-mcrf4xx': 0x11021, 'crc-16-riello': 0x11021, 'crc-16-t10-dif': 0x18BB7, 'crc-16-teledisk': 0x1A097, 'crc-16-usb': 0x18005, 'x-25': 0x11021,
         'xmodem': 0x11021, 'modbus': 0x18005, 'kermit': 0x11021, 'crc-ccitt-false': 0x11021, 'crc-aug-ccitt': 0x11021}


def crc_key(it, e):
  out = []
  for x in e:
    if isinstance(x, Blob): out.append(('B', id(x.base), it.ikey(x.start), it.ikey(x.length)))
    else: out.append(it.ikey(x))
  return tuple(out)


def crc16(data):
  crc = 0xFFFF
  for b in data:
    crc ^= b << 8
    for _ in range(8): crc = ((crc << 1) ^ 0x1021) & 0xFFFF if crc & 0x8000 else (crc << 1) & 0xFFFF
  return crc


def mk_crc(name):
  def f(it, a, k):
    v = a[0]
    if isinstance(v, ListV) and v.kind != 'bytearray': err(it, 'TypeError', 'crc of a list')
    if isinstance(v, SText): 
      return it.soft_int('crc', 16, False)
    alts = seq_alts(it, v)
    if alts is None: err(it, 'TypeError', 'crc argument')
    def one(e):
      if name == 'crc-ccitt-false' and all(isinstance(x, int) for x in e): return crc16(e)
      if len(a) > 1 or k: return it.soft_int('crc continued', 16, False)
      key = ('crc', name, crc_key(it, e))
      r = it.fresh.get(key)
      if r is None: r = crc_here(it, name, e)
      if r is None:
        if it.crc_spare: r = it.crc_spare.pop(0)       # written as another number combined with an unknown difference: still an unknown number
        else: r = it.new_int('crc(%s)' % name, 16)
        it.fresh[key] = r
        it.crcs.append((name, e, r))
      return r
    it.event('crc', name=name, arg=v)
    return it.fork(alts, one)
  return N('crc:' + str(name), f)


# ------------------------------------------------------------------------------------------------- modules
def lock_ctor(it, cls, args, kwargs):
  o = it.new_obj(LOCK)
  return o

LOCK = _b('Lock'); LOCK.ctor = lock_ctor
RLOCK = _b('RLock', [LOCK]); RLOCK.ctor = lambda it, cls, a, k: it.new_obj(RLOCK)


def lock_acquire(it, o, a, k):
  b = a[0] if a else k.get('blocking', True)
  if b is False or isinstance(b, int) and not b:
    r = it.new_bool('lock is free')
    it.event('acquire', obj=o, got=r.node)
    return r
  it.event('acquire', obj=o, got=TRUE)
  return True

NATIVE_METHODS[id(LOCK)] = {
  'acquire': lock_acquire,
  'release': lambda it, o, a, k: it.event('release', obj=o),
  '__enter__': lambda it, o, a, k: lock_acquire(it, o, [], {}),
  '__exit__': lambda it, o, a, k: it.event('release', obj=o) or False,
  'locked': lambda it, o, a, k: it.soft_bool('locked'),
}

CONDITION = _b('Condition', [RLOCK])
CONDITION.ctor = lambda it, cls, a, k: it.new_obj(cls)
NATIVE_METHODS[id(CONDITION)] = {
  'wait': lambda it, o, a, k: paused(it, 'wait', a[0] if a else k.get('timeout')),
  'notify': lambda it, o, a, k: it.event('notify', obj=o), 'notify_all': lambda it, o, a, k: it.event('notify', obj=o), 'notifyAll': lambda it, o, a, k: it.event('notify', obj=o),
}

THREAD = _b('Thread')
def thread_ctor(it, cls, args, kwargs):
  o = it.new_obj(cls)
  o.native = {'target': (kwargs or {}).get('target')}
  return o
THREAD.ctor = thread_ctor
NATIVE_METHODS[id(THREAD)] = {
  'start': lambda it, o, a, k: it.event('thread_start', obj=o, target=o.native.get('target')),
  'join': lambda it, o, a, k: it.event('thread_join', obj=o),
  'setDaemon': lambda it, o, a, k: None,
  'is_alive': lambda it, o, a, k: it.soft_bool('alive'), 'isAlive': lambda it, o, a, k: it.soft_bool('alive'),
  '__init__': lambda it, o, a, k: o.native.update(target=k.get('target')),
  'run': lambda it, o, a, k: None,
}

def paused(it, why, amount):
  """the calling thread waits: other threads may run, time passes"""
  it.event('pause', why=why, amount=amount)
  h = it.hooks.get('pause')
  return h(it, why, amount) if h is not None else None


def flag(it, o):
  v = o.attrs.get('_flag', False)
  return v


EVENT = _b('Event')
def event_ctor(it, cls, a, k):
  o = it.new_obj(EVENT)
  o.attrs['_flag'] = False
  return o
EVENT.ctor = event_ctor


def event_store(value):
  def f(it, o, a, k):
    it.event('event_set' if value else 'event_clear', obj=o)
    it.set_attr(o, '_flag', value)
  return f


def event_wait(it, o, a, k):
  t = a[0] if a else k.get('timeout')
  s = it.truth(flag(it, o))
  live = it.live
  it.live = it.AND(live, it.NOT(s))
  if it.live:
    try: paused(it, 'wait', t)
    except Exception as ex:
      if ex.__class__.__name__ != 'Dead': raise
      it.live = FALSE
  it.live = it.OR(it.live, it.AND(live, s))
  if it.live == 0: dead()
  return flag(it, o)

NATIVE_METHODS[id(EVENT)] = {
  'set': event_store(True), 'clear': event_store(False), 'wait': event_wait,
  'is_set': lambda it, o, a, k: flag(it, o), 'isSet': lambda it, o, a, k: flag(it, o),
}

DATETIME = _b('datetime')
TIMEDELTA = _b('timedelta')


def clock(it):
  h = it.hooks.get('clock')
  return h(it) if h is not None else it.soft_int('clock', 40, False)


def dt_make(it, cls, t):
  o = it.new_obj(cls)
  o.attrs['_t'] = t
  return o


def td_of(it, v):
  return v.attrs['_t'] if isinstance(v, Obj) and v.cls in (DATETIME, TIMEDELTA) else None


def td_ctor(it, cls, a, k):
  names = ('days', 'seconds', 'microseconds', 'milliseconds', 'minutes', 'hours', 'weeks')
  scale = {'days': 86400, 'seconds': 1, 'minutes': 60, 'hours': 3600, 'weeks': 604800}
  d = dict(zip(names, a)); d.update(k)
  t = 0
  for n, v in d.items():
    if n in scale: t = it.binop1('+', t, it.binop1('*', v, scale[n]))
    else: t = it.binop1('+', t, it.binop1('/', it.binop1('*', v, 1.0), 1000000.0 if n == 'microseconds' else 1000.0))
  return dt_make(it, TIMEDELTA, t)
TIMEDELTA.ctor = td_ctor
DATETIME.ctor = lambda it, cls, a, k: Opaque('datetime')


def td_cmp(op):
  def f(it, a, k):
    x, y = td_of(it, a[0]), td_of(it, a[1])
    if x is None or y is None: return NOTIMPL
    if op in ('lt', 'gt'): return it.mkbool(it.lt_node(x, y) if op == 'lt' else it.lt_node(y, x))
    if op in ('le', 'ge'): return it.mkbool(it.NOT(it.lt_node(y, x) if op == 'le' else it.lt_node(x, y)))
    r = it.eq_node(x, y)
    return it.mkbool(r if op == 'eq' else it.NOT(r))
  return N('__%s__' % op, f)
for _op in ('lt', 'gt', 'le', 'ge', 'eq', 'ne'):
  DATETIME.ns['__%s__' % _op] = td_cmp(_op)
  TIMEDELTA.ns['__%s__' % _op] = td_cmp(_op)


def td_seconds(it, o, a=None, k=None): return o.attrs['_t']
NATIVE_METHODS[id(TIMEDELTA)] = {'total_seconds': td_seconds}


def td_part(name):
  """days, seconds and microseconds of a difference, as datetime normalises it"""
  def f(it, a, k):
    n, d = _fparts(it, td_seconds(it, a[0]))
    whole, rest = it.divmod_const(n, d) if d != 1 else (n, 0)
    if name == 'microseconds': return it.divmod_const(it.binop1('*', rest, 1000000), d)[0] if d != 1 else 0
    return it.divmod_const(whole, 86400)[0 if name == 'days' else 1]
  return PropertyV(N(name, f))
for _n in ('days', 'seconds', 'microseconds'): TIMEDELTA.ns[_n] = td_part(_n)
for _n in ('now', 'utcnow', 'today'):
  DATETIME.ns[_n] = StaticM(N(_n, lambda it, a, k: dt_make(it, DATETIME, clock(it))))


def dt_arith(it, o, a, b):
  x, y = td_of(it, a), td_of(it, b)
  if x is None or y is None: return None
  if o == '-':
    cls = TIMEDELTA if a.cls is b.cls else a.cls
    return dt_make(it, cls, it.binop1('-', x, y))
  if o == '+': return dt_make(it, DATETIME if DATETIME in (a.cls, b.cls) else TIMEDELTA, it.binop1('+', x, y))
  return None

SERIAL = _b('Serial')
def serial_ctor(it, cls, args, kwargs):
  o = it.new_obj(cls)
  o.attrs['is_open'] = bool(args and args[0] is not None or (kwargs or {}).get('port') is not None)
  it.event('serial_new', obj=o, args=args, kwargs=kwargs)
  h = it.hooks.get('serial.ctor')
  if h is not None: h(it, o, args, kwargs)
  return o
SERIAL.ctor = serial_ctor


def serial_waiting(it, a, k):
  h = it.hooks.get('serial.in_waiting')
  return h(it, a[0], (), {}) if h is not None else it.soft_int('in_waiting', 16)
SERIAL.ns['in_waiting'] = PropertyV(N('in_waiting', serial_waiting))


def serial_io(name):
  def f(it, o, a, k):
    it.event('serial_' + name, obj=o, args=a, kwargs=k, locks=None)
    h = it.hooks.get('serial.' + name)
    if h is not None: return h(it, o, a, k)
    return Opaque('serial.' + name)
  return f
NATIVE_METHODS[id(SERIAL)] = dict((n, serial_io(n)) for n in ('write', 'read', 'flush', 'close', 'open', 'cancel_read', 'cancel_write', 'flushInput', 'flushOutput', 'reset_input_buffer',
  'reset_output_buffer', 'inWaiting', 'readline', 'isOpen', 'read_until', 'readinto', 'send_break'))


def ns(**kw): return kw


def m_random_randint(it, a, k):
  lo, hi = a[0], a[1]
  if not (isinstance(lo, int) and isinstance(hi, int)): return it.soft_int('random', 32)
  span = hi - lo + 1
  n = max(1, (span - 1).bit_length())
  v = it.new_int('random', n)
  if span & (span - 1):
    v = it.ite_val(it.lt(v, span), v, 0)
  return it.add(v, lo)


def m_math_pow(it, a, k):
  x, y = as_index(it, a[0]), as_index(it, a[1])
  for v in (x, y):
    if not (it.is_intlike(v) or isinstance(v, float) or v.__class__.__name__ == 'SFloat'):
      if isinstance(v, Opaque): return Opaque('pow')
      err(it, 'TypeError', 'a float is required')
  def go(x, y):
    try: return math.pow(x, y)
    except OverflowError: err(it, 'OverflowError', 'math range error')
    except ValueError: err(it, 'ValueError', 'math domain error')
  if isinstance(x, (int, float)) and isinstance(y, (int, float)): return go(x, y)
  if isinstance(x, (int, float)): return it.fork(it.cases(y, 64), lambda n: go(x, n))
  if isinstance(y, (int, float)): return it.fork(it.cases(x, 300), lambda n: go(n, y))
  U("pow of unknowns")


def m_math_log(it, a, k):
  def go(x, *b):
    try: return math.log(x, *b)
    except (ValueError, ZeroDivisionError): err(it, 'ValueError', 'math domain error')
  xs = [as_index(it, v) for v in a]
  for v in xs:
    if not (it.is_intlike(v) or isinstance(v, float)): err(it, 'TypeError', 'a float is required')
  if isinstance(xs[0], (int, float)): return go(*xs)
  bad = it.NOT(it.lt(0, xs[0]))
  it.raise_('ValueError', 'math domain error', guard=bad)
  if it.live == 0: dead()
  if it.int_range(xs[0])[1] > 4096:
    big = it.lt(512, xs[0])
    if it.may(big):
      # far outside every modelled use: only the logarithm's magnitude is kept
      return it.fork([(big, 1), (it.NOT(big), 0)], lambda s: it.mkfloat(it.soft_int('log', 12, False)) if s else it.fork(it.cases(xs[0], 600), lambda n: go(n, *xs[1:])))
  return it.fork(it.cases(xs[0], 600), lambda n: go(n, *xs[1:]))


def m_math_unary(f):
  def g(it, a, k):
    v = as_index(it, a[0])
    if isinstance(v, (int, float)):
      try: return float(f(v))
      except (ValueError, OverflowError): err(it, 'ValueError', 'math domain error')
    if it.is_intlike(v): return it.mkfloat(v)
    if v.__class__.__name__ == 'SFloat':
      from .interp import SFloat
      if f is math.floor: return it.mkfloat(it.divmod_const(v.num, v.den)[0])
      if f is math.ceil: return it.mkfloat(it.neg(it.divmod_const(it.neg(v.num), v.den)[0]))
    if isinstance(v, Opaque): return Opaque('float')
    err(it, 'TypeError', 'a float is required')
  return g


def m_hexlify(it, a, k):
  v = a[0]
  if isinstance(v, ListV) and v.kind == 'bytearray': v = bytes_of(it, v)
  if isinstance(v, str): return v.encode('latin-1').hex()
  if isinstance(v, SStr): return SText((('hexlify', '', v),))
  if isinstance(v, (Opaque, SText)): return Opaque('hex')
  err(it, 'TypeError', 'hexlify argument')


def m_unhexlify(it, a, k):
  v = a[0]
  r = unhex_text(it, v)
  if r is not None: return r
  if isinstance(v, str):
    try: return bytes.fromhex(v).decode('latin-1')
    except ValueError: err(it, 'TypeError', 'Non-hexadecimal digit found')
  it.raise_('TypeError', 'Non-hexadecimal digit found', guard=it.soft_bool('not hex').node)
  return Opaque('bytes')


def m_isclass(it, a, k):
  return isinstance(a[0], ClassV)


def defaultdict(it, a, k):
  d = DefaultDictV(it.live, it.epoch, it.loc())
  d.factory = a[0] if a and a[0] is not None else Native('missing', lambda it, a, k: err(it, 'KeyError', 'key'))
  if len(a) > 1 or k: d_update(it, d, a[1:], k)
  return d


class DefaultDictV(DictV):
  pass


class ObjDictV(DictV):
  """the attributes of an object, as a dictionary"""


NOT_MODELLED = {
  'str': ['translate', '__add__', '__len__', '__contains__', '__getitem__', '__eq__', '__ne__', '__iter__'],
  'list': ['__add__', '__len__', '__contains__', '__getitem__', '__setitem__', '__delitem__', '__eq__', '__ne__', '__iter__', '__iadd__', '__reversed__'],
  'bytearray': ['capitalize', 'center', 'endswith', 'expandtabs', 'fromhex', 'isalnum', 'isalpha', 'isdigit', 'islower', 'isspace', 'istitle', 'isupper', 'ljust', 'lower', 'lstrip',
                'partition', 'replace', 'rfind', 'rindex', 'rjust', 'rpartition', 'rsplit', 'rstrip', 'split', 'splitlines', 'startswith', 'strip', 'swapcase', 'title', 'translate',
                'upper', 'zfill', '__add__', '__len__', '__contains__', '__getitem__', '__setitem__', '__delitem__', '__iter__', '__eq__', '__ne__'],
  'dict': ['fromkeys', 'popitem', 'viewitems', 'viewkeys', 'viewvalues', '__getitem__', '__setitem__', '__delitem__', '__contains__', '__len__', '__iter__', '__eq__', '__ne__'],
  'set': ['clear', 'difference', 'difference_update', 'intersection', 'intersection_update', 'isdisjoint', 'issubset', 'issuperset', 'pop', 'remove', 'symmetric_difference',
          'symmetric_difference_update', 'union', '__contains__', '__len__', '__iter__'],
  'int': ['bit_length', 'conjugate', 'denominator', 'imag', '__add__', '__eq__', '__lt__', '__hash__', '__str__', '__repr__', '__index__', '__int__', '__and__', '__or__', '__lshift__'],
  'float': ['is_integer', 'conjugate', 'hex', 'as_integer_ratio', 'imag', 'real', '__int__'],
  'tuple': ['__add__', '__len__', '__contains__', '__getitem__', '__iter__', '__eq__'],
}
NOT_MODELLED['frozenset'] = NOT_MODELLED['set']; NOT_MODELLED['long'] = NOT_MODELLED['bool'] = NOT_MODELLED['int']


def crc_here(it, name, e):
  """checksum of bytes that are, in the states considered here, constant or the same as bytes seen before"""
  B, live = it.B, it.live
  if not all(it.is_intlike(x) for x in e): return None
  if name == 'crc-ccitt-false':
    out = []
    for x in e:
      v = 0
      bits = it.bits(x)
      for i, b in enumerate(bits):
        if B.AND(live, b) == 0: continue
        if B.AND(live, B.NOT(b)): v = None; break
        v |= (1 << i) if i < len(bits) - 1 else -(1 << i)
      if v is None: break
      out.append(v)
    else:
      if out: return crc16(out)
  for n2, f, r in it.crcs[-40:]:
    if n2 != name or len(f) != len(e) or not all(it.is_intlike(x) for x in f): continue
    for x, y in zip(e, f):
      bx, by = it.bits(x), it.bits(y)
      n = max(len(bx), len(by))
      if any(B.AND(live, B.XOR(p, q)) for p, q in zip(it.ext(bx, n), it.ext(by, n))): break
    else: return r
  return None


def m_crcfun(it, a, k): return mk_crc(a[0] if a else k.get('crc_name'))


def m_exit(it, a, k):
  it.event('exit')
  err(it, 'SystemExit', *a)


def m_import_module(it, a, k):
  if isinstance(a[0], str): return it.load(a[0])
  return Opaque('module')


def m_handler_register(it, a, k):
  if len(a) == 1 and 'handler' not in k:
    return Native('register', lambda it2, a2, k2: (it2.json_handlers.append((a[0], a2[0], k.get('base', False))), a2[0])[1])
  it.json_handlers.append((a[0], a[1] if len(a) > 1 else k.get('handler'), a[2] if len(a) > 2 else k.get('base', False)))


HANDLER = _b('BaseHandler')
HANDLER.ctor = None


def jsonpickle_module(it):
  m = ModuleV('jsonpickle', None)
  h = ModuleV('jsonpickle.handlers', None)
  r = ModuleV('registry', None)
  for x in (m, h, r): x.external = True
  reg = N('register', m_handler_register)
  r.ns.update(ns(register=reg))
  h.ns.update(ns(register=reg, registry=r, BaseHandler=HANDLER))
  m.ns.update(ns(handlers=h, __name__='jsonpickle'))
  return m


def external_module(it, name):
  if name == 'jsonpickle': return jsonpickle_module(it)
  if name == 'jsonpickle.handlers': return it.load('jsonpickle').ns['handlers']
  m = ModuleV(name, None)
  m.external = True
  base = {
    'enum': ns(Enum=ENUM, IntEnum=INTENUM, unique=N('unique', lambda it, a, k: a[0])),
    'struct': ns(pack=N('pack', struct_pack), unpack=N('unpack', struct_unpack), error=_EXC['struct.error'],
                 calcsize=N('calcsize', lambda it, a, k: struct_size(*[(lambda p: (p[1], p[2]))(parse_fmt(it, a[0]))][0]))),
    'bitstring': ns(ConstBitStream=STREAM, BitStream=STREAM, Bits=STREAM, BitArray=STREAM, ReadError=_EXC['bitstring.ReadError'], Error=_EXC['bitstring.Error'],
                    CreationError=_EXC['bitstring.CreationError'], InterpretError=_EXC['bitstring.InterpretError'], ByteAlignError=_EXC['bitstring.ByteAlignError']),
    'cerberus': ns(Validator=VALIDATOR, SchemaError=_EXC['cerberus.SchemaError'], DocumentError=_EXC['cerberus.DocumentError']),
    'math': ns(pow=N('pow', m_math_pow), log=N('log', m_math_log), ceil=N('ceil', m_math_unary(math.ceil)), floor=N('floor', m_math_unary(math.floor)),
               sqrt=N('sqrt', m_math_unary(math.sqrt)), fabs=N('fabs', lambda it, a, k: b_abs(it, a, k)), log10=N('log10', lambda it, a, k: m_math_log(it, [a[0], 10], k)),
               pi=math.pi, e=math.e, trunc=N('trunc', lambda it, a, k: int_ctor(it, None, a, k))),
    'binascii': ns(hexlify=N('hexlify', m_hexlify), unhexlify=N('unhexlify', m_unhexlify), b2a_hex=N('hexlify', m_hexlify), a2b_hex=N('unhexlify', m_unhexlify),
                   Error=_EXC['binascii.Error']),
    'random': ns(randint=N('randint', m_random_randint), randrange=N('randrange', lambda it, a, k: m_random_randint(it, [0, a[0] - 1] if len(a) == 1 else [a[0], a[1] - 1], k))),
    'inspect': ns(isclass=N('isclass', m_isclass)),
    'threading': ns(Lock=LOCK, RLock=RLOCK, Thread=THREAD, Event=EVENT, Condition=CONDITION),
    'serial': ns(PARITY_NONE='N', PARITY_EVEN='E', PARITY_ODD='O', PARITY_MARK='M', PARITY_SPACE='S', STOPBITS_ONE=1, STOPBITS_ONE_POINT_FIVE=1.5, STOPBITS_TWO=2,
                 FIVEBITS=5, SIXBITS=6, SEVENBITS=7, EIGHTBITS=8, Serial=SERIAL, SerialException=_EXC['serial.SerialException'], SerialTimeoutException=_EXC['serial.SerialTimeoutException']),
    'traceback': ns(format_exc=N('format_exc', lambda it, a, k: SText((('opaque', '', 'traceback'),))), print_exc=N('print_exc', b_print), print_stack=N('print_stack', b_print),
                    format_exception=N('format_exception', lambda it, a, k: it.new_list((SText((('opaque', '', 'traceback'),)),)))),
    'time': ns(sleep=N('sleep', lambda it, a, k: paused(it, 'sleep', a[0] if a else None)), time=N('time', lambda it, a, k: clock(it)),
               clock=N('clock', lambda it, a, k: clock(it))),
    'datetime': ns(datetime=DATETIME, timedelta=TIMEDELTA),
    'pprint': ns(pprint=N('pprint', b_print), pformat=N('pformat', m_pformat), saferepr=N('saferepr', m_pformat), PrettyPrinter=PPRINTER),
    'abc': ns(ABCMeta=Opaque('ABCMeta'), abstractmethod=N('abstractmethod', lambda it, a, k: a[0])),
    'crcmod.predefined': ns(mkCrcFun=N('mkCrcFun', m_crcfun), mkPredefinedCrcFun=N('mkCrcFun', m_crcfun)),
    'crcmod': ns(),
    'sys': ns(exit=N('exit', m_exit)),
    'os': ns(_exit=N('_exit', m_exit)),
    'importlib': ns(import_module=N('import_module', m_import_module)),
    'collections': ns(defaultdict=N('defaultdict', defaultdict), OrderedDict=DICT, namedtuple=N('namedtuple', m_namedtuple), deque=N('deque', m_unknown('deque')), Counter=N('Counter', m_unknown('Counter'))),
    'functools': ns(reduce=BUILTINS['reduce'], wraps=N('wraps', lambda it, a, k: Native('wraps', lambda it2, a2, k2: a2[0], lift=False), lift=False), partial=N('partial', lambda it, a, k: Native('partial', lambda it2, a2, k2: it2.call(a[0], a[1:] + a2, dict(k, **k2))))),
    'itertools': ns(chain=Native('chain', m_chain, lift=False), izip=BUILTINS['zip'], imap=BUILTINS['map'], ifilter=BUILTINS['filter'], islice=N('islice', m_islice), starmap=N('starmap', m_starmap),
                    repeat=N('repeat', m_repeat), takewhile=N('takewhile', m_unknown('takewhile')), dropwhile=N('dropwhile', m_unknown('dropwhile')), count=N('count', m_unknown('count')),
                    izip_longest=N('izip_longest', m_unknown('izip_longest')), groupby=N('groupby', m_unknown('groupby')), cycle=N('cycle', m_unknown('cycle')), tee=N('tee', m_unknown('tee')),
                    product=N('product', m_unknown('product'))),
    '__builtin__': dict(BUILTINS), 'builtins': dict(BUILTINS),
    'operator': dict(ns(itemgetter=N('itemgetter', lambda it, a, k: Native('itemgetter', lambda it2, a2, k2: it2.get_item(a2[0], a[0]) if len(a) == 1 else tuple(it2.get_item(a2[0], x) for x in a))),
                   attrgetter=N('attrgetter', lambda it, a, k: Native('attrgetter', lambda it2, a2, k2: m_attrs(it2, a2[0], a))),
                   methodcaller=N('methodcaller', lambda it, a, k: Native('methodcaller', lambda it2, a2, k2: it2.call(it2.get_attr(a2[0], a[0]), a[1:], k)))),
                   **dict((n, N(n, _operator(n))) for n in OPERATORS)),
    'copy': ns(copy=N('copy', m_copy), deepcopy=N('deepcopy', m_deepcopy)),
  }.get(name)
  if base: m.ns.update(base)
  m.ns['__name__'] = name
  return m


def m_pformat(it, a, k): return SText((('pformat', '', to_str(it, a[0], True)),))


PPRINTER = _b('PrettyPrinter')
PPRINTER.ctor = lambda it, cls, a, k: it.new_obj(PPRINTER)
PPRINTER.ns.update(pformat=N('pformat', lambda it, a, k: m_pformat(it, a[1:], k)), pprint=N('pprint', lambda it, a, k: b_print(it, a[1:], k)))


def m_unknown(name):
  def f(it, a, k): U(name)
  return f


def m_attrs(it, o, names):
  def one(n):
    v = o
    for x in n.split('.'): v = it.get_attr(v, x)
    return v
  r = tuple(one(n) for n in names)
  return r[0] if len(r) == 1 else r


OPERATORS = {'or_': ast.BitOr, 'and_': ast.BitAnd, 'xor': ast.BitXor, 'add': ast.Add, 'sub': ast.Sub, 'mul': ast.Mult, 'lshift': ast.LShift, 'rshift': ast.RShift, 'mod': ast.Mod,
             'floordiv': ast.FloorDiv, 'iconcat': ast.Add, 'concat': ast.Add,
             'eq': ast.Eq, 'ne': ast.NotEq, 'lt': ast.Lt, 'le': ast.LtE, 'gt': ast.Gt, 'ge': ast.GtE, 'is_': ast.Is, 'is_not': ast.IsNot}


def _operator(name):
  op = OPERATORS[name]()
  def f(it, a, k):
    if isinstance(op, ast.cmpop): return it.norm_bool(it.compare(op, a[0], a[1]))
    return it.binop(op, a[0], a[1])
  return f


def m_islice(it, a, k):
  stop = a[1] if len(a) == 2 else a[2]
  start = 0 if len(a) == 2 else (a[1] or 0)
  if len(a) > 3 or not isinstance(start, int) or not (stop is None or isinstance(stop, int)): U("islice")
  if isinstance(a[0], GenV) or isinstance(a[0], ListV) and a[0].kind in ('gen', 'iter'): U("islice of an iterator")
  return get_slice(it, it.new_seq(it.norm_seq(it.elements(a[0]))), SliceV(start, stop, None))


def m_starmap(it, a, k):
  out = []
  for g, e in it.elements(a[1]):
    if has_run(e): U("starmap over an unknown run")
    out.append((g, e))
  def one(e):
    r = []
    for x in e:
      args = it.elements(x)
      if len(args) != 1: U("starmap over alternatives")
      r.append(it.call(a[0], list(args[0][1]), {}))
    return it.new_list(tuple(r))
  return it.fork(out, one)


def m_repeat(it, a, k):
  if len(a) < 2: U("repeat without end")
  return it.binop(ast.Mult(), it.new_list((a[0],)), a[1])


def m_namedtuple(it, a, k):
  names = a[1].replace(',', ' ').split() if isinstance(a[1], str) else list(it.elements(a[1])[0][1])
  if not all(isinstance(x, str) for x in names): U("namedtuple")
  src = 'class %s(object):\n  def __init__(self, %s):\n' % (a[0], ', '.join(names)) + ''.join('    self.%s = %s\n' % (n, n) for n in names)
  src += '  def __iter__(self):\n    return iter((%s,))\n' % ', '.join('self.' + n for n in names)
  src += '  def __len__(self):\n    return %d\n' % len(names)
  src += '  def __getitem__(self, i):\n    return (%s,)[i]\n' % ', '.join('self.' + n for n in names)
  src += '  def __eq__(self, other):\n    return tuple(self) == tuple(other)\n  def __ne__(self, other):\n    return tuple(self) != tuple(other)\n'
  src += '  def _replace(self, **kw):\n    return %s(%s)\n' % (a[0], ', '.join('kw.get(%r, self.%s)' % (n, n) for n in names))
  m = ModuleV('namedtuple.' + a[0], None)
  m.tree = ast.parse(src)
  m.ns['__name__'] = m.name
  it.exec_module(m)
  return m.ns[a[0]]


def m_chain_from(it, a, k):
  acc = []
  for g, e in it.elements(a[0]):
    if has_run(e): U("chain over an unknown run")
    acc.append((g, e))
  return it.fork(acc, lambda e: m_chain(it, list(e), {}))


def m_chain(it, a, k):
  out = []
  acc = [(TRUE, ())]
  for x in a:
    nxt = []
    for g, e in acc:
      for h, f in it.elements(x):
        gh = it.AND(g, h)
        if it.may(gh): nxt.append((gh, e + tuple(f)))
    acc = nxt
  return it.new_seq(it.norm_seq(acc))


def m_deepcopy(it, a, k):
  memo = {}
  def deep(v):
    if isinstance(v, Union): return it.split(v, deep)
    if isinstance(v, (ListV, DictV)) or isinstance(v, Obj) and not v.cls.is_enum:
      if id(v) in memo: return memo[id(v)]
      n = m_copy(it, [v], {})
      memo[id(v)] = n
      if isinstance(n, ListV): n.alts = tuple((g, tuple(deep(x) if isinstance(x, (ListV, DictV, Obj, Union, tuple)) else x for x in e)) for g, e in n.alts)
      elif isinstance(n, DictV): n.items = dict((k2, [kk, deep(x) if x is not UNDEF else x]) for k2, (kk, x) in n.items.items())
      else: n.attrs = dict((k2, deep(x) if isinstance(x, (ListV, DictV, Obj, Union, tuple)) else x) for k2, x in n.attrs.items())
      return n
    if isinstance(v, tuple): return tuple(deep(x) for x in v)
    return v
  return deep(a[0])


def m_copy(it, a, k):
  v = a[0]
  if isinstance(v, ListV): return it.new_seq([(g, e) for g, e in it.list_live(v)], v.kind)
  if isinstance(v, DictV): return d_copy(it, v, [], {})
  if isinstance(v, (int, str, float, tuple, SI, SB, SStr)) or v is None: return v
  if isinstance(v, Obj):
    if v.cls.is_enum: return v
    o = it.new_obj(v.cls); o.attrs.update(v.attrs); o.native = v.native
    return o
  U("copy")


def external_attr(it, m, name):
  if m.name == 'logging':
    return Opaque('logging.' + name)
  return Opaque(m.name + '.' + name)


def install(it):
  it.blob_new = set()
  it.blob_done = set()
  it.keep = []
  it.crcs = []
  it.crc_spare = []
