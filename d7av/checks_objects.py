"""Comparison, text, dictionary view, description and isolation of objects (C18, C23, C24, C27, C30, C31, C33)."""
import ast
from .bdd import TRUE, FALSE
from .values import *
from .domains import *
from .recipes import *
from .report import Ob, place, is_a
from .interp import Dead, Unsupported, SFloat
from . import models
from .checks_structs import *
from .checks_structs import short, cplace, serialise, stream_of, compare, class_file, small_read, command_of, regular, status_action, tag_request, tag_response, return_data
from .checks_alp import no_decoding, qual, entries, blen, one_action, data_stream, SUPPORTED
from .checks_values import signed_pair, CONTROLS, OPERANDS, OPERATIONS, label_of, C02, C03, PHYS, APF


def project_classes(it):
  out = []
  for name, m in sorted(it.modules.items()):
    if not name.startswith(('d7a', 'util', 'modem')): continue
    for k, v in sorted(m.ns.items(), key=lambda kv: str(kv[0])):
      if isinstance(v, ClassV) and not v.native and v.module is m and v.name == k: out.append(v)
  return out


# ------------------------------------------------------------------ C23
def eq(it, x, y): return it.compare(ast.Eq(), x, y)
def ne(it, x, y): return it.compare(ast.NotEq(), x, y)


def pair(w, spec, label):
  """two unknown values of a kind whose bits alternate, each as a maker (every call makes a new object)"""
  it = w.it
  if not isinstance(spec, Spec) or spec.kind == 'const':
    v = spec.a[0] if isinstance(spec, Spec) else spec
    return (lambda: v), (lambda: v)
  k = spec.kind
  if k == 'int':
    x, y = signed_pair(w, label, spec.a[0])
    return (lambda: x), (lambda: y)
  if k in ('bool',):
    x, y = w.bool(label), w.bool('other ' + label)
    return (lambda: x), (lambda: y)
  if k == 'enum':
    x, y = w.member(w.cls(spec.a[0]), label), w.member(w.cls(spec.a[0]), 'other ' + label)
    return (lambda: x), (lambda: y)
  if k == 'obj': return pair_of(w, spec.a[0], label, **spec.a[1])
  if k == 'list':
    ps = [pair(w, spec.a[0], '%s[%d]' % (label, i)) for i in range(spec.a[1])]
    return (lambda: it.new_list([a() for a, _ in ps])), (lambda: it.new_list([b() for _, b in ps]))
  if k == 'alt': return pair(w, spec.a[-1], label)
  raise Unsupported('pair of ' + k)


def pair_of(w, q, label, **fix):
  it = w.it
  cls = w.cls(q)
  rec = RECIPES[q]
  ps = {p: pair(w, fix.get(p, rec[p]), (label + '.' if label else '') + p) for p in rec}
  return ((lambda: accepted(w, lambda: it.call(cls, [], {p: a() for p, (a, b) in ps.items()}))),
          (lambda: accepted(w, lambda: it.call(cls, [], {p: b() for p, (a, b) in ps.items()}))))


def defines_eq(cls):
  for n in ('__eq__', '__ne__', '__cmp__'):
    m, owner = cls.lookup(n)
    if m is not None and not isinstance(m, Native): return True
  return False


def decided(c, cls, thunk, what):
  it = c.it
  live, v, thr = it.run(thunk)
  for t in thr: c.viol('comparison-raises', cplace(cls, '.__eq__'), '%s ends in %s' % (what, it.exc_name(t.exc)), t.guard)
  it.live = live
  if live == 0: raise Dead()
  for g, x in it.alts(v):
    if x is models.NOTIMPL or not isinstance(x, (bool, SB)): c.viol('comparison', cplace(cls, '.__eq__'), '%s gives neither true nor false' % what, it.AND(it.live, g))
  return it.truth(v)


def comparable(q):
  def go(c):
    it, w = c.it, c.w
    cls = w.cls(q)
    a, b = pair_of(w, q, '')
    x = a()
    y = b()
    e = decided(c, cls, lambda: eq(it, x, y), 'comparing two objects')
    n = decided(c, cls, lambda: ne(it, x, y), 'comparing two objects')
    c.ok(2)
    bad = it.AND(it.live, it.NOT(it.B.XOR(e, n)))
    if bad: c.viol('complement', cplace(cls, '.__ne__'), 'two objects are both equal and unequal, or neither', bad)
    bad = it.AND(it.live, it.B.XOR(e, it.truth(eq(it, y, x))))
    if bad: c.viol('symmetry', cplace(cls, '.__eq__'), 'x equals y but y does not equal x', bad)
    live = it.live
    b1 = serialise(c, x, rule=None)
    b2 = serialise(c, y, rule=None)
    c.ok(2)
    for g, ea in it.list_live(b1):
      for h, eb in it.list_live(b2):
        gh = it.AND(it.AND(it.live, g), h)
        if not it.may(gh): continue
        bad = it.AND(it.AND(gh, e), it.NOT(it.eq_entries(ea, eb)))
        if bad: c.viol('indiscriminate', cplace(cls, '.__eq__'), 'objects with different bytes are equal', bad)
    it.live = live
    z = a()
    for v, what in ((z, 'an object with the same values'), (x, 'itself')):
      e = decided(c, cls, lambda: eq(it, x, v), 'comparing with ' + what)
      n = decided(c, cls, lambda: ne(it, x, v), 'comparing with ' + what)
      bad = it.AND(it.live, it.NOT(e))
      if bad: c.viol('unequal', cplace(cls, '.__eq__'), 'an object does not equal ' + what, bad)
      bad = it.AND(it.live, n)
      if bad: c.viol('complement', cplace(cls, '.__ne__'), 'an object is unequal to ' + what, bad)
      c.ok(2)
  return go


def other_types(q):
  def go(c):
    it, w = c.it, c.w
    cls = w.cls(q)
    x = arbitrary(w, q)
    entry = it.live
    others = [('None', None), ('a text', 'x'), ('an empty text', ''), ('a list', it.new_list([])), ('a tuple', ()), ('a dictionary', it.new_dict()), ('a fraction', 0.5)]
    if q != LEN: others += [('a number', w.sint('number', 40)), ('a flag', w.bool('flag'))]
    for o in sorted(RECIPES):
      if o == q or not (defines_eq(w.cls(o)) or o in (CT, CID, QOS)): continue
      it.live = entry
      try: others.append((short(o), arbitrary(w, o, 'other')))
      except (Dead, Unsupported): continue
    for what, v in others:
      for l, r in ((x, v), (v, x)):
        it.live = entry
        e = decided(c, cls, lambda: eq(it, l, r), 'comparing with %s' % what)
        n = decided(c, cls, lambda: ne(it, l, r), 'comparing with %s' % what)
        c.ok(2)
        bad = it.AND(it.live, e)
        if bad: c.viol('other-type', cplace(cls, '.__eq__'), 'an object equals %s' % what, bad)
        bad = it.AND(it.live, it.NOT(n))
        if bad: c.viol('other-type', cplace(cls, '.__ne__'), 'an object is not unequal to %s' % what, bad)
  return go


def length_number(c):
  """a length also compares with a plain number: equal exactly when it is that length"""
  it, w = c.it, c.w
  cls = w.cls(LEN)
  v, n = w.interleaved(('length', 30), ('number', 30))
  x = accepted(w, lambda: it.call(cls, [v], {}))
  for l, r in ((x, n), (n, x)):
    e = decided(c, cls, lambda: eq(it, l, r), 'comparing with a number')
    m = decided(c, cls, lambda: ne(it, l, r), 'comparing with a number')
    same = it.eq_node(v, n)
    c.ok(2)
    for bad, what in ((it.AND(it.live, it.B.XOR(e, same)), '__eq__'), (it.AND(it.live, it.NOT(it.B.XOR(m, same))), '__ne__')):
      if bad: c.viol('number', cplace(cls, '.' + what), 'comparison with a number is not that of the length', bad)


COMPARED = (CH, LEN, FHDR, FPROP, FPERM)


def c23(base, tier):
  obs = []
  found = set(qual(cls) for cls in project_classes(base) if not cls.is_enum and defines_eq(cls))
  for q in sorted(found | set(COMPARED)):
    if q not in RECIPES:
      def missing(c, q=q): c.undecided('no recipe to build %s' % q)
      obs.append(Ob('comparison of %s' % short(q), missing)); continue
    obs.append(Ob('comparison of %s' % short(q), comparable(q)))
    obs.append(Ob('%s and other types' % short(q), other_types(q)))
  obs.append(Ob('a length and a number', length_number))
  return obs


# ------------------------------------------------------------------ C31
def ct_expand(e):
  """every way of expanding gives mantissa times four to the exponent"""
  def go(c):
    it, w = c.it, c.w
    cls = w.cls(CT)
    m = w.uint('mant', 5)
    want = it.shl(m, 2 * e) if e else m
    x = accepted(w, lambda: it.call(cls, [], dict(exp=e, mant=m)))
    s = w.stream((it.norm_int(it.bits(it.add(m, e << 5))),))
    live, y, thr = it.run(lambda: it.call(it.get_attr(cls, 'parse'), [s], {}))
    c.thrown('raises', thr)
    it.live = live
    if live == 0: raise Dead()
    entry = it.live
    for o, src in ((x, 'built'), (y, 'received')):
      for what, thunk in (('__int__', lambda: it.call(models.BUILTINS['int'], [o], {})), ('decompress', lambda: it.call(it.get_attr(o, 'decompress'), [], {}))):
        if what == '__int__' and cls.lookup(what)[0] is None or what != '__int__' and cls.lookup(what)[0] is None: continue
        it.live = entry
        live, v, thr = it.run(thunk)
        c.thrown('raises', thr, what='expanding a compressed time')
        it.live = live
        c.ok()
        for g, p, why in diff(it, want, v): c.viol('expand', cplace(cls, '.' + what), 'a %s compressed time expands to another duration (%s)' % (src, why), g)
  return go


def ct_compress(e):
  """a representable duration survives compression"""
  def go(c):
    it, w = c.it, c.w
    cls = w.cls(CT)
    m = w.uint('mant', 5)
    dur = it.shl(m, 2 * e) if e else m
    entry = it.live
    for kw in ({}, {'ceil': True}, {'ceil': False}):
      it.live = entry
      live, r, thr = it.run(lambda: it.call(it.get_attr(cls, 'compress'), [dur], kw))
      c.thrown('raises', thr, what='compressing a representable duration')
      it.live = live
      if live == 0: raise Dead()
      back(c, cls, r, dur, dur, 'representable')
  return go


def back(c, cls, r, lo, hi, what):
  it = c.it
  saved = it.live
  for g, o in it.alts(r):
    it.live = it.AND(saved, g)
    if not it.may(it.live): continue
    if not (isinstance(o, Obj) and o.cls is cls):
      c.viol('compress', cplace(cls, '.compress'), 'a %s duration is compressed to %s' % (what, nameof(o)), it.live); continue
    v = it.call(models.BUILTINS['int'], [o], {})
    c.ok()
    bad = it.AND(it.live, it.OR(it.lt_node(v, lo), it.lt_node(hi, v)))
    if bad: c.viol('compress', cplace(cls, '.compress'), 'a %s duration is compressed to a time that expands to another one' % what, bad)
  it.live = saved


def ct_round(up, kw):
  """any duration in range is rounded by less than one step, in the direction asked for"""
  def go(c):
    it, w = c.it, c.w
    cls = w.cls(CT)
    dur = w.uint('duration', 19)
    w.assume(it.NOT(it.lt_node(31 << 14, dur)))
    live, r, thr = it.run(lambda: it.call(it.get_attr(cls, 'compress'), [dur], kw))
    c.thrown('raises', thr, what='compressing a duration in range')
    it.live = saved = live
    if live == 0: raise Dead()
    for g, o in it.alts(r):
      it.live = it.AND(saved, g)
      if not it.may(it.live): continue
      if not (isinstance(o, Obj) and o.cls is cls):
        c.viol('compress', cplace(cls, '.compress'), 'a duration in range is compressed to %s' % nameof(o), it.live); continue
      v = it.call(models.BUILTINS['int'], [o], {})
      lo, hi = (dur, v) if up else (v, dur)
      bad = it.AND(it.live, it.lt_node(hi, lo))
      c.ok(2)
      if bad: c.viol('rounding', cplace(cls, '.compress'), 'a duration is rounded in the wrong direction', bad)
      gap = it.sub(hi, lo)
      for k in range(8):
        ge = it.AND(it.live, it.eq_int(it.get_attr(o, 'exp'), k))
        bad = it.AND(ge, it.NOT(it.lt_node(gap, 1 << (2 * k))))
        if bad: c.viol('rounding', cplace(cls, '.compress'), 'a duration is off by a step or more', bad)
  return go


def c31(base, tier):
  more = [Ob('compressing any duration in range, %s' % n, ct_round(up, kw)) for n, up, kw in (('by default', True, {}), ('rounding up', True, {'ceil': True}), ('rounding down', False, {'ceil': False}))]
  return more + c31_exact(base, tier)


def c31_exact(base, tier):
  return [Ob('expanding with exponent %d' % e, ct_expand(e)) for e in range(8)] + [Ob('compressing mantissa times four to the %d' % e, ct_compress(e)) for e in range(8)]


# ------------------------------------------------------------------ C24
HDR = 'd7a.phy.channel_header.'
MODEQ = SF + 'engineering_mode.EngineeringModeMode'
BANDS = {'433': 'BAND_433', '868': 'BAND_868', '915': 'BAND_915'}
CLASSES = ('LO_RATE', 'LORA', 'NORMAL_RATE', 'HI_RATE')
CODINGS = ('PN9', 'FEC_PN9', 'CW')


def member_of(c, q, name):
  for m in c.w.cls(q).members:
    if m.attrs['_name_'] == name: return m
  raise Missing('%s has no member %s' % (q, name))


def headers(c, bands=BANDS):
  w, it = c.w, c.it
  cls = w.cls(CH)
  for b in sorted(bands.values()):
    for l in CLASSES:
      for d in CODINGS:
        kw = dict(channel_band=member_of(c, HDR + 'ChannelBand', b), channel_class=member_of(c, HDR + 'ChannelClass', l), channel_coding=member_of(c, HDR + 'ChannelCoding', d))
        yield '%s %s %s' % (b, l, d), kw, it.call(cls, [], dict(kw))


def text_of(c, o): return c.it.call(models.BUILTINS['str'], [o], {})


def same_text(it, a, b):
  if isinstance(a, SText):
    a = models.expand_text(it, a)
    if a is None: raise Unsupported('text form of unknown shape')
  if isinstance(b, SText):
    b = models.expand_text(it, b)
    if b is None: raise Unsupported('text form of unknown shape')
  return it.eq_node(a, b)


def header_texts(c):
  it, w = c.it, c.w
  cls = w.cls(CH)
  seen = []
  entry = it.live
  for name, kw, h in headers(c):
    it.live = entry
    live, t, thr = it.run(lambda: text_of(c, h))
    c.thrown('text-raises', thr, what='the text form of channel header %s' % name)
    it.live = live
    if live == 0: continue
    live, r, thr = it.run(lambda: it.call(it.get_attr(cls, 'from_string'), [t], {}))
    c.thrown('refused', thr, what='reading back the text form of channel header %s' % name, default=cplace(cls, '.from_string'))
    it.live = live
    c.ok(2)
    for g, p, why in diff(it, h, r): c.viol('text-changed', cplace(cls, '.from_string'), 'the text form of channel header %s reads back as another one (%s: %s)' % (name, p, why), g)
    it.live = entry
    for other, u in seen:
      bad = it.AND(it.live, same_text(it, t, u))
      if bad: c.viol('ambiguous', cplace(cls, '.__str__'), 'channel headers %s and %s have the same text' % (name, other), bad)
      c.ok()
    seen.append((name, t))


def part_texts(q, reader, texts, size):
  """a text reader gives the named member for its text and refuses every other text of that size"""
  def go(c):
    it, w = c.it, c.w
    cls = w.cls(q)
    chars = tuple(w.uint('text[%d]' % i, 8) for i in range(size))
    t = it.mkstr(((TRUE, chars),))
    live, r, thr = it.run(lambda: it.call(it.get_attr(cls, reader), [t], {}))
    saved = it.live
    known = FALSE
    for s, nm in texts.items():
      if len(s) != size: continue
      it.live = saved
      g = it.eq_node(t, s)
      known = it.OR(known, g)
      bad = it.AND(saved, it.AND(g, it.NOT(live)))
      if bad: c.viol('refused', cplace(cls, '.' + reader), 'the text %s is refused' % s, bad)
      it.live = it.AND(live, g)
      c.ok()
      if it.live == 0: continue
      for h, x in it.alts(r):
        gg = it.AND(it.live, h)
        if it.may(gg) and not (isinstance(x, Obj) and x.cls is cls and x.attrs['_name_'] == nm):
          c.viol('text-changed', cplace(cls, '.' + reader), 'the text %s is read as %s' % (s, nameof(x)), gg)
    it.live = saved
    c.ok()
    bad = it.AND(live, it.NOT(known))
    if bad: c.viol('unknown-accepted', cplace(cls, '.' + reader), 'a text that names nothing is accepted', bad)
    for x in thr:
      if not is_a(it, x.exc, ('NotImplementedError', 'ValueError', 'KeyError', 'TypeError', 'IndexError', 'LookupError')):
        c.viol('refusal', cplace(cls, '.' + reader), 'an unknown text ends in %s' % it.exc_name(x.exc), x.guard)
  return go


def any_header_text(size):
  """a channel header is read from exactly the texts that are the text form of one"""
  def go(c):
    it, w = c.it, c.w
    cls = w.cls(CH)
    t = it.mkstr(((TRUE, tuple(w.uint('text[%d]' % i, 8) for i in range(size))),))
    saved = it.live
    live, r, thr = it.run(lambda: it.call(it.get_attr(cls, 'from_string'), [t], {}))
    known = FALSE
    it.live = saved
    for name, kw, h in headers(c):
      it.live = saved
      known = it.OR(known, same_text(it, t, text_of(c, h)))
      c.ok()
    bad = it.AND(live, it.NOT(known))
    if bad: c.viol('unknown-accepted', cplace(cls, '.from_string'), 'a text that is no channel header is accepted', bad)
  return go


def channel_texts(band):
  def go(c):
    it, w = c.it, c.w
    cls = w.cls(CID)
    entry = it.live
    n = w.uint('channel index', 16)
    for name, kw, h in headers(c, {band: BANDS[band]}):
      it.live = entry
      o = accepted(w, lambda: it.call(cls, [], dict(channel_header=h, channel_index=n)))
      live, t, thr = it.run(lambda: text_of(c, o))
      c.thrown('text-raises', thr, what='the text form of a channel')
      it.live = live
      if live == 0: continue
      live, r, thr = it.run(lambda: it.call(it.get_attr(cls, 'from_string'), [t], {}))
      c.thrown('refused', thr, what='reading back the text form of a channel', default=cplace(cls, '.from_string'))
      it.live = live
      c.ok(2)
      for g, p, why in diff(it, o, r): c.viol('text-changed', cplace(cls, '.from_string'), 'the text form of a channel reads back as another one (%s: %s)' % (p, why), g)
  return go


def mode_texts(c):
  it, w = c.it, c.w
  cls = w.cls(MODEQ)
  entry = it.live
  seen = []
  for m in cls.members:
    it.live = entry
    live, t, thr = it.run(lambda: text_of(c, m))
    c.thrown('text-raises', thr, what='the text form of an engineering mode')
    it.live = live
    if live == 0: continue
    live, r, thr = it.run(lambda: it.call(it.get_attr(cls, 'from_string'), [t], {}))
    c.thrown('refused', thr, what='reading back the text form of %s' % m.attrs['_name_'], default=cplace(cls, '.from_string'))
    it.live = live
    c.ok(2)
    for g, x in it.alts(r):
      if it.may(g) and x is not m: c.viol('text-changed', cplace(cls, '.from_string'), 'the text form of %s reads back as %s' % (m.attrs['_name_'], nameof(x)), it.AND(live, g))
    it.live = entry
    for other, u in seen:
      bad = it.AND(it.live, same_text(it, t, u))
      if bad: c.viol('ambiguous', cplace(cls, '.__str__'), '%s and %s have the same text' % (m.attrs['_name_'], other), bad)
      c.ok()
    seen.append((m.attrs['_name_'], t))


MODES = {'OFF': 'ENGINEERING_MODE_MODE_OFF', 'CONT_TX': 'ENGINEERING_MODE_MODE_CONT_TX', 'TRANSIENT_TX': 'ENGINEERING_MODE_MODE_TRANSIENT_TX',
         'PER_RX': 'ENGINEERING_MODE_MODE_PER_RX', 'PER_TX': 'ENGINEERING_MODE_MODE_PER_TX'}


def c24(base, tier):
  obs = [Ob('text forms of all channel headers', header_texts), Ob('text forms of all engineering modes', mode_texts)]
  obs += [Ob('text forms of all channels of band %s' % b, channel_texts(b), weight=2) for b in sorted(BANDS)]
  for n in range(0, 5): obs.append(Ob('any band text of %d characters' % n, part_texts(HDR + 'ChannelBand', 'from_string', BANDS, n)))
  for n in range(0, 3):
    obs.append(Ob('any class text of %d characters' % n, part_texts(HDR + 'ChannelClass', 'from_char', dict(L='LO_RATE', R='LORA', N='NORMAL_RATE', H='HI_RATE'), n)))
    obs.append(Ob('any coding text of %d characters' % n, part_texts(HDR + 'ChannelCoding', 'from_char', dict(P='PN9', F='FEC_PN9', C='CW'), n)))
  for n in range(0, 16): obs.append(Ob('any mode text of %d characters' % n, part_texts(MODEQ, 'from_string', MODES, n)))
  for n in range(0, 6): obs.append(Ob('any channel header text of %d characters' % n, any_header_text(n)))
  return obs


# ------------------------------------------------------------------ C18
def reach(it, roots):
  """identities of every object that can be reached from roots"""
  seen, todo = set(), list(roots)
  while todo:
    o = todo.pop()
    if isinstance(o, Union):
      todo += [x for _, x in o.alts]; continue
    if id(o) in seen: continue
    if isinstance(o, Obj):
      seen.add(id(o)); todo += list(o.attrs.values())
    elif isinstance(o, ListV):
      seen.add(id(o))
      for _, e in o.alts: todo += [x for x in e if not isinstance(x, int)]
    elif isinstance(o, DictV):
      seen.add(id(o)); todo += [v for _, v in o.items.values()]
    elif isinstance(o, tuple): todo += list(o)
  return seen


def owner_name(it, o, known):
  for name, ids in known:
    if id(o) in ids: return name
  if isinstance(o, ModuleV): return 'the module variables of %s' % o.name
  if isinstance(o, ClassV): return 'the class %s' % o.name
  return 'a shared %s of the library' % (o.cls.name if isinstance(o, Obj) else {'list': 'list'}.get(getattr(o, 'kind', ''), 'table'))


def alone(c, thunk, what, where, own=(), known=()):
  """thunk changes nothing that existed before it, except the objects in own and what only they hold"""
  it = c.it
  it.epoch += 1
  n = len(it.mutations)
  live, r, thr = it.run(thunk)
  mine = set(id(o) for o in own)
  for m in it.mutations[n:]:
    g, o, attr, loc = m[:4]
    if id(o) in mine: continue
    c.viol('foreign-change', place(loc) if loc and not loc.startswith('?') else where, '%s changes %s' % (what, owner_name(it, o, known)), g, loc)
  c.ok()
  it.epoch += 1
  it.live = live
  return r


def observe(c, o, name, known):
  """serialise, describe and view an object"""
  it, cls = c.it, o.cls
  where = cplace(cls)
  entry = it.live
  if cls.lookup('__iter__')[0] is not None:
    alone(c, lambda: to_bytes(it, o), 'serialising %s' % name, where, (o,), known)
    it.live = entry
  alone(c, lambda: it.call(models.BUILTINS['str'], [o], {}), 'describing %s' % name, where, (o,), known)
  it.live = entry
  if cls.lookup('as_dict')[0] is not None:
    alone(c, lambda: it.call(it.get_attr(o, 'as_dict'), [], {}), 'viewing %s as a dictionary' % name, where, (o,), known)
  it.live = entry


PARSED = {}


def isolated(q, parse=None, **fix):
  def go(c):
    it, w = c.it, c.w
    no_decoding(c)
    cls = w.cls(q)
    it.epoch = 1
    more = dict(fix)
    if q == ADDR: more.update(id_type=K(member_of(c, IDT, 'NBID')), id=O(CT))
    kw = args_for(w, q, 'first', **more)
    caller = [('an argument of the caller', reach(it, kw.values()))]
    x = alone(c, lambda: accepted(w, lambda: it.call(cls, [], dict(kw))), 'constructing %s' % cls.name, cplace(cls, '.__init__'), (), caller)
    if it.live == 0: raise Dead()
    for _, o in it.alts(x): observe(c, o, 'it', caller)
    known = caller + [('an object built earlier', reach(it, [x]))]
    # another one from the same arguments, and one from the defaults
    entry = it.live
    for what, a in (('the same arguments', dict(kw)), ('the default arguments', {})):
      it.live = entry
      try:
        y = alone(c, lambda: accepted(w, lambda: it.call(cls, [], a)), 'constructing another %s from %s' % (cls.name, what), cplace(cls, '.__init__'), (), known)
      except Dead: continue
      if it.live == 0: continue
      for _, o in it.alts(y):
        if isinstance(o, Obj): observe(c, o, 'another %s' % cls.name, known)
      known = known + [('an object built earlier', reach(it, [y]))]
    it.live = entry
    m, _ = cls.lookup('parse')
    if parse is not None or (m is not None and q in PARSE_PLAIN):
      b = serialise(c, x, rule=None)
      entry = it.live
      prev = known
      for i in (1, 2):
        it.live = entry
        it.epoch += 1
        s = stream_of(c, b, (w.blob('following'),))
        try: z = alone(c, lambda: accepted(w, lambda: it.call(it.get_attr(cls, 'parse'), [s], {})), 'parsing %s' % cls.name, cplace(cls, '.parse'), stream_parts(s), prev)
        except Dead: break
        prev = prev + [('an object parsed earlier', reach(it, [z]))]
        for _, o in it.alts(z):
          if isinstance(o, Obj): observe(c, o, 'a parsed %s' % cls.name, prev)
  return go


def stream_parts(s):
  out = [s]
  if isinstance(s, Obj): out += [v for v in s.attrs.values()]
  return out


PARSE_PLAIN = set(C03 + C02 + CONTROLS)
SHARED_QUALS = [q for q in C03 + C02 + CONTROLS + OPERANDS + OPERATIONS if q != APF] + [APF]


def c18_commands(c):
  """commands: caller lists, every way of extending, repeated serialisation"""
  it, w = c.it, c.w
  cls = w.cls(CMD)
  it.epoch = 1
  acts = [small_read(c), small_read(c)]
  lst = it.new_list(acts)
  conf = accepted(w, lambda: it.call(w.cls(CONF), [], {}))
  over = arbitrary(w, ADDR, 'overload')
  t = {m.attrs['_name_']: m for m in w.cls(ITYPE).members}
  caller = [("the caller's list of actions", set([id(lst)])), ('an argument of the caller', reach(it, [lst, conf, over]))]
  tag = w.uint('tag', 8)
  def fresh(known, args, name):
    return alone(c, lambda: accepted(w, lambda: it.call(cls, [], args)), 'constructing %s' % name, cplace(cls, '.__init__'), (), known)
  def extend(cmd, known, name):
    own = [cmd] + own_lists(it, cmd, lst)
    alone(c, lambda: it.call(it.get_attr(cmd, 'add_action'), [acts[0]], {}), 'extending %s' % name, cplace(cls, '.add_action'), own, known)
    for n, kw in (('HOST', {}), ('SERIAL', {}), ('D7ASP', {}), ('D7ASP', dict(interface_configuration=conf))):
      if n not in t: continue
      alone(c, lambda: it.call(it.get_attr(cmd, 'add_forward_action'), [], dict(kw, interface_type=t[n])), 'adding a forward to %s' % name, cplace(cls, '.add_forward_action'), own, known)
    alone(c, lambda: it.call(it.get_attr(cmd, 'add_indirect_forward_action'), [], dict(interface_file_id=3, overload=True, overload_configuration=over)),
          'adding an indirect forward to %s' % name, cplace(cls, '.add_indirect_forward_action'), own, known)
    if it.live == 0: raise Dead()
    observe(c, cmd, name, known)
  known = list(caller)
  for i, (name, args) in enumerate((('a command', dict(actions=lst, tag_id=tag)), ('another command from the same list', dict(actions=lst, generate_tag_request_action=False)),
                                    ('a command without actions', {}), ('another command without actions', {}))):
    cmd = fresh(known, args, name)
    if it.live == 0: raise Dead()
    observe(c, cmd, name, known)
    extend(cmd, known, name)
    known = known + [('a command built earlier', reach(it, [cmd]) - reach(it, [lst, conf, over]))]


def own_lists(it, cmd, *foreign):
  """lists only this command holds"""
  out = []
  for v in cmd.attrs.values():
    for _, x in it.alts(v):
      if isinstance(x, ListV) and x.epoch and all(x is not f for f in foreign): out.append(x)
  return out


def c18_factories(c):
  it, w = c.it, c.w
  cls = w.cls(CMD)
  it.epoch = 1
  conf = accepted(w, lambda: it.call(w.cls(CONF), [], {}))
  data = it.new_list([w.uint('data[%d]' % i, 8) for i in range(3)])
  hdr = arbitrary(w, FHDR, 'header')
  vid = accepted(w, lambda: it.call(w.cls(SF + 'vid.VidFile'), [], {}))
  caller = [("the caller's list of bytes", set([id(data)])), ('an argument of the caller', reach(it, [conf, hdr, vid]))]
  t = {m.attrs['_name_']: m for m in w.cls(ITYPE).members}
  calls = [('create_with_read_file_action', dict(file_id=1, length=4)), ('create_with_write_file_action', dict(file_id=1, data=data)),
           ('create_with_return_file_data_action', dict(file_id=0x40, data=data)), ('create_with_read_file_header', dict(file_id=1)),
           ('create_with_write_file_header', dict(file_id=1, file_header=hdr)), ('create_with_create_new_file', dict(file_id=1, file_header=hdr)),
           ('create_with_read_file_action_system_file', dict(file=vid)), ('create_with_write_file_action_system_file', dict(file=vid))]
  known = list(caller)
  entry = it.live
  for name, kw in calls:
    if cls.lookup(name)[0] is None: continue
    for i, extra in (('HOST', {}), ('D7ASP', {}), ('D7ASP', dict(interface_configuration=conf))):
      it.live = entry
      try: cmd = alone(c, lambda: accepted(w, lambda: it.call(it.get_attr(cls, name), [], dict(kw, interface_type=t[i], **extra))), name, cplace(cls, '.' + name), (), known)
      except Dead: continue
      if it.live == 0: continue
      observe(c, cmd, 'the command', known)
      alone(c, lambda: it.call(it.get_attr(cmd, 'add_action'), [small_read(c)], {}), 'extending the command', cplace(cls, '.add_action'), [cmd] + own_lists(it, cmd, data), known)
      known.append(('a command built earlier', reach(it, [cmd]) - reach(it, [data, conf, hdr, vid])))


def c18_parse(c):
  """a parser used for two commands leaves the first alone"""
  it, w = c.it, c.w
  no_decoding(c)
  p = it.call(w.cls(PARSER), [], {})
  it.epoch = 1
  known = []
  streams = []
  entry = it.live
  # read file data with a response, return file data, tag response
  a = (0x41, w.uint('file', 8), 0, 4)
  b = (0x60 - 0x40, 0x41, 0, 2, w.uint('data', 8), w.uint('data 2', 8))
  r = (0xA3, w.uint('tag', 8))
  for i, e in enumerate((a + b, b + r, b + r, ())):
    it.live = entry
    it.epoch += 1
    s = w.stream(e)
    known_s = known
    z = alone(c, lambda: accepted(w, lambda: it.call(it.get_attr(p, 'parse'), [s, len(e)], {})), 'parsing a command', cplace(p.cls, '.parse'), stream_parts(s) + [p] + held(it, p, known), known_s)
    for _, o in it.alts(z): observe(c, o, 'a parsed command', known)
    known = known + [('a command parsed earlier', reach(it, [z]))]


def c18_response(v, n):
  """two responses made of the same returned data, described and viewed"""
  def go(c):
    it, w = c.it, c.w
    es = entries(c)
    f = es[v][1] if v in es else None
    full = it.get_attr(f, 'length') if isinstance(f, Obj) else 0
    if not isinstance(full, int): raise Unsupported('the length of a registered file is not fixed')
    size = n(full)
    if size is None or size < 0: c.ok(); return
    bs = [w.uint('byte%d' % i, 8) for i in range(size)]
    if v == 9 and size > 14: bs[14] = w.uint('channels', 2)
    it.epoch = 1
    data = it.new_list(bs)
    opd = response(c, v, data, 0)
    known = [('the returned data', set([id(data)])), ('the operand of the response', reach(it, [opd]))]
    where = cplace(w.cls(RFD), '.try_parse_system_file')
    entry = it.live
    for i in range(2):
      it.live = entry
      op = alone(c, lambda: accepted(w, lambda: it.call(w.cls(RFD), [], dict(operand=opd))), 'making a response', where, (), known)
      entry2 = it.live
      for g, o in it.alts(op):
        it.live = it.AND(entry2, g)
        if not it.may(it.live): continue
        observe(c, o, 'a response', known)
        known = known + [('a response made earlier', reach(it, [o]) - reach(it, [opd]))]
  return go


def c18_receive(kind):
  """what a receiver delivered is left alone when it receives more, and so are the bytes it was given"""
  def go(c):
    it, w = c.it, c.w
    no_decoding(c)
    cls = w.cls('d7a.serial_modem_interface.parser.Parser')
    source = accepted(w, lambda: it.call(cls, [], {}))
    p = accepted(w, lambda: it.call(cls, [], dict(skip_alp_parsing=kind == 'raw')))
    frames = []
    for i in range(3):
      payload = it.new_list([0xA3, w.uint('tag%d' % i, 8)])
      data = accepted(w, lambda: it.call(it.get_attr(source, 'build_serial_frame'), [payload], {}))
      e = list(it.list_live(data)[0][1])
      if kind == 'log': e[3] = 4
      if kind == 'reboot': e[3] = 5
      frames.append(tuple(e))
    it.epoch = 1
    known = []
    for parts in ([frames[0]], [frames[1] + frames[2][:3]], [frames[2][3:]], [(0xC0, 1, 2), frames[0]]):
      for e in parts:
        it.epoch += 1
        msg = it.new_seq([(TRUE, e)], kind='bytearray')
        given = ('the bytes given to the receiver', set([id(msg)]))
        z = alone(c, lambda: it.call(it.get_attr(p, 'parse'), [msg], {}), 'receiving', cplace(p.cls, '.parse'), [p] + held(it, p, known + [given]), known + [given])
        if it.live == 0: raise Dead()
        known = known + [given, ('what was delivered earlier', reach(it, [z]))]
  return go


def c18_link(c):
  """the link layer receiver"""
  it, w = c.it, c.w
  no_decoding(c)
  cls = w.cls('d7a.dll.parser.Parser')
  kinds = {m.attrs['_name_']: m for m in w.cls('d7a.dll.parser.FrameType').members}
  p = accepted(w, lambda: it.call(cls, [kinds['BACKGROUND']], {}))
  it.epoch = 1
  known = []
  e = tuple([w.uint('subnet', 8), 0x10, w.uint('payload', 8), 0, w.uint('crc', 8), 0])
  for part in (e, e[:4], e[4:] + e[:1], e[1:]):
    it.epoch += 1
    msg = it.new_list(part)
    given = ('the bytes given to the receiver', set([id(msg)]))
    z = alone(c, lambda: it.call(it.get_attr(p, 'parse'), [msg], {}), 'receiving', cplace(p.cls, '.parse'), [p] + held(it, p, known + [given]) + stream_parts(p.attrs.get('s')), known + [given])
    if it.live == 0: raise Dead()
    known = known + [given, ('what was delivered earlier', reach(it, [z]) - reach(it, [p]))]


def held(it, p, known):
  """what only the parser holds"""
  foreign = set()
  for _, ids in known: foreign |= ids
  out = []
  for v in p.attrs.values():
    for _, x in it.alts(v):
      if isinstance(x, (ListV, DictV)) and id(x) not in foreign: out.append(x)
  return out


def c18(base, tier):
  from .report import Ctx
  obs = []
  for q in SHARED_QUALS:
    if q == PHYS: continue
    obs.append(Ob('histories of %s' % short(q), isolated(q), weight=2 if q in (AP, APF, STAT) else 1))
  for n, m in ((0, 0), (1, 1), (2, 2), (2, 1), (3, 0)):
    obs.append(Ob('histories of phy_status.PhyStatusFile with %d channels, %d given' % (n, m),
                  isolated(PHYS, channel_status_list_length=K(n), channel_status_identifier=LST(O(CSI), m), channel_noise_floor=LST(I(), m))))
  obs.append(Ob('commands from shared lists, extended', c18_commands, weight=2))
  obs.append(Ob('commands from factory helpers, extended', c18_factories, weight=2))
  obs.append(Ob('commands parsed one after the other', c18_parse, weight=2))
  for v in sorted(entries(Ctx(base, 'C18', ''))):
    for name, f in SIZES:
      if name in ('whole', 'one byte less', 'no bytes'): obs.append(Ob('responses with %s of file 0x%02x' % (name, v), c18_response(v, f), weight=0.5))
    if v in (5, 9, 0x20): obs.append(Ob('responses with half of file 0x%02x' % v, c18_response(v, lambda n: n // 2)))
  for k in ('command', 'raw', 'log', 'reboot'): obs.append(Ob('receiving one %s after the other' % k, c18_receive(k)))
  obs.append(Ob('receiving one link layer frame after the other', c18_link))
  return obs


# ------------------------------------------------------------------ C27
VALID = 'd7a.support.schema.Validatable'
ACTS = {'RegularAction': lambda c: regular(OPN + 'requests.ReadFileData')(c), 'StatusAction': status_action, 'TagRequestAction': tag_request, 'TagResponseAction': tag_response}


def view_of(c, v, d, cls, path, root):
  """d is the view of the value v"""
  it = c.it
  saved = it.live
  where = cplace(root, path)
  for g, x in it.alts(v):
    for h, y in it.alts(d):
      it.live = it.AND(saved, it.AND(g, h))
      if not it.may(it.live): continue
      if x is UNDEF and y is UNDEF: continue
      if isinstance(x, Obj) and not x.cls.is_enum and x.cls.lookup('as_dict')[0] is not None:
        if not isinstance(y, DictV): c.viol('view', where, 'a nested %s is not shown as a dictionary but as %s' % (x.cls.name, nameof(y)), it.live); continue
        view_fields(c, x, y, path, root)
      elif isinstance(x, ListV) and x.kind == 'list' and isinstance(y, ListV):
        for gg, e in it.list_live(x):
          for hh, f in it.list_live(y):
            l2 = it.live
            it.live = it.AND(l2, it.AND(gg, hh))
            if it.may(it.live):
              if any(isinstance(z, Blob) for z in tuple(e) + tuple(f)) or len(e) != len(f):
                for g3, p, why in diff(it, it.new_seq([(TRUE, e)]), it.new_seq([(TRUE, f)])): c.viol('view', where, 'a list is not shown with all its elements (%s)' % why, g3)
              else:
                for i, (p, q) in enumerate(zip(e, f)): view_of(c, p, q, cls, path + '[]', root)
            it.live = l2
      else:
        for g3, p, why in diff(it, x, y): c.viol('view', where, 'the view shows another value (%s)' % why, g3)
      c.ok()
  it.live = saved


def view_fields(c, o, d, path, root):
  it = c.it
  name = d.items.get(('s', '__CLASS__'), [0, UNDEF])[1]
  c.ok()
  if name != o.cls.name: c.viol('view', cplace(root, path + '.__CLASS__'), 'the view names the type %s' % (nameof(name),), it.live)
  for k, v in sorted(o.attrs.items()):
    if k.startswith('$') or isinstance(v, ClassV) or v is UNDEF: continue
    y = d.items.get(('s', k), [0, UNDEF])[1]
    saved = it.live
    for g, x in it.alts(v):
      if x is UNDEF or isinstance(x, ClassV): continue
      it.live = it.AND(saved, g)
      if not it.may(it.live): continue
      for h, z in it.alts(y):
        if z is UNDEF and it.may(it.AND(it.live, h)): c.viol('incomplete', cplace(root, path + '.' + k), 'the view has no %s' % k, it.AND(it.live, h))
      view_of(c, x, y, o.cls, path + '.' + k, root)
    it.live = saved
  for key, (k, y) in d.items.items():
    if k == '__CLASS__' or (isinstance(k, str) and k in o.attrs): continue
    if y is UNDEF: continue
    c.viol('view', cplace(root, path), 'the view shows %s which the object does not have' % (k if isinstance(k, str) else 'something'), it.live)


def viewed(make_it):
  def go(c):
    it, w = c.it, c.w
    no_decoding(c)
    o = make_it(c)
    it.live = it.live
    entry = it.live
    for g, x in it.alts(o):
      it.live = it.AND(entry, g)
      if it.live == 0 or not isinstance(x, Obj): continue
      if x.cls.lookup('as_dict')[0] is None: raise Missing('%s has no as_dict' % x.cls.name)
      where = cplace(x.cls)
      it.epoch += 1
      n = len(it.mutations)
      live, d, thr = it.run(lambda: it.call(it.get_attr(x, 'as_dict'), [], {}))
      c.thrown('view-raises', thr, what='the dictionary view')
      for m in it.mutations[n:]: c.viol('changed', place(m[3]), 'viewing an object as a dictionary changes %s' % (m[2] if isinstance(m[2], str) else 'it'), m[0])
      it.live = live
      if live == 0: raise Dead()
      for h, y in it.alts(d):
        it.live = it.AND(live, h)
        if not it.may(it.live): continue
        if not isinstance(y, DictV): c.viol('view', where, 'the view is no dictionary', it.live); continue
        view_fields(c, x, y, '', x.cls)
  return go


HANDLERQ = 'd7a.support.serialization.enum_handler.EnumHandler'


def enum_json(q):
  """what the JSON handler writes for a member restores to that member"""
  def go(c):
    it, w = c.it, c.w
    cls = w.cls(q)
    found = None
    for k, h, base in it.json_handlers:
      if k is cls or (base is True and isinstance(k, ClassV) and any(b is k for b in cls.mro)): found = h
    c.ok()
    if found is None or not isinstance(found, ClassV):
      c.viol('unregistered', 'd7a/__init__.py', 'no JSON handler is registered for %s' % cls.name); return
    h = it.new_obj(found)
    entry = it.live
    for m in cls.members:
      it.live = entry
      name = m.attrs['_name_']
      d = it.new_dict()
      it.dict_set(d, 'py/object', '%s.%s' % (cls.module.name, cls.name))
      live, r, thr = it.run(lambda: it.call(it.get_attr(h, 'flatten'), [m, d], {}))
      c.thrown('json-raises', thr, what='writing %s.%s' % (cls.name, name))
      it.live = live
      if live == 0: continue
      c.ok(2)
      where = cplace(found, '.flatten')
      if not isinstance(r, DictV): c.viol('json', where, 'a member is not written as an object with its type', live); continue
      bad = [k for k, (kk, v) in r.items.items() if not (isinstance(v, (str, bool)) or v is None or it.is_intlike(v))]
      if bad: c.viol('json', where, 'a member is written as a value JSON does not have', live); continue
      live, x, thr = it.run(lambda: it.call(it.get_attr(h, 'restore'), [r], {}))
      c.thrown('json-raises', thr, what='restoring %s.%s' % (cls.name, name), default=cplace(found, '.restore'))
      it.live = live
      for g, y in it.alts(x):
        if y is not m and it.may(it.AND(live, g)): c.viol('json', cplace(found, '.restore'), '%s.%s restores to %s' % (cls.name, name, nameof(y)), it.AND(live, g))
  return go


def c27(base, tier):
  obs = []
  def one(q, **fix): return lambda c: arbitrary(c.w, q, '', **fix)
  for q in C03 + C02 + CONTROLS + OPERANDS + OPERATIONS:
    if q == APF: continue
    if not any(b.name == 'Validatable' for b in class_of(base, q).mro): continue
    obs.append(Ob('view of %s' % short(q), viewed(one(q)), weight=2 if q in (AP, STAT) else 1))
  obs.append(Ob('view of access_profile.AccessProfileFile', viewed(one(APF)), weight=2))
  for n, f in sorted(ACTS.items()): obs.append(Ob('view of %s' % n, viewed(f)))
  obs.append(Ob('view of a command', viewed(lambda c: command_of(c, [small_read(c), return_data(c)], tag_id=c.w.uint('tag', 8)))))
  obs.append(Ob('view of a received response', viewed(lambda c: command_of(c, [status_action(c), return_data(c)], generate_tag_request_action=False))))
  for cls in project_classes(base):
    if cls.is_enum and cls.members and cls.module.name.startswith('d7a'): obs.append(Ob('JSON of %s' % cls.name, enum_json(qual(cls))))
  return obs


def class_of(it, q):
  m, n = q.rsplit('.', 1)
  c = it.load(m).ns.get(n)
  if c is None: raise Missing('%s is no longer defined in %s' % (n, m))
  return c


# ------------------------------------------------------------------ C30
def describes(it, cls):
  m, owner = cls.lookup('__str__')
  return m is not None and not isinstance(m, Native)


def is_text(v): return isinstance(v, (str, SText, SStr, Opaque))


def described(make_it, helpers=()):
  """the text of an object, and of everything it holds, is a text"""
  def go(c):
    it, w = c.it, c.w
    o = make_it(c)
    entry = it.live
    seen = set()
    for g, x in it.alts(o):
      it.live = it.AND(entry, g)
      if it.live and isinstance(x, Obj): tell(c, x, seen, helpers)
    it.live = entry
    if not seen: raise Missing('nothing that has a textual description')
  return go


def tell(c, x, seen, helpers=(), depth=0):
  it = c.it
  if id(x) in seen or depth > 8 or x.cls.is_enum: return
  seen.add(id(x))
  entry = it.live
  where = cplace(x.cls, '.__str__')
  for fn in (str_fn, format_fn) + tuple(caller(h) for h in helpers if x.cls.lookup(h)[0] is not None):
    it.live = entry
    live, t, thr = it.run(lambda: fn(it, x))
    c.ok()
    for e in thr: c.viol('describe-raises', place(e.loc) if e.loc and not e.loc.startswith('?') else where, 'describing %s ends in %s%s' % (x.cls.name, it.exc_name(e.exc), args_of(e.exc)), e.guard)
    it.live = live
    if live == 0: continue
    if fn is str_fn or fn is format_fn:
      for g, v in it.alts(t):
        if not is_text(v): c.viol('describe', where, 'the description of %s is %s' % (x.cls.name, nameof(v)), it.AND(live, g))
  it.live = entry
  for k, v in sorted(x.attrs.items()):
    for g, y in it.alts(v):
      h = it.AND(entry, g)
      if not it.may(h): continue
      if isinstance(y, Obj) and describes(it, y.cls):
        it.live = h
        tell(c, y, seen, (), depth + 1)
      elif isinstance(y, ListV):
        for gg, e in it.list_live(y):
          if any(isinstance(z, (Blob,)) for z in e): continue
          for z in e:
            for g3, zz in it.alts(z):
              it.live = it.AND(h, it.AND(gg, g3))
              if it.may(it.live) and isinstance(zz, Obj) and describes(it, zz.cls): tell(c, zz, seen, (), depth + 1)
      it.live = entry
  it.live = entry


def args_of(exc):
  a = getattr(exc, 'attrs', {}).get('args')
  return ' (%s)' % ', '.join(x if isinstance(x, str) else type(x).__name__ for x in a) if a else ''


def str_fn(it, x): return it.call(models.BUILTINS['str'], [x], {})
def format_fn(it, x): return it.call(it.get_attr('{}', 'format'), [x], {})
def caller(h): return lambda it, x: it.call(it.get_attr(x, h), [], {})


HELPERS = ('describe_actions', 'get_d7asp_interface_status')


def default_made(q):
  def go(c):
    it, w = c.it, c.w
    cls = w.cls(q)
    live, o, thr = it.run(lambda: it.call(cls, [], {}))
    c.ok()
    if live == 0: return       # the class has no default
    it.live = live
    described(lambda c: o)(c)
  return go


def commands_described(kind):
  def go(c):
    it, w = c.it, c.w
    no_decoding(c)
    if kind == 'empty': acts = []
    elif kind == 'status': acts = [status_action(c)]
    elif kind == 'status without content':
      opd = accepted(w, lambda: it.call(w.cls(IFS), [], dict(interface_id=w.uint('interface', 8), interface_status=None)))
      op = accepted(w, lambda: it.call(w.cls(OPN + 'status.InterfaceStatus'), [], dict(operand=opd)))
      ext = it.get_attr(w.cls(A + 'status_action.StatusActionOperandExtensions'), 'INTERFACE_STATUS')
      acts = [accepted(w, lambda: it.call(w.cls(A + 'status_action.StatusAction'), [], dict(status_operand_extension=ext, operation=op)))]
    elif kind == 'response': acts = [tag_response(c), return_data(c)]
    elif kind == 'nop': acts = [accepted(w, lambda: it.call(w.cls(A + 'action.Action'), [], {}))]
    else: acts = [small_read(c)]
    cls = w.cls(CMD)
    kw = {'generated': {}, 'tagged': dict(tag_id=w.uint('tag', 8), send_tag_response_when_completed=w.bool('send'))}.get(kind, dict(generate_tag_request_action=False))
    cmd = accepted(w, lambda: it.call(cls, [], dict(kw, actions=it.new_list(acts))))
    described(lambda c: cmd, HELPERS)(c)
  return go


def received_described(op, *shape):
  """whatever the command parser makes of one action with these operand bytes has a description"""
  def go(c):
    it, w = c.it, c.w
    pc = w.cls(PARSER)
    no_decoding(c)
    if shape: L, s = data_stream(c, op, *shape)
    else:
      L = w.uint('cmd_length', 8)
      w.assume(it.NOT(it.eq_int(L, 0)))
      b7, b6 = w.uint('b7', 1), w.uint('b6', 1)
      first = it.add(it.shl(b7, 7), it.add(it.shl(b6, 6), op))
      s = w.stream((first,) + tuple(w.uint('byte%d' % i, 8) for i in range(1, 6)) + (w.blob('content', width=9),))
    it.hooks['while'] = one_action(c, 1)
    p = it.call(pc, [], {})
    live, r, thr = it.run(lambda: it.call(it.get_attr(p, 'parse'), [s, L], {}))
    it.live = live
    if live == 0: raise Dead()
    r = narrow_value(it, r, {})
    described(lambda c: r, HELPERS)(c)
  return go


def decoded_described(q):
  """a response returning the whole of a system file, with any content"""
  def go(c):
    it, w = c.it, c.w
    cls = w.cls(q)
    f = accepted(w, lambda: it.call(cls, [], {}))
    for g, fid in it.alts(it.get_attr(f, 'id')):
      n = it.get_attr(f, 'length')
      n = n if isinstance(n, int) else 0
      v = fid.attrs['_value_'] if isinstance(fid, Obj) else fid
      ofs = accepted(w, lambda: it.call(w.cls(OFS), [], dict(id=v, offset=accepted(w, lambda: it.call(w.cls(LEN), [], dict(value=0))))))
      data = accepted(w, lambda: it.call(w.cls(DATA), [], dict(data=it.new_list([w.uint('content[%d]' % i, 8) for i in range(n)]), offset=ofs)))
      op = accepted(w, lambda: it.call(w.cls(OPN + 'responses.ReturnFileData'), [], dict(operand=data)))
      act = accepted(w, lambda: it.call(w.cls(A + 'regular_action.RegularAction'), [], dict(operation=op)))
      described(lambda c: act)(c)
  return go


def with_bytes(q, name, n=3):
  """an object holding some bytes, each any byte"""
  def make(c):
    it, w = c.it, c.w
    return arbitrary(w, q, '', **{name: K(it.new_list([w.uint('%s[%d]' % (name, i), 8) for i in range(n)]))})
  return described(make)


def undecoded(b):
  def go(c):
    no_decoding(c)
    described(b)(c)
  return go


def c30(base, tier):
  from . import checks_frames as F
  obs = []
  built = set()
  def one(q, **fix): return lambda c: arbitrary(c.w, q, '', **fix)
  for q in sorted(RECIPES):
    cls = class_of(base, q)
    built.add(q)
    if describes(base, cls):
      obs.append(Ob('description of %s' % short(q), undecoded(one(q)), weight=2 if q in (AP, APF, STAT) else 1))
      obs.append(Ob('description of a default %s' % short(q), default_made(q)))
  for n in (0, 1, 3): obs.append(Ob('description of a PhyStatusFile with %d channels' % n, described(one(PHYS, channel_status_list_length=K(n), channel_status_identifier=LST(O(CSI), n), channel_noise_floor=LST(I(), n)))))
  for n in (1, 3): obs.append(Ob('description of file data of %d bytes' % n, with_bytes(DATA, 'data', n)))
  from .checks_structs import ACTIONS
  for n, b in ACTIONS: obs.append(Ob('description of the action %s' % n, undecoded(b)))
  for n, f in sorted(ACTS.items()): obs.append(Ob('description of %s' % n, described(f)))
  for k in ('empty', 'status', 'status without content', 'response', 'nop', 'generated', 'tagged'): obs.append(Ob('description of a command (%s)' % k, commands_described(k)))
  for k in ('read', 'write', 'empty'): obs.append(Ob('description of a transport frame holding %s' % k, described(lambda c, k=k: F.tp_frame(c, k))))
  obs.append(Ob('description of a network frame', described(lambda c: F.np_frame(c, 'VID', 'read'))))
  for t in ('NBID', 'UID'): obs.append(Ob('description of a foreground frame to %s' % t, described(lambda c, t=t: F.fg_frame(c, t, 'none', 'read'))))
  for op, n in sorted(SUPPORTED.items()):
    if op not in (4, 32): obs.append(Ob('description of a received %s' % n, received_described(op), weight=2)); continue
    for a, b in ((0, 0), (0, 1), (1, 0), (3, 3)): obs.append(Ob('description of a received %s with %d offset and %d length bytes' % (n, a + 1, b + 1), received_described(op, a, b)))
  for q in C02 + [APF]: obs.append(Ob('description of a received %s' % short(q), decoded_described(q), weight=2))
  for cls in project_classes(base):
    q = qual(cls)
    m, owner = cls.lookup('__str__')
    if m is None or isinstance(m, Native) or cls.is_enum or '__str__' not in cls.ns: continue
    if q in built or any(b.name == cls.name for b in ()): continue
    if q in COVERED_TEXT: continue
    def missing(c, q=q): c.undecided('no recipe to build %s' % q)
    obs.append(Ob('description of %s' % short(q), missing))
  return obs


COVERED_TEXT = (A + 'action.Action', A + 'status_action.StatusAction', OPN + 'operation.Operation', 'd7a.alp.command.Command', FGF)


# ------------------------------------------------------------------ C33
RFD = OPN + 'responses.ReturnFileData'


def response(c, fid, data, at):
  """the operand of a response returning data of a file from an offset, and the operation made of it"""
  it, w = c.it, c.w
  ln = accepted(w, lambda: it.call(w.cls(LEN), [], dict(value=at)))
  ofs = accepted(w, lambda: it.call(w.cls(OFS), [], dict(id=fid, offset=ln)))
  opd = accepted(w, lambda: it.call(w.cls(DATA), [], dict(data=data, offset=ofs)))
  return opd


def decode(c, opd):
  """make the operation; the operand must come through unchanged"""
  it, w = c.it, c.w
  cls = w.cls(RFD)
  where = cplace(cls, '.try_parse_system_file')
  it.epoch += 1
  before = models.m_deepcopy(it, [opd], {})
  wire = serialise(c, opd, rule=None)
  live, op, thr = it.run(lambda: it.call(cls, [], dict(operand=opd)))
  c.thrown('decode-raises', thr, what='a response', default=where)
  it.live = live
  c.ok()
  if live == 0: raise Dead()
  entry = it.live
  for g, o in it.alts(op):
    it.live = it.AND(entry, g)
    if not it.may(it.live): continue
    c.ok(2)
    got = it.get_attr(o, 'operand')
    for h, p, why in diff(it, before, got): c.viol('response-changed', where, 'decoding changes the returned %s (%s)' % (p or 'data', why), h)
    for h, p, why in diff(it, wire, serialise(c, o, rule=None)): c.viol('response-changed', where, 'the response no longer serialises as it was received (%s)' % why, h)
  it.live = entry
  return op, where


def undef_none(it, v, rule=None):
  """guard where v is None, and the other alternatives"""
  none, some = FALSE, []
  for g, x in it.alts(v):
    if x is None: none = it.OR(none, g)
    else: some.append((g, x))
  return none, some


def fields(c, op, where):
  """both descriptions of the content are there or none; the guard where they are, and the decoded content"""
  it = c.it
  t, p = it.get_attr(op, 'systemfile_type'), it.get_attr(op, 'file_data_parsed')
  tn, ts = undef_none(it, t)
  pn, ps = undef_none(it, p)
  c.ok()
  bad = it.AND(it.live, it.B.XOR(tn, pn))
  if bad: c.viol('half-decoded', where, 'a file type without content, or content without a file type, is reported', bad)
  return it.AND(it.live, it.NOT(pn)), ts, ps


def decodable(v, n, at=None):
  """a response with n bytes of the file v, from the given offset (unknown if None)"""
  def go(c):
    it, w = c.it, c.w
    es = entries(c)
    f = es[v][1] if v in es else None
    full = it.get_attr(f, 'length') if isinstance(f, Obj) else 0
    if not isinstance(full, int): raise Unsupported('the length of a registered file is not fixed')
    size = n(full)
    if size is None or size < 0: c.ok(); return
    bs = [w.uint('byte%d' % i, 8) for i in range(size)]
    if v == 9 and size > 14: bs[14] = w.uint('channels', 2)
    offset = w.uint('offset', 16) if at is None else at
    opd = response(c, v, it.new_list(bs), offset)
    start = it.live
    # what the parser of the file makes of this content
    want, refused = None, TRUE
    if isinstance(f, Obj) and f.cls.lookup('parse')[0] is not None:
      s = w.stream(tuple(bs))
      live, want, thr = it.run(lambda: it.call(it.get_attr(f, 'parse'), [s], {}))
      refused = it.NOT(live)
    it.live = start
    op, where = decode(c, opd)
    done, ts, ps = fields(c, op, where)
    zero = it.eq_int(offset, 0) if not isinstance(offset, int) else (TRUE if offset == 0 else FALSE)
    fits = it.AND(zero, TRUE if isinstance(f, Obj) and size <= full else FALSE)
    c.ok(2)
    bad = it.AND(it.live, it.AND(done, it.NOT(fits)))
    if bad: c.viol('misdecoded', where, 'content which does not begin and fit the file is decoded', bad)
    if want is None:
      return
    bad = it.AND(it.live, it.AND(fits, it.AND(it.NOT(refused), it.NOT(done))))
    if bad and size == full: c.viol('not-decoded', where, 'the content of a whole %s is not decoded' % f.cls.name, bad)
    entry = it.live
    for g, x in ps:
      it.live = it.AND(entry, it.AND(g, fits))
      if not it.may(it.live): continue
      bad = it.AND(it.live, refused)
      if bad: c.viol('misdecoded', where, 'content that is no %s is decoded' % f.cls.name, bad)
      it.live = it.AND(it.live, it.NOT(refused))
      if it.live == 0: continue
      for h, p, why in diff(it, want, x): c.viol('misdecoded', where, 'the decoded content differs from the content of the file (%s: %s)' % (p, why), h)
    for g, x in ts:
      it.live = it.AND(entry, g)
      if it.may(it.live) and x is not f: c.viol('misdecoded', where, 'content of %s is reported as that of %s' % (f.cls.name, nameof(x)), it.live)
    it.live = entry
  return go


def any_size(v):
  """content of any length from any offset"""
  def go(c):
    it, w = c.it, c.w
    es = entries(c)
    f = es[v][1] if v in es else None
    full = it.get_attr(f, 'length') if isinstance(f, Obj) else 0
    data = w.bytelist('data', 14)
    opd = response(c, v, data, w.uint('offset', 16))
    at = it.get_attr(it.get_attr(it.get_attr(opd, 'offset'), 'offset'), 'value')
    op, where = decode(c, opd)
    done, ts, ps = fields(c, op, where)
    bad = it.AND(done, it.OR(it.NOT(it.eq_int(at, 0)), it.lt_node(full, blen(it, data))))
    c.ok()
    if bad: c.viol('misdecoded', where, 'content which does not begin and fit the file is decoded', bad)
  return go


def unknown_file(c):
  it, w = c.it, c.w
  es = entries(c)
  fid = w.uint('file', 8)
  for k in es: w.assume(it.NOT(it.eq_int(fid, k)))
  opd = response(c, fid, w.bytelist('data', 14), w.uint('offset', 16))
  op, where = decode(c, opd)
  done, ts, ps = fields(c, op, where)
  c.ok()
  if done: c.viol('misdecoded', where, 'content of an unknown file is decoded', done)


SIZES = (('whole', lambda n: n), ('one byte less', lambda n: n - 1), ('one byte more', lambda n: n + 1), ('one byte', lambda n: 1 if n > 2 else None), ('no bytes', lambda n: 0))


def c33(base, tier):
  from .report import Ctx
  obs = [Ob('response for an unknown file', unknown_file)]
  for v in sorted(entries(Ctx(base, 'C33', ''))):
    if v != 9: obs.append(Ob('response with any content of file 0x%02x from anywhere' % v, any_size(v)))     # a content of up to 255 channels is out of reach
    for n, f in SIZES:
      obs.append(Ob('response with %s of file 0x%02x' % (n, v), decodable(v, f, 0)))
      if v in (0, 5, 9, 10): obs.append(Ob('response with %s of file 0x%02x from anywhere' % (n, v), decodable(v, f)))
    if v in (5, 9, 0x20): obs.append(Ob('response with half of file 0x%02x' % v, decodable(v, lambda n: n // 2, 0)))
  return obs
