"""The command-line decoder (C39), run from its own top level with a command line."""
import argparse
import contextlib
import io

from . import frontend, models
from .bdd import TRUE, FALSE
from .checks_frames import fg_frame
from .checks_serial import frame
from .checks_structs import serialise
from .domains import *
from .interp import Dead, Frame, Unsupported
from .recipes import *
from .report import Ob
from .values import *

TOOL = 'tools.parse_hexstring'
PARSER = 'argparse.ArgumentParser()'


class CommandLine(object):
  """the arguments the analysed source declares, applied to a command line"""
  def __init__(self, c, argv, values):
    """values: {word of the command line: value it stands for}"""
    self.c, self.argv, self.values = c, argv, values
    self.declared = []
    self.refused = None
    c.it.load('argparse')
    for x in ('', '.add_argument_group()', '.add_mutually_exclusive_group()'):
      c.it.hooks['opaque:%s%s.add_argument' % (PARSER, x)] = self.declare
    c.it.hooks['opaque:%s.parse_args' % PARSER] = self.parse

  def declare(self, it, a, k):
    self.declared.append((list(a), dict(k)))
    return None

  def concrete(self, v):
    if v is None or isinstance(v, (str, int, float)): return v
    if isinstance(v, tuple): return [self.concrete(x) for x in v]
    if isinstance(v, ListV):
      es = self.c.it.list_live(v)
      if len(es) == 1: return [self.concrete(x) for x in es[0][1]]
    raise Unsupported('an argument of the command line declared with a computed value')

  def parse(self, it, a, k):
    p = argparse.ArgumentParser(prog='tool')
    kinds = {}
    for names, kw in self.declared:
      kw2 = dict((x, self.concrete(v)) for x, v in kw.items() if x not in ('type', 'help', 'metavar', 'default', 'choices'))
      try: act = p.add_argument(*[self.concrete(x) for x in names], **kw2)
      except (argparse.ArgumentError, ValueError, TypeError):
        self.refused = 'its command line cannot be declared'
        it.raise_('ValueError', 'argument')
        raise Dead()
      act.default = argparse.SUPPRESS
      choices = self.concrete(kw['choices']) if kw.get('choices') is not None else None
      kinds[act.dest] = (kw.get('type'), choices, kw.get('default', False if kw.get('action') == 'store_true' else True if kw.get('action') == 'store_false' else None))
    try:
      with contextlib.redirect_stderr(io.StringIO()): ns = vars(p.parse_args(self.argv))
    except SystemExit:
      self.refused = 'its command line is refused'
      it.raise_('SystemExit', '2')
      raise Dead()
    config = it.new_obj(models.OBJECT)
    for dest, (typ, choices, default) in kinds.items():
      if dest not in ns:
        config.attrs[dest] = default
        continue
      v = ns[dest]
      if isinstance(v, str):
        v = self.values.get(v, v)
        if typ is not None: v = it.call(typ, [v], {})
        if choices is not None and v not in choices:
          self.refused = 'a type the tool exists for is refused'
          it.raise_('SystemExit', '2')
          raise Dead()
      config.attrs[dest] = v
    return config


def script(c, name):
  """run the top level of a program: (live, thrown)"""
  it = c.it
  path, is_pkg = frontend.module_path(name)
  if path is None: raise Missing('%s is gone' % name)
  m = ModuleV('__main__', path)
  m.ns['__name__'] = '__main__'
  m.ns['__file__'] = path
  m.is_pkg = False
  m.tree, m.src = frontend.parse_file(path)
  def go():
    f = Frame('<module>', m, it.live)
    f.vars = m.ns
    it.frames.append(f)
    try: it.block(m.tree.body)
    finally: it.frames.pop()
  live, _, thrown = it.run(go)
  return live, thrown


def spaced(it, entries, gaps):
  """the digits of the bytes, with blanks before some of them"""
  parts = []
  for i, b in enumerate(entries):
    if i in gaps: parts.append(gaps[i])
    parts.append(('hexlify', '', SStr(((TRUE, (b,)),))) if not isinstance(b, int) else '%02x' % b)
  if len(entries) in gaps: parts.append(gaps[len(entries)])
  return models.mktext(parts)


def contains(it, t, want):
  """whether the text holds the other one, wherever, in every state considered"""
  if isinstance(t, str) and isinstance(want, str): return want in t
  if isinstance(t, Union): return all(contains(it, x, want) for g, x in it.alts(t) if it.may(g))
  def parts(x): return list(x.parts) if isinstance(x, SText) else [x] if isinstance(x, str) else [('str', '', x)]
  tp, wp = parts(t), parts(want)
  for o in range(len(tp) - len(wp) + 1):
    for i, p in enumerate(wp):
      q = tp[o + i]
      if isinstance(p, str) != isinstance(q, str): break
      if isinstance(p, str):
        last = i == len(wp) - 1
        if not (p in q if i == 0 and last else q.endswith(p) if i == 0 else q.startswith(p) if last else p == q): break
        continue
      d = diff(it, models.mktext([q]), models.mktext([p]))
      if any(it.B.definite(x[0]) for x in d): break
    else: return True
  return False


def shows(what, data, expected, options=(), gaps=None):
  """data(c) -> the bytes given; expected(c, bytes) -> [what has to be shown, in order]"""
  def go(c):
    it, w = c.it, c.w
    bs = data(c)
    live = it.live
    want_live, want, thr = it.run(lambda: expected(c, bs))
    it.live = want_live
    if it.live == 0: c.undecided('the library accepts none of the bytes'); return
    if not isinstance(want, list): raise Unsupported('expectation')
    shown = []
    it.hooks['print'] = lambda it, v, t: shown.append((it.live, v, t, it.loc()))
    def write(it, a, k):
      shown.append((it.live, a[0], a[0], it.loc()))
      return None
    it.hooks['opaque:sys.stdout.write'] = write
    cl = CommandLine(c, ['-t', what] + list(options) + ['@data@'], {'@data@': spaced(it, bs, gaps or {})})
    end, thrown = script(c, TOOL)
    place = 'tools/parse_hexstring.py:<module>'
    if cl.refused: c.viol('refused', place, cl.refused); return
    ended = end
    for t in thrown:
      if it.exc_name(t.exc) == 'SystemExit' and t.exc.attrs.get('args') in ((), (0,), (None,)): ended = it.OR(ended, t.guard); continue
      c.viol('raises', place, 'raised %s' % it.exc_name(t.exc), it.AND(want_live, t.guard), t.loc)
    it.live = it.AND(want_live, ended)
    c.ok(2)
    if it.live == 0: return
    texts = [models.to_str(it, x) for x in want]
    i = 0
    entry = it.live
    for g, v, t, loc in shown:
      g = it.AND(entry, g)
      if not it.may(g): continue
      plain = isinstance(v, (str, SStr, SText))
      it.live = g
      if i < len(want):
        d = diff(it, t, texts[i]) if plain else diff(it, v, want[i])
        d = [x for x in d if c.it.B.definite(x[0])]
        if not d or plain and contains(it, t, texts[i]):
          bad = it.AND(entry, it.NOT(g))
          c.ok()
          if bad: c.viol('not-shown', place, 'what the library parses is not always shown', bad, loc)
          i += 1; it.live = entry; continue
        if not plain: c.viol('misshown', place, 'shows something else than what the library parses (%s %s)' % (d[0][1], d[0][2]), d[0][0], loc); return
      elif not plain: c.viol('shown-twice', place, 'shows more than what the library parses', g, loc)
      it.live = entry
    c.ok()
    if i < len(want): c.viol('not-shown', place, '%s of what the library parses is not shown' % nameof(want[i]), entry)
  return go


# ------------------------------------------------------------------------------------------------ inputs
def unknown(*spec):
  """bytes, None standing for an unknown one"""
  return lambda c: tuple(c.w.uint('byte%d' % i, 8) if x is None else x for i, x in enumerate(spec))


def in_order(it, v):
  es = it.list_live(v)
  if len(es) != 1 or any(isinstance(x, Blob) for x in es[0][1]): raise Unsupported('the number of results is not known')
  return list(es[0][1])


def as_alp(c, bs):
  it, w = c.it, c.w
  return [it.call(it.get_attr(it.call(w.cls('d7a.alp.parser.Parser'), [], {}), 'parse'), [w.stream(tuple(bs)), len(bs)], {})]


def as_serial(c, bs):
  it, w = c.it, c.w
  r = it.call(it.get_attr(it.call(w.cls('d7a.serial_modem_interface.parser.Parser'), [], {}), 'parse'), [it.new_list(tuple(bs), 'bytearray')], {})
  if not isinstance(r, tuple): raise Unsupported('receiver result')
  return in_order(it, r[1]) + [r[2]]


def as_frame(kind):
  def go(c, bs):
    it, w = c.it, c.w
    t = [m for m in w.cls('d7a.dll.parser.FrameType').members if m.attrs['_name_'] == kind][0]
    r = it.call(it.get_attr(it.call(w.cls('d7a.dll.parser.Parser'), [], dict(frame_type=t)), 'parse'), [it.new_list(tuple(bs), 'bytearray')], {})
    if not isinstance(r, tuple): raise Unsupported('receiver result')
    return in_order(it, r[0]) + [r[1]]
  return go


def as_file(number):
  def go(c, bs):
    it, w = c.it, c.w
    from .checks_alp import entries
    return [it.call(it.get_attr(entries(c)[number][1], 'parse'), [w.stream(tuple(bs))], {})]
  return go


def bytes_of_frame(c, obj):
  es = c.it.list_live(serialise(c, obj))
  es = [(g, e) for g, e in es if c.it.may(g)]
  g, e = min(es, key=lambda x: len(x[1]))
  c.it.live = c.it.AND(c.it.live, g)
  return tuple(e)


def serial_frames(*payloads):
  def go(c):
    out = ()
    for p in payloads:
      if isinstance(p, int): out += (p,); continue
      mt, pl = p
      pl = tuple(c.w.uint('byte', 8) if x is None else x for x in pl)
      hd, _ = frame(c, pl, mt)
      out += (0xC0, 0, 7) + hd[3:] + pl
    return out
  return go


GAPS = {0: ' ', 1: ' ', 2: '   ', 3: ' '}


def c39(base, tier):
  from .checks_alp import entries
  obs = []
  alps = [('a read request', (0x01, None, 4, 8)), ('a write of known bytes', (0x04, 0x40, 0, 3, 0xC0, 0, 0x22)), ('a write of unknown bytes', (0x04, None, 0, 2, None, None)),
          ('two requests', (0x01, None, 4, 8, 0x41, 0x40, 0, 0x20)), ('a tagged response', (0xA3, None, 0x20, None, 0, 1, None)), ('nothing', ()),
          ('a request forwarded', (0x32, 0xD7, 0, 0, 0x10, 1, 1, None, 4, 2))]
  for n, s in alps:
    for gn, gaps in (('', {}), (', blanks between', GAPS), (', blanks around', {0: '  ', len(s): ' '})):
      obs.append(Ob('ALP command: %s%s' % (n, gn), shows('alp', unknown(*s), as_alp, gaps=gaps)))
  A = (1, (0x01, 0x40, 4, 8))
  B = (2, (0x20, 0x40, 0, 1, 0x55))
  for n, s in (('one frame', (A,)), ('two frames', (A, B)), ('three frames', (A, B, A)), ('noise and a frame', (0x11, 0xC0, A)), ('a frame and part of one', (A, 0xC0, 0)), ('a reboot', ((5, (2,)),)),
               ('a log line', ((4, (0x68, 0x69)),)), ('a frame between log lines', ((4, (0x68,)), A, (4, (0x69,)))), ('a frame of unknown content', ((1, (0x01, None, 4, 8)),)), ('nothing', ())):
    obs.append(Ob('serial data: %s' % n, shows('serial', serial_frames(*s), as_serial, gaps=GAPS if s else {})))
  for n, b in (('a background frame', lambda c: bytes_of_frame(c, arbitrary(c.w, BGF, ''))), ('three bytes', unknown(None, None, None))):
    obs.append(Ob('background frames: %s' % n, shows('bg', b, as_frame('BACKGROUND'), gaps={2: ' '})))
  for n, b in (('a foreground frame', lambda c: bytes_of_frame(c, fg_frame(c, 'NOID', 'none', 'read'))), ('part of one', unknown(0x20, None, None))):
    obs.append(Ob('foreground frames: %s' % n, shows('fg', b, as_frame('FOREGROUND'), gaps={2: ' '})))
  from .report import Ctx
  try: es = entries(Ctx(base, 'C39', 'registry'))
  except Missing: raise
  for v in sorted(es):
    f = es[v][1]
    if not isinstance(f, Obj) or f.cls.lookup('parse')[0] is None: continue
    def data(c, f=f, v=v):
      bs = [c.w.uint('byte%d' % i, 8) for i in range(c.it.get_attr(f, 'length'))]
      if v == 9: bs[14] = 1
      return tuple(bs)
    obs.append(Ob('file %d' % v, shows('systemfile', data, as_file(v), ['-f', str(v)])))
  return obs
