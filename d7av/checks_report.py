"""What the receivers report about the bytes they were given (C37)."""
from .bdd import TRUE, FALSE
from .values import *
from .domains import *
from .recipes import *
from .report import Ob
from .interp import Dead, Unsupported
from . import models
from .checks_structs import cplace, serialise
from .checks_serial import Run, receiver, head, head_and_tail, results, list_of, blen, split_payload, checksum, hi_lo, place_rx, MODES
from .checks_frames import Feed, BG_SIZE


def total(it, parts):
  n = 0
  for p in parts: n = it.binop('+', n, p)
  return n


def same(it, a, b):
  """whether two numbers, either of which may be one of several, are equal"""
  g = FALSE
  for h, x in it.alts(a):
    for k, y in it.alts(b):
      hk = it.AND(h, k)
      if it.may(hk): g = it.OR(g, it.AND(hk, it.eq_node(x, y)))
  return g


def positive(it, v):
  g = FALSE
  for h, x in it.alts(v):
    if it.may(h): g = it.OR(g, it.AND(h, it.NOT(it.lt_node(x, 1))))
  return g


def reported(c, info, name):
  return c.it.get_item(info, name)


def info_alts(it, r, n):
  """[(guard, info)] of a result whose last item is the report"""
  out = []
  for g, x in it.alts(r):
    if not it.may(g): continue
    if not isinstance(x, tuple) or len(x) != n: raise Unsupported('receiver result is not a %d-tuple' % n)
    for h, y in it.alts(x[-1]):
      if it.may(it.AND(g, h)): out.append((it.AND(g, h), y))
  return out


def sum_of(it, alts, f):
  """[(guard, entries)] -> value of the sum of f over the entries"""
  return it.merge_all([(g, total(it, [f(x) for x in e])) for g, e in alts])


def account(c, where, r, n, before, left_alts, size):
  """bytes before = delivered + skipped + left, and each report says so. left_alts: [(guard, bytes left when the attempt ended)]"""
  it = c.it
  entry = it.live
  for g, info in info_alts(it, r, n):
    for h, left, cut in left_alts:
      it.live = it.AND(entry, it.AND(g, h))
      if it.live == 0: continue
      parsed = reported(c, info, 'parsed')
      errs = list_of(it, reported(c, info, 'errors'))
      for k, e in errs:
        sv = it.live
        it.live = it.AND(sv, k)
        if it.live == 0: it.live = sv; continue
        skipped = 0
        for x in e:
          s = it.get_item(x, 'skipped')
          c.ok()
          bad = it.AND(it.live, it.NOT(positive(it, s)))
          if bad: c.viol('skipped', where, 'an error is reported with no byte skipped', bad)
          skipped = it.binop('+', skipped, s)
        c.ok()
        lhs = it.binop("*", before, 8)
        rhs = total(it, [parsed, it.binop("*", skipped, 8), it.binop("*", left, 8)])
        bad = it.AND(it.live, it.NOT(same(it, lhs, rhs)))
        if bad: c.viol('unaccounted', where, 'the bytes reported as parsed and skipped and those left do not add up to the bytes received', bad)
        it.live = sv
      c.ok()
      bad = it.AND(it.live, it.NOT(it.eq_node(parsed, size)))
      if bad: c.viol('parsed', where, 'the number of bits reported as parsed is not the size of what is delivered', bad)
      if not cut:
        c.ok()
        bad = it.AND(it.live, it.NOT(it.eq_node(reported(c, info, 'buffer'), it.binop("*", left, 8))))
        if bad: c.viol('buffered', where, 'the number of bits reported as buffered is not what is kept', bad)
  it.live = entry


def lefts(it, steps, now):
  """what the buffer holds when the first attempt has ended: at the back edge, or at the end"""
  out = []
  cut = FALSE
  for g, alts in steps.cuts:
    for h, e in alts:
      gh = it.AND(g, h)
      if it.may(gh): out.append((gh, it.entries_len(e), True))
    cut = it.OR(cut, g)
  out.append((it.NOT(cut), it.split(now, lambda x: models.b_len(it, [x], {})), False))
  return out


def serial_any(skip, n):
  def go(c):
    it, w = c.it, c.w
    tail = dn = None
    if n == 7: hd, tail, dn = head_and_tail(c)
    else: hd = head(c, n)
    e = hd + ((tail,) if tail is not None else ())
    r = Run(c, e, skip, down=dn)
    it.live = r.live
    if it.live == 0: raise Dead()
    got = r.nonempty(r.delivered())
    entry = it.live
    before = it.entries_len(e)
    left = lefts(it, r.steps, it.get_attr(r.p, r.steps.name))
    for g, size in ((it.NOT(got), 0),) + (((got, it.binop("*", it.add(hd[4], 7), 8)),) if n == 7 else ()):
      it.live = it.AND(entry, g)
      if it.live: account(c, place_rx(c), r.r, 3, before, left, size)
    it.live = entry
  return go


def serial_counters(skip):
  """a delivered frame whose counter does not follow the previous one counts as one error, and reception goes on from it"""
  def go(c):
    it, w = c.it, c.w
    hd, tail, dn = head_and_tail(c)
    r = Run(c, hd + (tail,), skip, down=dn)
    it.live = r.live
    if it.live == 0: raise Dead()
    it.live = it.AND(it.live, r.nonempty(r.delivered()))
    if it.live == 0: raise Dead()
    counted(c, r, [hd[2]])
  return go


def counted(c, r, ctrs):
  it = c.it
  last, errs = r.counters['down_counter'], r.counters['error_counter']
  for k in ctrs:
    follows = it.eq_node(k, it.bitop('&', it.add(last, 1), 255))
    errs = it.merge_all([(follows, errs), (it.NOT(follows), it.add(errs, 1))])
    last = k
  c.ok(2)
  bad = it.AND(it.live, it.NOT(it.eq_node(it.get_attr(r.p, 'error_counter'), errs)))
  if bad: c.viol('gap', place_rx(c) + '.error_counter', 'the number of counter errors does not grow by one exactly when the counter of a frame does not follow the one before', bad)
  bad = it.AND(it.live, it.NOT(it.eq_node(it.get_attr(r.p, 'down_counter'), last)))
  if bad: c.viol('gap', place_rx(c) + '.down_counter', 'the next counter is not expected to follow the counter of the last frame', bad)


def small_frame(c, label, n, mtype, ctr):
  it, w = c.it, c.w
  pay = tuple(w.uint('%s[%d]' % (label, i), 8) for i in range(n))
  h, l = hi_lo(it, checksum(c, pay))
  return (0xC0, 0, ctr, mtype, n, h, l) + pay, ctr, pay


def series(skip, what):
  """frames and garbage received together: all frames reported in order with their types, every byte accounted for"""
  def go(c):
    it, w = c.it, c.w
    dn = w.interleaved(*([('down_counter', 8)] + [('counter of frame%d' % i, 8) for i in range(len(what))]))
    p = receiver(c, skip, down=dn[0])
    e, ctrs, want, size, skipped, left = (), [], [], 0, 0, 0
    for i, (kind, n) in enumerate(what):
      if kind == 'garbage':
        x = tuple(w.uint('garbage%d.%d' % (i, j), 8) for j in range(n))
        for b in x: w.assume(it.NOT(it.eq_int(b, 0xC0)))
        e += x; skipped += n
      elif kind == 'part':
        f, k, pay = small_frame(c, 'frame%d' % i, 3, 4, dn[i + 1])
        e += f[:n]; left += n
      else:
        f, k, pay = small_frame(c, 'frame%d' % i, n, kind, dn[i + 1])
        e += f; ctrs.append(k); want.append((kind, pay)); size += len(f)
    r = Run(c, e, skip, cut=False, p=p, fails=False)
    it.live = r.live
    if it.live == 0: raise Dead()
    c.ok()
    for g, (ts, cmds, info) in results(c, r.r):
      sv = it.live
      it.live = it.AND(sv, g)
      for nm, lst in (('messages', cmds), ('types', ts)):
        for h, got in list_of(it, lst):
          c.ok()
          gh = it.AND(it.live, h)
          if gh == 0: continue
          if len(got) != len(want): c.viol('lost', place_rx(c), '%d %s are reported for %d frames' % (len(got), nm, len(want)), gh); continue
          s2 = it.live
          it.live = gh
          for x, (t, pay) in zip(got, want):
            if nm == 'types':
              bad = it.AND(it.live, it.NOT(it.eq_node(x, t)))
              if bad: c.viol('order', place_rx(c), 'the types are not reported in the order of the frames', bad)
            elif t == 4 or skip and t != 5:
              b = it.split(x, lambda y: models.bytearray_ctor(it, models.BYTEARRAY, [y], {}))
              for d, pth, why in diff(it, it.new_seq([(TRUE, pay)], 'bytearray'), b):
                c.viol('order', place_rx(c), 'the messages are not reported in the order of the frames', d)
            elif t == 5:
              bad = it.AND(it.live, it.NOT(it.eq_node(x, pay[0])))
              if bad: c.viol('order', place_rx(c), 'the messages are not reported in the order of the frames', bad)
          it.live = s2
      parsed, buf = reported(c, info, 'parsed'), reported(c, info, 'buffer')
      c.ok(2)
      bad = it.AND(it.live, it.NOT(it.eq_node(parsed, 8 * size)))
      if bad: c.viol('parsed', place_rx(c), 'the number of bits reported as parsed is not the size of the frames delivered', bad)
      bad = it.AND(it.live, it.NOT(it.eq_node(buf, 8 * left)))
      if bad: c.viol('buffered', place_rx(c), 'the number of bits reported as buffered is not what is kept', bad)
      for h, errs in list_of(it, reported(c, info, 'errors')):
        gh = it.AND(it.live, h)
        if gh == 0: continue
        c.ok()
        s2 = it.live
        it.live = gh
        bad = it.AND(gh, it.NOT(it.eq_node(total(it, [it.get_item(x, 'skipped') for x in errs]), skipped)))
        if bad: c.viol('unaccounted', place_rx(c), 'the bytes reported as skipped are not those which belong to no frame', bad)
        it.live = s2
      it.live = sv
    counted(c, r, ctrs)
  return go


def dll_any(kind, n, more, form=None):
  def go(c):
    it, w = c.it, c.w
    f = Feed(c, kind)
    if more:
      first, m, pos = w.interleaved(('byte0', 8), ('len(following)', 20), ('~position in following', 20))
      hd = (first,) + tuple(w.uint('byte%d' % i, 8) for i in range(1, n)) + (w.run_of('following', m, pos),)
    else: hd = tuple(w.uint('byte%d' % i, 8) for i in range(n))
    if form is not None: w.assume(it.eq_int(it.shr(hd[2], 6), form))
    f.feed(hd)
    entry = it.live
    before = it.entries_len(hd)
    left = lefts(it, f.steps, f.now())
    for g, size in ((it.NOT(f.frame), 0),) + (((f.frame, it.binop("*", f.size(), 8)),) if n else ()):
      it.live = it.AND(entry, g)
      if it.live: account(c, f.where, f.r, 2, before, left, size)
    it.live = entry
  return go


SERIES = (((4, 1), (4, 2)), ((4, 0), ('garbage', 2), (4, 2)), (('garbage', 1), (4, 1), ('part', 7)), ((5, 1), ('garbage', 1), (4, 1), ('part', 1)), ((4, 2), (5, 2), (4, 1)),
          (('garbage', 2), (4, 0), ('garbage', 1), (4, 1), ('garbage', 1)), ((4, 1), ('part', 9)), ((1, 2), (4, 1), (1, 1)))


def c37(base, tier):
  obs = []
  for m, s in MODES:
    for n in range(8): obs.append(Ob('any %s on the serial line, %s' % ('%d bytes' % n if n < 7 else 'bytes', m), serial_any(s, n), weight=2 if n == 7 else 1))
    obs.append(Ob('counters of serial frames, %s' % m, serial_counters(s), weight=2))
    for x in SERIES: obs.append(Ob('serial series %s, %s' % (' '.join('%s:%d' % ('frame' if isinstance(k, int) else k, n) for k, n in x), m), series(s, x)))
  for kind, top in (('FOREGROUND', 34), ('BACKGROUND', 6)):
    for n in range(0, 8 if tier == 'quick' else 20): obs.append(Ob('any %d bytes as %s frames' % (n, kind.lower()), dll_any(kind, n, False)))
    for form in ((None,) if kind == 'BACKGROUND' else (0, 1, 2, 3)):
      obs.append(Ob('any bytes as %s frames%s' % (kind.lower(), '' if form is None else ', address form %d' % form), dll_any(kind, top, True, form), weight=3))
  return obs
