"""What a description says about the object it describes (C36)."""
import os
import re
from .bdd import TRUE, FALSE
from .values import *
from .domains import *
from .recipes import *
from .report import Ob, place
from .interp import Dead, Unsupported, SFloat
from . import models
from .checks_structs import short, cplace, serialise, CMD, REG, STA, TRS, REQ, WRI, RSP
from .checks_alp import no_decoding, entries, FILETYPES
from .checks_objects import describes, class_of, str_fn, project_classes, COVERED_TEXT
from .checks_values import signed_pair, C02, PHYS, APF


# ------------------------------------------------------------------ families of objects that differ in one field
class Family(object):
  """make(sel) builds the value with the field at path sel replaced by an independent value; leaves: the paths,
  each with the two values"""
  def __init__(self, make, leaves): self.make, self.leaves = make, dict(leaves)


def cached(build, leaves):
  plain = []
  mine = set(leaves)
  def make(sel):
    if sel in mine: return build(sel)
    if not plain: plain.append(build(None))
    return plain[0]
  return make


def field(w, spec, path):
  it = w.it
  label = '.'.join(path)
  if not isinstance(spec, Spec) or spec.kind == 'const':
    v = spec.a[0] if isinstance(spec, Spec) else spec
    return Family(lambda sel: v, {})
  k = spec.kind
  if k == 'obj': return family(w, spec.a[0], path, **spec.a[1])
  if k == 'list':
    fs = [field(w, spec.a[0], path[:-1] + ('%s[%d]' % (path[-1], i),)) for i in range(spec.a[1])]
    return Family(lambda sel: it.new_list([f.make(sel) for f in fs]), [l for f in fs for l in f.leaves.items()])
  if k == 'alt': return field(w, spec.a[-1], path)
  if k == 'items':
    fs = [field(w, s, path[:-1] + ('%s[%d]' % (path[-1], i),)) for i, s in enumerate(spec.a)]
    return Family(lambda sel: it.new_list([f.make(sel) for f in fs]), [l for f in fs for l in f.leaves.items()])
  if k == 'int': x, y = signed_pair(w, label, spec.a[0])
  elif k == 'bool': x, y = w.bool(label), w.bool('other ' + label)
  elif k == 'enum': x, y = w.member(w.cls(spec.a[0]), label), w.member(w.cls(spec.a[0]), 'other ' + label)
  elif k in ('text', 'octets', 'bytes'):
    if k == 'bytes': spec = Spec('octets', 2)
    n = 7 if spec.kind == 'text' else 8
    ps = [w.interleaved(('%s[%d]' % (label, i), n), ('other %s[%d]' % (label, i), n)) for i in range(spec.a[0])]
    x, y = [tuple(p[j] for p in ps) for j in (0, 1)]
    if spec.kind == 'text': x, y = it.mkstr(((TRUE, x),)), it.mkstr(((TRUE, y),))
    else: return Family(lambda sel: it.new_list(list(y if sel == path else x)), {path: (x, y)})
  else: raise Unsupported('family of ' + k)
  return Family(lambda sel: y if sel == path else x, {path: (x, y)})


def family(w, q, path=(), **fix):
  it = w.it
  cls = w.cls(q)
  rec = RECIPES[q]
  fs = {p: field(w, fix.get(p, rec[p]), path + (p,)) for p in rec}
  leaves = [l for p in rec for l in fs[p].leaves.items()]
  build = lambda sel: accepted(w, lambda: it.call(cls, [], {p: f.make(sel) for p, f in fs.items()}))
  return Family(cached(build, [l for l, _ in leaves]), leaves)


# ------------------------------------------------------------------ comparing texts
LABELLED = re.compile(r'[a-z0-9]+')


class Walk(object):
  """compares two texts part by part: which value parts may differ, and what is written before each.
  Parts that cannot be compared count as the same and are noted in unknown."""
  def __init__(self, it):
    self.it = it
    self.unknown = []
    self.shown = []        # (guard, label) of parts that differ

  def text(self, a, b, g, label=''):
    """(node: the same text, label after it)"""
    it = self.it
    if isinstance(a, Union) or isinstance(b, Union):
      same = FALSE
      for h, x in it.alts(a):
        for k, y in it.alts(b):
          hk = it.AND(g, it.AND(h, k))
          if not it.may(hk): continue
          s, _ = self.text(x, y, hk, label)
          same = it.OR(same, it.AND(hk, s))
      return same, ''
    pa, pb = models.text_parts(a), models.text_parts(b)
    if self.layout(pa) == self.layout(pb):
      same = TRUE
      before = label
      for p, q in zip(pa, pb):
        if isinstance(p, str):
          # a separator within a group of values ("{} : {}") goes on with the words before the group
          if not re.search(r'[\w,;\n]', p) and not label: label = before + '\0' + p
          else: label = before = p
          continue
        s = self.part(p, q, it.AND(g, same), label)
        same = it.AND(same, s)
        label = ''
      return same, label
    # different layouts: an enumeration printed by name, a number of other width
    self.shown.append((g, common_label(pa, pb, label)))
    if isinstance(a, str) and isinstance(b, str): return FALSE, ''
    xa, xb = [models.expand_text(it, v) if isinstance(v, SText) else v for v in (a, b)]
    if isinstance(xa, (str, SStr)) and isinstance(xb, (str, SStr)): return it.eq_node(xa, xb), ''
    if any(isinstance(p, tuple) and p[0] == 'opaque' for p in pa + pb):
      self.unknown.append((g, 'texts of different layout'))
      return TRUE, ''
    return FALSE, ''

  @staticmethod
  def layout(parts): return tuple(p if isinstance(p, str) else (p[0], p[1]) for p in parts)

  def part(self, p, q, g, label):
    it = self.it
    kind, spec, v = p
    u = q[2]
    if kind in ('alt', 'pformat'):
      s, _ = self.text(v, u, g, label)
      return s
    if v is u: return TRUE
    if kind == 'bool': s = it.NOT(it.B.XOR(it.truth(v), it.truth(u)))
    elif kind in ('int', 'int/s', 'hex', 'bin', 'oct', 'str'): s = it.eq_node(v, u)
    elif isinstance(v, (SText, SStr, str)) and isinstance(u, (SText, SStr, str)): s, _ = self.text(v, u, g, label); return s
    elif it.is_intlike(v) and it.is_intlike(u): s = it.eq_node(v, u)
    elif isinstance(v, (SFloat, float)) and isinstance(u, (SFloat, float)): s = it.eq_node(v, u)
    elif kind == 'object' and isinstance(v, str): return TRUE if v == u else FALSE          # the name of its class is shown, nothing else
    else:
      self.unknown.append((g, 'value of unknown text'))
      return TRUE
    d = it.AND(g, it.NOT(s))
    if it.may(d): self.shown.append((d, label))
    return s


def common_label(pa, pb, label):
  """what is written before the first difference of two texts"""
  for p, q in zip(pa, pb):
    if isinstance(p, str) and isinstance(q, str):
      if p == q: label = p; continue
      n = len(os.path.commonprefix([p, q]))
      return re.sub(r'[-+\w.]*\Z', '', p[:n]) if re.search(r'\w', p[:n]) else label + p[:n]
    if isinstance(p, str) or isinstance(q, str) or p[:2] != q[:2]: break
    label = ''
  return label


CONTRARY = [set(x.split()) for x in ('low normal high', 'rx tx', 'user guest', 'start end', 'readable writeable executable')]
ALIAS = {'lo': 'low', 'hi': 'high', 'norm': 'normal'}


def words(label):
  """the words written directly before a value"""
  last = re.split(r'[][(){},;:=\n]', label.rstrip(' \'"([{=:'))[-1]
  return set(LABELLED.findall(last.lstrip('0123456789').replace('_', ' ').lower()))


def canonical(ws): return set(ALIAS.get(x, x) for x in ws)


def tokens(name): return set(LABELLED.findall(re.sub(r'\[\d+\]', '', name).replace('_', ' ').lower()))


def siblings(w, q, leaf):
  """for every level of the path: the field on the path and the other fields of the object which holds it"""
  out = []
  for p in leaf:
    p = re.sub(r'\[\d+\]', '', p)
    rec = RECIPES.get(q, {})
    out.append((p, sorted(set(rec) - {p})))
    s = rec.get(p)
    while isinstance(s, Spec) and s.kind in ('alt', 'list'): s = s.a[-1] if s.kind == 'alt' else s.a[0]
    q = s.a[0] if isinstance(s, Spec) and s.kind == 'obj' else None
  return out


def other_name(ws, levels):
  """the field, beside the path, which these words name rather than a field of the path"""
  for p, others in reversed(levels):
    tp = tokens(p)
    own = 99 if tp == ws else len(tp) if tp <= ws else 0
    best = sorted(((99 if tokens(o) == ws else len(tokens(o)), o) for o in others if tokens(o) <= ws), reverse=True)
    if best and best[0][0] > max(own, 98 if ws <= tp else 0): return best[0][1]
    if own or ws <= tp: return None
  return None


def misnamed(label, levels):
  """the label names another field of the object and not this one"""
  group = label.split('\0')[0]
  label = label.split('\0')[-1]
  gs = canonical(words(group))
  for p, others in levels:
    tp = canonical(tokens(p))
    for o in others:
      a, b = tp - canonical(tokens(o)), canonical(tokens(o)) - tp
      if len(a) == len(b) == 1 and b <= gs and not a & gs and any(a | b <= m for m in CONTRARY): return o
  # what is written before a nested text: "length=file-id=3"
  pieces = re.split(r'[][(){}=:\'"]+', re.split(r'[,;\n]', label)[-1])[:-1]
  if all(re.fullmatch(r' ?[A-Za-z][\w-]*', x) for x in pieces if x):
    for piece in pieces[:-1]:
      ps = set(LABELLED.findall(piece.replace('_', ' ').lower()))
      o = other_name(ps, levels[:-1]) if ps else None
      if o and tokens(o) == ps: return o
  ws = words(label)
  return other_name(ws, levels) if ws else None


# ------------------------------------------------------------------ obligations
def told_apart(q, make_family=None, text=str_fn, what=None, decode=False, relevant=None):
  """changing one field that is serialised changes the text, and the changed value stands after its own name"""
  relevant = relevant or told_by_bytes
  def go(c):
    it, w = c.it, c.w
    if not decode: no_decoding(c)
    it.keep_alts = True
    fam = make_family(c) if make_family else family(w, q)
    x = fam.make(None)
    live, tx, thr = it.run(lambda: text(it, x))
    it.live = live                      # raising descriptions are C30's
    if live == 0: raise Dead()
    entry = it.live
    if not fam.leaves: c.ok()
    for leaf, (u, v) in fam.leaves.items():
      it.live = entry
      name = '.'.join(leaf)
      try:
        y = fam.make(leaf)
        live, ty, thr = it.run(lambda: text(it, y))
      except Dead: continue
      it.live = live
      if live == 0: continue
      it.live = differ = it.AND(live, it.NOT(it.eq_node(u, v)))
      if differ == 0: continue
      k = Walk(it)
      same, _ = k.text(tx, ty, differ)
      c.ok()
      where = text_place(it, x)
      bad = it.AND(differ, same)
      if it.may(bad) and k.unknown:
        c.undecided('%s: %s' % (name, k.unknown[0][1])); continue
      if it.may(bad):
        it.live = bad
        try: bad = relevant(c, x, y, bad)       # fields that are not serialised need not be shown
        except Dead: bad = FALSE
        it.live = differ
      if it.may(bad):
        c.viol('not-told-apart', where, 'two values of %s that differ in %s have the same description' % (what or short(q), name), bad); continue
      others = siblings(w, q, leaf)
      for g, label in k.shown:
        o = misnamed(label, others)
        if o and it.may(g): c.viol('wrong-name', where, 'the description of %s shows %s under the name of %s (after "%s")' % (what or short(q), name, o, label.replace('\0', ' ... ').strip()), g)
      c.ok()
  return go


def told_by_bytes(c, x, y, bad):
  """the part of bad in which the two have different bytes"""
  it = c.it
  bx = serialise(c, x, rule=None)
  by = serialise(c, y, rule=None)
  differ = FALSE
  for g, ea in it.list_live(bx):
    for h, eb in it.list_live(by):
      gh = it.AND(it.AND(it.live, g), h)
      if it.may(gh): differ = it.OR(differ, it.AND(gh, it.NOT(it.eq_entries(ea, eb))))
  return it.AND(bad, differ)


def text_place(it, x):
  if isinstance(x, Union): x = x.alts[0][1]
  m, owner = x.cls.lookup('__str__')
  return cplace(owner if isinstance(owner, ClassV) else x.cls, '.__str__')


THOROUGH = [False]
PLAIN_SP = dict(subband_bitmap=K(1), scan_automation_period=O(CT, exp=K(2), mant=K(3)))
PLAIN_SB = dict(channel_index_start=K(1), channel_index_end=K(2), eirp=K(3), cca=K(4), duty=K(5))


def shapes_of(q):
  """the shapes an object of the class can have: [(name, fixed arguments)]"""
  if q == ADDR: return [(s['id_type'], s) for s in ADDR_SHAPES]
  if q == IFC: return [(short(s.a[0]) if s.kind == 'obj' else 'no configuration', dict(interface_configuration=s)) for s in RECIPES[IFC]['interface_configuration'].a]
  if q == IFS: return [('a status', dict(interface_status=O(STAT)))]
  if q == IIO: return [('an overload', dict(interface_configuration_overload=O(ADDR))), ('no overload', dict(interface_configuration_overload=NONE))]
  if q == DATA: return [('%d bytes' % n, dict(data=Spec('octets', n))) for n in (1, 3)]
  if q in (AP, APF):
    out = []
    for n, ps, bs in (('first of each', 0, 0), ('last of each', 3, 7)) + tuple(('%d' % i, i % 4, i) for i in range(1, 7) if THOROUGH[0]):
      fix = dict(sub_profiles=Spec('items', *[O(SP_, **({} if i == ps else PLAIN_SP)) for i in range(4)]), sub_bands=Spec('items', *[O(SB_, **({} if i == bs else PLAIN_SB)) for i in range(8)]))
      out.append((n, fix if q == AP else dict(access_profile=O(AP, **fix))))
    return out
  if q == PHYS: return [('%d channels' % n, dict(channel_status_list_length=K(n), channel_status_identifier=Spec('list', O(CSI), n), channel_noise_floor=Spec('list', I(8), n))) for n in ((1, 2, 3) if THOROUGH[0] else (1, 2))]
  if q == QRY: return [('2 bytes', dict(compare_value=Spec('octets', 2)))]
  return [('', {})]


def wrapped(fam, f):
  return Family(cached(lambda sel: f(fam.make(sel)), fam.leaves), fam.leaves)


def together(fams, f):
  """the values of several families handed to f"""
  leaves = [l for m in fams for l in m.leaves.items()]
  return Family(cached(lambda sel: f(*[m.make(sel) for m in fams]), [l for l, _ in leaves]), leaves)


def made(c, q, **kw): return accepted(c.w, lambda: c.it.call(c.w.cls(q), [], kw))


def action_of(q, fix):
  """an action shows the operation"""
  return lambda c: wrapped(family(c.w, q, **fixed(c, fix)), lambda o: made(c, REG, operation=o))


def status_of(c):
  ext = c.it.get_attr(c.w.cls(A + 'status_action.StatusActionOperandExtensions'), 'INTERFACE_STATUS')
  return wrapped(family(c.w, OPN + 'status.InterfaceStatus', operand=O(IFS, interface_id=K(0xd7), interface_status=O(STAT))),
                 lambda o: made(c, STA, status_operand_extension=ext, operation=o))


def command_shows(kind):
  def make(c):
    it, w = c.it, c.w
    tag = field(w, Spec('int', 8), ('tag_id',))
    read = wrapped(family(w, REQ + 'ReadFileData', ('read',)), lambda o: made(c, REG, operation=o))
    write = wrapped(family(w, WRI + 'WriteFileData', ('write',), operand=O(DATA, data=Spec('octets', 1))), lambda o: made(c, REG, operation=o))
    if kind == 'status':
      return wrapped(status_of(c), lambda s: made(c, CMD, actions=it.new_list([s]), generate_tag_request_action=False))
    if kind == 'added':
      def add(a, b):
        cmd = made(c, CMD, generate_tag_request_action=False)
        for x in (a, b): accepted(w, lambda: it.call(it.get_attr(cmd, 'add_action'), [x], {}))
        return cmd
      return together([read, write], add)
    return together([tag, read, write], lambda t, a, b: made(c, CMD, actions=it.new_list([a, b]), tag_id=t))
  return make


def completion(c):
  """a response command shows whether the execution has completed and, once it has, whether with an error"""
  def f(tag, eop, error):
    op = made(c, OPN + 'tag_response.TagResponse', operand=made(c, OPD + 'tag_id.TagId', tag_id=tag))
    return made(c, CMD, actions=c.it.new_list([made(c, TRS, eop=eop, error=error, operation=op)]))
  w = c.w
  fams = [field(w, Spec('int', 8), ('tag',)), field(w, Spec('bool'), ('eop',)), field(w, Spec('bool'), ('error',))]
  c.eop = fams[1].leaves[('eop',)][0]
  return together(fams, f)


def completed_differ(c, x, y, bad):
  it = c.it
  same_eop = it.eq_node(it.get_attr(x, 'execution_completed'), it.get_attr(y, 'execution_completed'))
  same_err = it.eq_node(it.get_attr(x, 'completed_with_error'), it.get_attr(y, 'completed_with_error'))
  same_tag = it.eq_node(it.get_attr(x, 'tag_id'), it.get_attr(y, 'tag_id'))
  done = it.truth(c.eop)
  return it.AND(bad, it.NOT(it.AND(it.AND(same_tag, same_eop), it.OR(same_err, it.NOT(done)))))


def content_of(q, v, fix):
  """the action which returns the content of a system file"""
  def make(c):
    def act(f):
      alts = c.it.list_live(serialise(c, f, rule=None))
      data = c.it.new_seq(alts, 'list')
      ofs = made(c, OFS, id=v, offset=made(c, LEN, value=0))
      return made(c, REG, operation=made(c, RSP + 'ReturnFileData', operand=made(c, DATA, data=data, offset=ofs)))
    return wrapped(family(c.w, q, **fixed(c, fix)), act)
  return make


def c36(base, tier):
  THOROUGH[0] = tier == 'thorough'
  obs = []
  for q in sorted(RECIPES):
    cls = class_of(base, q)
    if not describes(base, cls): continue
    for n, fix in shapes_of(q):
      obs.append(Ob('what tells apart %s%s' % (short(q), ' (%s)' % n if n else ''), told_apart(q, lambda c, q=q, fix=fix: family(c.w, q, **fixed(c, fix)))))
  for q in sorted(RECIPES):
    if '.operations.' not in q: continue
    for n, fix in shapes_of(q):
      obs.append(Ob('what an action shows of %s%s' % (short(q), ' (%s)' % n if n else ''), told_apart(q, action_of(q, fix))))
  obs.append(Ob('what a status action shows', told_apart(OPN + 'status.InterfaceStatus', status_of, what='an interface status action')))
  for kind in ('given', 'added', 'status'):
    obs.append(Ob('what a command shows (%s)' % kind, told_apart(CMD, command_shows(kind), what='a command')))
  obs.append(Ob('what a response command shows', told_apart(CMD, completion, what='a response command', relevant=completed_differ)))
  for v, n in sorted(FILETYPES.items()):
    if v > 0x20 or v == 9: continue
    q = [k for k in RECIPES if k.startswith('d7a.system_files.') and k.endswith('.' + n)][0]
    for m, fix in shapes_of(q):
      obs.append(Ob('what a returned file 0x%02x shows%s' % (v, ' (%s)' % m if m else ''), told_apart(q, content_of(q, v, fix), what='a response returning ' + n, decode=True)))
  return obs


def fixed(c, fix):
  out = dict(fix)
  if isinstance(out.get('id_type'), str):
    out['id_type'] = K([m for m in c.w.cls(IDT).members if m.attrs['_name_'] == out['id_type']][0])
  return out
