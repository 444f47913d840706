"""Parsing of the repository's Python 2 sources into syntax trees.

Files in the common subset of Python 2 and 3 are parsed by the standard `ast` module.  The remaining ones (print
statements and the like) go through a small tokenizer-level normalisation of the Python-2-only statement forms.
"""
import ast, io, os, re, tokenize, warnings

REPO = os.environ.get('D7AV_REPO', '/repo')


def _py2_rewrite(src):
  """print statements, `except E, e`, `raise E, v`, <>, exec, backticks, octal/long literals"""
  out = []
  lines = src.split('\n')
  i = 0
  for ln in lines:
    m = re.match(r'^(\s*|.*?:\s+)print\b(?!\s*[=.,)\]])(.*)$', ln)
    if m and not m.group(1).strip().startswith('#') and (m.group(1).strip() == '' or re.match(r'^\s*(if|else|elif|for|while|try|except|finally|with|def)\b', m.group(1))):
      body = m.group(2)
      com = ''
      st = body.strip()
      if st.startswith('>>'):
        st2 = st[2:].split(',', 1)
        st = st2[1] if len(st2) > 1 else ''
      if st.endswith(','): st = st[:-1]
      ln = m.group(1) + 'print(' + _strip_comment(st) + ')'
    ln = re.sub(r'^(\s*except\s+[^:#]+?)\s*,\s*(\w+)\s*:', r'\1 as \2:', ln)
    m = re.match(r'^(\s*raise\s+[\w.]+)\s*,\s*(.+)$', ln)
    if m: ln = m.group(1) + '(' + _strip_comment(m.group(2)) + ')'
    ln = re.sub(r'(?<![\w.])(0x[0-9a-fA-F]+|\d+)[lL]\b', r'\1', ln)
    ln = re.sub(r'(?<![\w.])0([0-7]+)\b(?![.xob])', r'0o\1', ln)
    ln = re.sub(r'<>', '!=', ln)
    ln = re.sub(r'(?<![\w])ur?(["\'])', r'\1', ln)
    m = re.match(r'^(\s*)exec\s+(?!\()(.+)$', ln)
    if m: ln = m.group(1) + 'exec(' + m.group(2) + ')'
    out.append(ln)
  return '\n'.join(out)


def _strip_comment(s):
  try:
    toks = list(tokenize.generate_tokens(io.StringIO(s).readline))
  except Exception:
    return s
  for t in toks:
    if t.type == tokenize.COMMENT:
      return s[:t.start[1]].rstrip() if t.start[0] == 1 else s
  return s


class SourceError(Exception):
  pass


def parse_file(path):
  with open(path, 'rb') as f: raw = f.read()
  src = raw.decode('utf-8', 'replace').replace('\r\n', '\n')
  if src.startswith('\ufeff'): src = src[1:]
  with warnings.catch_warnings():
    warnings.simplefilter('ignore')
    try:
      return ast.parse(src, path), src
    except SyntaxError:
      pass
    try:
      return ast.parse(_py2_rewrite(src), path), src
    except SyntaxError as e:
      raise SourceError("%s:%s: cannot parse: %s" % (path, e.lineno, e.msg))


def module_path(name):
  """file implementing a repository module, or None"""
  p = os.path.join(REPO, *name.split('.'))
  if os.path.isfile(p + '.py'): return p + '.py', False
  if os.path.isfile(os.path.join(p, '__init__.py')): return os.path.join(p, '__init__.py'), True
  if os.path.isdir(p) and any(f.endswith('.py') for _, _, fs in os.walk(p) for f in fs): return p, True
  return None, False


def repo_files(*roots):
  out = []
  for r in roots:
    base = os.path.join(REPO, r)
    if os.path.isfile(base): out.append(base); continue
    for d, ds, fs in os.walk(base):
      ds[:] = sorted(x for x in ds if x not in ('test', 'tests', '.git', '__pycache__'))
      for f in sorted(fs):
        if f.endswith('.py'): out.append(os.path.join(d, f))
  return out


def rel(path):
  return os.path.relpath(path, REPO)


def all_modules(roots=('d7a', 'modem', 'util')):
  """names of the library's modules"""
  out = []
  for f in repo_files(*roots):
    n = rel(f)[:-3].replace('/', '.')
    if n.endswith('.__init__'): n = n[:-9]
    if n and 'examples' not in n.split('.'): out.append(n)
  return out
