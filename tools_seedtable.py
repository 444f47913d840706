"""writes the table of planted bugs into DESIGN.md (between the two markers)"""
import json, os, re
rows = []
for d in sorted(os.listdir('seeded')):
  m = json.load(open('seeded/%s/meta.json' % d))
  rows.append('| %s | %s | %s | %s |' % (d, m['property'], m['what_it_breaks'].replace('|', '/'), m['needs'].replace('|', '/')))
s = open('DESIGN.md').read()
t = '<!-- seeds -->\n| planted bug | caught by | what it breaks | what it needs |\n|---|---|---|---|\n' + '\n'.join(rows) + '\n<!-- end -->'
s = re.sub(r'<!-- seeds -->.*<!-- end -->', lambda m: t, s, flags=re.S)
open('DESIGN.md', 'w').write(s)
