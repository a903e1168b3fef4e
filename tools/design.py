"""Writes DESIGN.md: hand-written text plus tables read from the checks and from
tools/planted.json.  Run `python3 tools/design.py`."""
import ast
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

HEAD = open(os.path.join(ROOT, 'tools', 'design_head.md')).read()
TAIL = open(os.path.join(ROOT, 'tools', 'design_tail.md')).read()

# oracle, bounds and reach of each property
TEXT = {}


def load_text():
  key, buf = None, []
  for line in open(os.path.join(ROOT, 'tools', 'design_props.md')):
    if line.startswith('# C'):
      key, buf = line[2:].strip(), []
      TEXT[key] = buf
    elif key:
      buf.append(line)


def facets(pid):
  tree = ast.parse(open(f'{ROOT}/checks/{pid.lower()}.py').read())
  for n in tree.body:
    if isinstance(n, ast.FunctionDef):
      for d in n.decorator_list:
        if isinstance(d, ast.Call) and getattr(d.func, 'attr', '') == 'facet':
          kw = {k.arg: k.value for k in d.keywords}
          quick = ast.literal_eval(kw['quick'])
          shards = ast.literal_eval(kw['shards']) if 'shards' in kw else 1
          yield n.name, quick * shards, ast.literal_eval(kw['rule'])


def main():
  load_text()
  props = [json.loads(l) for l in open(ROOT + '/properties.jsonl')]
  out = [HEAD.rstrip(), '']
  planted = json.load(open(ROOT + '/tools/planted.json'))
  for p in props:
    pid = p['id']
    out += [f"### {pid}. {p['title']}", '', ''.join(TEXT[pid]).strip(), '',
            '| facet | quick cases | what is generated; when a case is non-trivial |',
            '|---|---|---|']
    for name, n, rule in facets(pid):
      out.append(f'| {name} | {n} | {" ".join(rule.split())} |')
    mine = sorted(i for i, r in planted.items() if r['property'] == pid)
    if mine:
      out += ['', 'Planted bugs: ' + '; '.join(
          f"`{i}` ({'caught' if planted[i]['caught'] else 'MISSED'}"
          + (f" by {', '.join(planted[i]['facets'])}" if planted[i].get('facets') else '')
          + ')' for i in mine) + '.']
    out.append('')
  known = json.load(open(ROOT + '/known_findings.json'))
  tail = TAIL.replace('@FIXED@', '\n'.join('* ' + f[len('fixed: '):] for f in known['fixed']))
  tail = tail.replace('@FINDINGS@', '\n'.join(
      f"* {f['property']} `{f['id']}`: {f['what']}." for f in known['findings']))
  tail = tail.replace('@NSEEDED@', str(len(os.listdir(ROOT + '/seeded'))))
  out += [tail.rstrip(), '']
  open(ROOT + '/DESIGN.md', 'w').write('\n'.join(out))


main()
