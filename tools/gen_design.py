"""DESIGN.md from its parts in tools/design/ and the tables of seeded/ and known_findings.json."""
import json
import os
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
D = os.path.join(ROOT, 'tools', 'design')


def part(n):
    return open(os.path.join(D, n)).read()


def main():
    titles = {json.loads(l)['id']: json.loads(l)['title'] for l in open(os.path.join(ROOT, 'properties.jsonl'))}
    out = [part('head.md'), part('props.md'), '## 4. Properties\n\n']
    out += [f'* {k}: {v}\n' for k, v in sorted(titles.items())]
    out.append('\n' + part('tail.md').replace('## 6.', _fixed() + '\n## 6.', 1))
    out.append('| change | caught by | what it breaks |\n|---|---|---|\n')
    for n in sorted(os.listdir(os.path.join(ROOT, 'seeded'))):
        m = json.load(open(os.path.join(ROOT, 'seeded', n, 'meta.json')))
        out.append(f"| {n} | {m.get('caught_by') or 'check ' + m['property']} | {m['what_it_breaks'].replace(chr(10), ' ')} |\n")
    out.append(part('end.md'))
    open(os.path.join(ROOT, 'DESIGN.md'), 'w').write(''.join(out))


def _fixed():
    d = json.load(open(os.path.join(ROOT, 'known_findings.json')))
    rows = ['| property | commit | what failed |\n|---|---|---|\n']
    for t in d['fixed']:
        _, p, c, w = t.split(' ', 3)
        rows.append(f"| {p.split('=')[1]} | {c} | {w} |\n")
    return ''.join(rows)


if __name__ == '__main__':
    main()
