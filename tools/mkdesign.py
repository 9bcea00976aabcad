"""Write DESIGN.md from tools/design_head.md, tools/props.py, the checks, the
evidence of the last run, and seeded/."""
import ast
import glob
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
import props  # noqa

HISTORY = {
    's05': 'missed; added harness `equal` to C08',
    's07': 'missed; added configurations with two unary nodes to C15',
    's10': 'missed; added configurations with unary padding to C20',
    's32': 'missed; added harness `tagfields` to C06',
    's08': 'missed; ctz(0) was not modelled as the compiled code behaves',
}


def read(name):
    with open(os.path.join(HERE, name), encoding='utf8') as inp:
        return inp.read()


def harnesses(pid):
    """Names, docstrings of harnesses; value of OUTSIDE."""
    tree = ast.parse(read('checks/%s.py' % pid))
    funcs = {n.name: ast.get_docstring(n) for n in tree.body
            if isinstance(n, ast.FunctionDef)}
    outside, hs = '', []
    for n in tree.body:
        if not isinstance(n, ast.Assign):
            continue
        name = getattr(n.targets[0], 'id', '')
        if name == 'OUTSIDE':
            outside = ast.literal_eval(n.value)
        elif name == 'HARNESSES':
            for k, v in zip(n.value.keys, n.value.values):
                fn = [a.value for a in v.keywords if a.arg == 'fn'] if (
                        isinstance(v, ast.Call)) else [
                        b for a, b in zip(v.keys, v.values)
                        if getattr(a, 'value', '') == 'fn']
                doc = funcs.get(getattr(fn[0], 'id', '')) if fn else ''
                hs.append((k.value, ' '.join((doc or '').split())))
    return outside, hs


def main():
    out = [read('tools/design_head.md')]
    na = []
    for p in sorted(props.PROPS, key=lambda p: p['id']):
        if 'na' in p:
            na.append(p)
            continue
        outside, hs = harnesses(p['id'])
        out.append('### %s. %s\n\n%s\n\n' % (p['id'], p['title'],
                p['statement']))
        out.append('* For: %s\n* Why tests cannot: %s\n* Encoded: %s (%s)\n'
                % (p['quant'], p['why'], ', '.join(p['files']), '; '.join(
                '%s: `%s`' % (a, b) for a, b in p['mech'])))
        out.append('* Harnesses: %s\n' % '; '.join('`%s`%s' % (a,
                ' (%s)' % b.rstrip('.') if b else '') for a, b in hs))
        out.append('* %s\n* Outside: %s\n' % (p['note'], outside))
        try:
            ev = json.loads(read('evidence/%s.json' % p['id']))
            if ev['tier'] == 'quick':
                out.append('* Cost (quick): %d s\n' % round(ev['wall_s']))
        except (IOError, KeyError):
            pass
        out.append('\n')
    out.append('## 5. Not applicable\n\n')
    for p in na:
        out.append('* %s. %s: %s\n' % (p['id'], p['title'], p['na']))
    if not na:
        out.append('None of the listed properties.\n')
    out.append('\n' + read('tools/design_na.md'))
    out.append(read('tools/design_tail.md'))
    for name in sorted(glob.glob(os.path.join(HERE, 'seeded/*/meta.json'))):
        with open(name) as inp:
            meta = json.load(inp)
        n = os.path.basename(os.path.dirname(name))
        out.append('| %s | %s | %s | %s |\n' % (n, meta['property'],
                ' '.join(meta['what_it_breaks'].split()).replace('|', '\\|'),
                HISTORY.get(n, 'caught')))
    with open(os.path.join(HERE, 'DESIGN.md'), 'w', encoding='utf8') as f:
        f.write(''.join(out))


if __name__ == '__main__':
    main()
