"""python3 tools/design.py [--seeds]: write DESIGN.md from tools/design_head.md and tables of obligations and planted bugs.
--seeds also runs the checks on each planted bug (in scratch clones under /tmp) and records what catches it in tools/seed_results.json."""
import ast
import concurrent.futures as cf
import glob
import json
import os
import re
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RES = HERE + '/tools/seed_results.json'


def seed(d):
    m = json.load(open(d + '/meta.json'))
    sid = os.path.basename(d)
    w = '/tmp/ds_' + sid
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(['git', 'clone', '-q', '/repo', w], check=True)
    subprocess.run(['git', 'apply', d + '/patch.diff'], cwd=w, check=True)
    o = subprocess.run(['python3', '-m', 'sa.check', m['property']], cwd=HERE, env=dict(os.environ, VERIF_REPO=w, VERIF_EVIDENCE=w + '/ev'), capture_output=True, text=True)
    hit = []
    for f in glob.glob(w + '/ev/*.violation.txt'):
        for l in open(f):
            k = re.match(r'(P\d\d\.\w+): ', l) or re.match(r'(\w+): ', l)
            if k and k.group(1) not in hit:
                hit.append(k.group(1))
    shutil.rmtree(w)
    return sid, {'rc': o.returncode, 'caught_by': hit}


def main():
    ds = sorted(glob.glob(HERE + '/seeded/*'))
    if '--seeds' in sys.argv:
        with cf.ThreadPoolExecutor(4) as ex:
            r = dict(ex.map(seed, ds))
        json.dump(r, open(RES, 'w'), indent=1, sort_keys=True)
    r = json.load(open(RES)) if os.path.exists(RES) else {}
    out = [open(HERE + '/tools/design_head.md').read(), '\n## 6. Obligations\n']
    n = 0
    for f in sorted(glob.glob(HERE + '/specs/P??.py')):
        t = ast.parse(open(f).read())
        fs = dict((x.name, x) for x in t.body if isinstance(x, ast.FunctionDef))
        out.append('\n### %s\n' % os.path.basename(f)[:-3])
        for k in fs:
            if k.endswith('__code'):
                n += 1
                out.append('* `%s` — %s' % (k[:-6], ' '.join(ast.get_docstring(fs[k[:-6] + '__spec']).split())))
        for x in t.body:
            if isinstance(x, ast.Assign) and getattr(x.targets[0], 'id', '') == 'INCLUDE':
                out.append('* also decided here: ' + ', '.join(ast.literal_eval(x.value)))
    out.append('\n%d obligations in total; those shared by several properties are listed once.\n' % n)
    out.append('## 7. Planted bugs and what catches them\n\n| id | property | needs | caught by |\n|---|---|---|---|')
    for d in ds:
        m = json.load(open(d + '/meta.json'))
        sid = os.path.basename(d)
        c = r.get(sid, {})
        out.append('| %s | %s | %s | %s |' % (sid, m['property'], m['needs'].replace('|', '/'), ', '.join(c.get('caught_by', [])) or ('?' if c.get('rc') is None else 'missed' if c['rc'] != 1 else 'yes')))
    open(HERE + '/DESIGN.md', 'w').write('\n'.join(out) + '\n')


main()
