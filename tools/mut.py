#!/usr/bin/env python3
"""Mutation survey: which single-token changes of the analysed functions does a check not report?
  mut.py PROP N [FUNC_REGEX] [SEED]
Works on copies under /tmp/mut; a survivor is either equivalent, or a gap worth looking at."""
import ast
import json
import os
import random
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

BASE = os.environ.get('MUT_BASE', '/tmp/mut')
OPS = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.Pow: '*', ast.FloorDiv: '*', ast.Mod: '+'}
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is', ast.In: 'not in', ast.NotIn: 'in'}


def sites(path, rel, fn_ok):
    src = open(path, newline='').read()
    tree = ast.parse(src)
    lines = src.split('\n')
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l) + 1)

    def pos(l, c):
        return offs[l - 1] + len(lines[l - 1].encode()[:c].decode())
    beg = lambda n: pos(n.lineno, n.col_offset)
    end = lambda n: pos(n.end_lineno, n.end_col_offset)
    out = []

    def between(a, b, new):
        """replace the operator text between two operands"""
        i, j = end(a), beg(b)
        txt = src[i:j]
        m = re.search(r'[^\s()\\#]+(\s+(in|not))?', txt)
        if m and '#' not in txt:
            out.append((i + m.start(), i + m.end(), new))

    def visit(f):
        args = [a.arg for a in f.args.args if a.arg not in ('self', 'cls')]
        skip = set()
        for n in ast.walk(f):
            if isinstance(n, ast.Raise) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
                skip |= set(id(x) for x in ast.walk(n))
        for n in ast.walk(f):
            if id(n) in skip:
                continue
            if isinstance(n, ast.BinOp) and type(n.op) in OPS:
                between(n.left, n.right, OPS[type(n.op)])
            elif isinstance(n, ast.Compare) and len(n.ops) == 1:
                between(n.left, n.comparators[0], CMP[type(n.ops[0])])
            elif isinstance(n, ast.BoolOp):
                between(n.values[0], n.values[1], 'or' if isinstance(n.op, ast.And) else 'and')
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
                out.append((beg(n), beg(n.operand), ''))
            elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
                out.append((beg(n), end(n), '(%r+1)' % n.value))
            elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
                out.append((beg(n), end(n), str(not n.value)))
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in args and len(args) > 1:
                out.append((beg(n), end(n), random.choice([a for a in args if a != n.id])))
            elif isinstance(n, (ast.AugAssign,)) or (isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Subscript, ast.Attribute))):
                out.append((beg(n), end(n), 'pass'))
            elif isinstance(n, ast.Attribute) and n.attr in ('cos', 'sin', 'log', 'exp', 'any', 'all', 'minimum', 'maximum', 'min', 'max'):
                o = dict(cos='sin', sin='cos', log='sqrt', exp='cosh', any='all', all='any', minimum='maximum', maximum='minimum', min='max', max='min')[n.attr]
                out.append((end(n) - len(n.attr), end(n), o))
    for n in ast.walk(tree):
        if isinstance(n, ast.ClassDef):
            for f in n.body:
                if isinstance(f, ast.FunctionDef) and fn_ok(n.name + '.' + f.name):
                    visit(f)
    for f in tree.body:
        if isinstance(f, ast.FunctionDef) and fn_ok(f.name):
            visit(f)
    return [(rel, s, a, b, new, src.count('\n', 0, a) + 1) for (a, b, new) in out for s in [src]]


def main():
    prop, n = sys.argv[1], int(sys.argv[2])
    rx = re.compile(sys.argv[3] if len(sys.argv) > 3 else '.')
    random.seed(int(sys.argv[4]) if len(sys.argv) > 4 else 1)
    os.makedirs(BASE, exist_ok=True)
    shutil.rmtree(BASE + '/verif', ignore_errors=True)
    shutil.copytree('/verif', BASE + '/verif', ignore=shutil.ignore_patterns('.git', 'seeded'))
    check = ['timeout', '300', 'python3-vt', BASE + '/verif/check.py', prop, '--tier', 'quick']
    r = subprocess.run(check, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    print(r.stdout.splitlines()[0])
    und0 = int(re.search(r'(\d+) undecided', r.stdout).group(1))
    funcs = json.load(open(BASE + '/verif/evidence/%s.json' % prop))['coverage']['functions']
    allsites = []
    for root, d, fs in os.walk('/repo/geotecha'):
        for f in fs:
            if f.endswith('.py') and '/test' not in root:
                p = os.path.join(root, f)
                mod = os.path.relpath(p, '/repo')[:-3].replace('/', '.')
                mine = set(x[len(mod) + 1:] for x in funcs if x.startswith(mod + '.'))
                if mine:
                    allsites += sites(p, os.path.relpath(p, '/repo'), lambda q: q in mine and rx.search(mod + '.' + q))
    print('%d sites' % len(allsites))
    pick = random.sample(allsites, min(n, len(allsites)))
    W = 4
    free = []
    for k in range(W):
        w = '%s/w%d' % (BASE, k)
        shutil.rmtree(w, ignore_errors=True)
        shutil.copytree('/repo/geotecha', w + '/geotecha', ignore=shutil.ignore_patterns('__pycache__', '*.so', 'test*', '*.pyc'))
        shutil.copytree(BASE + '/verif', w + '/verif')
        free.append(w)

    def run(m):
        rel, src, a, b, new, line = m
        w = free.pop()
        try:
            mut = src[:a] + new + src[b:]
            try:
                compile(mut, rel, 'exec')
            except SyntaxError:
                return None
            open(os.path.join(w, rel), 'w', newline='').write(mut)
            q = subprocess.run(['timeout', os.environ.get('MUT_T', '60'), 'python3-vt', w + '/verif/check.py', prop, '--tier', 'quick'], env=dict(os.environ, SA_REPO=w), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            open(os.path.join(w, rel), 'w', newline='').write(src)
            u = re.search(r'(\d+) undecided', q.stdout)
            return q.returncode, (int(u.group(1)) - und0 if u else '?'), q.stdout
        finally:
            free.append(w)
    with ThreadPoolExecutor(W) as ex:
        res = list(ex.map(run, pick))
    kill = sum(1 for r in res if r and r[0] == 1)
    tot = sum(1 for r in res if r)
    print('%d of %d reported' % (kill, tot))
    for m, r in sorted(zip(pick, res), key=lambda z: (z[0][0], z[0][5])):
        if r and r[0] != 1:
            rel, src, a, b, new, line = m
            ls = src.rfind('\n', 0, a) + 1
            le = src.find('\n', b)
            print('%s rc=%s und+%s %s:%d: %s >>%s>>%s<< %s' % ('SURVIVED', r[0], r[1], rel.replace('geotecha/', ''), line, src[ls:a].strip()[-70:], src[a:b], new, src[b:le].strip()[:50]))


main()
