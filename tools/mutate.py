#!/usr/bin/env python3
"""Systematic mutation of one Python source file, to find what a check does not see.

    tools/mutate.py PROP FILE [--sample N] [--seed S] [--only REGEX of function names] [--jobs J]

Each mutant is applied alone in a scratch copy of the repository, on which a scratch copy of this
directory runs the quick check.  Prints the surviving mutants.  Nothing here decides a property.
"""
import argparse
import ast
import copy
import os
import random
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
from queue import Queue

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SKIPFUNC = set(os.environ.get('MUT_SKIP', '__repr__ __str__ imshow ds9 _ds9 plot plot_tod _grab_doc').split())
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
       ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.FloorDiv: ast.Mult, ast.Pow: ast.Mult,
       ast.Mod: ast.FloorDiv, ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd}


def points(tree, only):
    """(description, mutator of a deep copy)"""
    out = []
    path = []

    def walk(node, func):
        if isinstance(node, (ast.FunctionDef, ast.ClassDef)):
            name = node.name
            if name in SKIPFUNC:
                return
            func = func + [name]
        if isinstance(node, ast.Raise):
            return
        f = '.'.join(func)
        if not only or re.search(only, f):
            idx = node_index[id(node)]
            ln = getattr(node, 'lineno', 0)

            def add(kind, fn):
                out.append((f'{f}:{ln} {kind}', idx, fn))

            if isinstance(node, ast.Compare):
                for k, op in enumerate(node.ops):
                    t = CMP.get(type(op))
                    if t:
                        add(f'cmp {ast.unparse(node)[:70]}', lambda n, k=k, t=t: n.ops.__setitem__(k, t()))
            elif isinstance(node, ast.BinOp) and type(node.op) in BIN:
                add(f'bin {ast.unparse(node)[:70]}', lambda n: setattr(n, 'op', BIN[type(n.op)]()))
            elif isinstance(node, ast.AugAssign) and type(node.op) in BIN:
                add(f'aug {ast.unparse(node)[:70]}', lambda n: setattr(n, 'op', BIN[type(n.op)]()))
            elif isinstance(node, ast.BoolOp):
                add(f'bool {ast.unparse(node)[:70]}', lambda n: setattr(n, 'op', ast.Or() if isinstance(n.op, ast.And) else ast.And()))
                for k in range(len(node.values)):
                    add(f'drop operand {k} of {ast.unparse(node)[:70]}', lambda n, k=k: n.values.pop(k))
            elif isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
                add(f'not {ast.unparse(node)[:70]}', lambda n: setattr(n, 'operand', ast.UnaryOp(ast.Not(), n.operand)))
            elif isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.USub):
                add(f'neg {ast.unparse(node)[:70]}', lambda n: setattr(n, 'op', ast.UAdd()))
            elif isinstance(node, ast.Constant) and isinstance(node.value, bool):
                add(f'const {node.value}', lambda n: setattr(n, 'value', not n.value))
            elif isinstance(node, ast.Constant) and isinstance(node.value, (int, float)) and not isinstance(node.value, bool):
                add(f'const {node.value}+1', lambda n: setattr(n, 'value', n.value + 1))
            elif isinstance(node, (ast.If, ast.IfExp)):
                add(f'if {ast.unparse(node.test)[:70]} -> True', lambda n: setattr(n, 'test', ast.Constant(True)))
                add(f'if {ast.unparse(node.test)[:70]} -> False', lambda n: setattr(n, 'test', ast.Constant(False)))
            elif isinstance(node, ast.Call):
                for k, kw in enumerate(node.keywords):
                    if kw.arg:
                        add(f'drop keyword {kw.arg} of {ast.unparse(node)[:60]}', lambda n, k=k: n.keywords.pop(k))
                if node.args and isinstance(node.func, ast.Attribute) and node.func.attr in ('copy', 'ravel', 'view', 'ascontiguousarray', 'abs'):
                    pass
            if isinstance(node, (ast.Expr, ast.AugAssign, ast.Assign)) and func and not (
                    isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant)):
                def drop(n):
                    n.__class__ = ast.Pass
                    n._fields = ()
                if not isinstance(node, ast.Assign) or not isinstance(node.targets[0], (ast.Name, ast.Tuple)):
                    add(f'drop {ast.unparse(node)[:70]}', drop)
        for fld, val in ast.iter_fields(node):
            if fld in ('annotation', 'returns', 'decorator_list'):
                continue
            for ch in val if isinstance(val, list) else [val]:
                if isinstance(ch, ast.AST):
                    walk(ch, func)

    nodes = list(ast.walk(tree))
    node_index = {id(n): i for i, n in enumerate(nodes)}
    walk(tree, path)
    return out


def main():
    p = argparse.ArgumentParser()
    p.add_argument('prop')
    p.add_argument('file')
    p.add_argument('--sample', type=int, default=0)
    p.add_argument('--seed', type=int, default=0)
    p.add_argument('--only', default='')
    p.add_argument('--jobs', type=int, default=6)
    p.add_argument('--killed', action='store_true')
    a = p.parse_args()
    src = open(os.environ.get('MUT_REPO', '/repo') + '/' + a.file).read()
    tree = ast.parse(src)
    pts = points(tree, a.only)
    if a.sample and a.sample < len(pts):
        random.Random(a.seed).shuffle(pts)
        pts = pts[:a.sample]
    print(len(pts), 'mutants', flush=True)
    q = Queue()
    work = f'/tmp/mutate.{os.getpid()}'
    for i in range(a.jobs):
        w = f'{work}/{i}'
        os.makedirs(w)
        subprocess.check_call(['cp', '-a', os.environ.get('MUT_REPO', '/repo'), f'{w}/repo'])
        subprocess.check_call(['rsync', '-a', '--exclude', '.git', '--exclude', 'evidence', HERE + '/', f'{w}/verif/']) if shutil.which('rsync') else (
            subprocess.check_call(f'mkdir {w}/verif && cd {HERE} && tar cf - --exclude .git --exclude evidence . | tar xf - -C {w}/verif', shell=True))
        q.put(w)

    def one(pt):
        desc, idx, fn = pt
        t = copy.deepcopy(tree)
        n = list(ast.walk(t))[idx]
        fn(n)
        try:
            code = ast.unparse(ast.fix_missing_locations(t))
            compile(code, 'x', 'exec')
        except Exception as e:
            return desc, 'invalid'
        w = q.get()
        try:
            path = f'{w}/repo/{a.file}'
            open(path, 'w').write(code)
            st = 'survived'
            for prop in a.prop.split(','):
                try:
                    r = subprocess.run(['python3', 'run.py', prop], cwd=f'{w}/verif', capture_output=True, text=True, timeout=600,
                                       env=dict(os.environ, VP_REPO=f'{w}/repo', VERIF_SEED='1', VERIF_TIER='quick', VP_SCALE='1.5'))
                    if r.returncode == 1:
                        st = 'killed'
                        break
                    if r.returncode:
                        st = 'broken'
                        break
                except subprocess.TimeoutExpired:
                    st = 'timeout'
                    break
            open(path, 'w').write(src)
            return desc, st
        finally:
            q.put(w)

    count = {}
    with ThreadPoolExecutor(a.jobs) as ex:
        for desc, st in ex.map(one, pts):
            count[st] = count.get(st, 0) + 1
            if st in ('survived', 'timeout') or a.killed:
                print(st, desc, flush=True)
    print(count)
    shutil.rmtree(work, ignore_errors=True)


main()
