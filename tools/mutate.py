#!/usr/bin/env python3
"""mutate.py COPY SEED COUNT FILE CHECK...: small random changes of FILE in a scratch COPY of the repository; prints those no check notices.

Only a help for finding gaps in the checks; nothing here decides a property. Survivors are often equivalent to the original.
"""
import ast
import copy
import os
import random
import subprocess
import sys

root, seed, count, target, *checks = sys.argv[1:]
path = os.path.join(root, target)
source = open(path).read()
lines = source.split('\n')


class Finder(ast.NodeVisitor):
    def __init__(self):
        self.found = []
        self.inside = 0

    def visit_FunctionDef(self, node):
        self.inside += 1
        self.generic_visit(node)
        self.inside -= 1

    visit_AsyncFunctionDef = visit_FunctionDef

    def segment(self, node):
        return ast.get_source_segment(source, node)

    def add(self, node, text):
        if self.inside and text != self.segment(node):
            self.found.append((node.lineno, node.col_offset, node.end_lineno, node.end_col_offset, text))

    def visit_JoinedStr(self, node):
        pass

    def visit_Raise(self, node):
        self.add(node, 'pass')

    def visit_Assert(self, node):
        pass

    def visit_Compare(self, node):
        swap = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.In: 'not in', ast.NotIn: 'in'}
        if len(node.ops) == 1 and type(node.ops[0]) in swap:
            self.add(node, f'({self.segment(node.left)} {swap[type(node.ops[0])]} {self.segment(node.comparators[0])})')
        self.generic_visit(node)

    def visit_BoolOp(self, node):
        values = [f'({self.segment(v)})' for v in node.values]
        for i in range(len(values)):
            word = ' or ' if isinstance(node.op, ast.Or) else ' and '
            self.add(node, '(' + word.join(values[:i] + values[i + 1 :]) + ')')
        self.generic_visit(node)

    def visit_BinOp(self, node):
        swap = {ast.Add: '-', ast.Sub: '+', ast.FloorDiv: '%', ast.Mod: '//'}
        if type(node.op) in swap and not isinstance(node.left, (ast.JoinedStr, ast.List)) and not (isinstance(node.left, ast.Constant) and isinstance(node.left.value, (str, bytes))):
            self.add(node, f'({self.segment(node.left)} {swap[type(node.op)]} {self.segment(node.right)})')
        self.generic_visit(node)

    def visit_Constant(self, node):
        if isinstance(node.value, bool):
            self.add(node, str(not node.value))
        elif isinstance(node.value, int):
            self.add(node, str(node.value + 1))

    def visit_Expr(self, node):
        if isinstance(node.value, ast.Call):
            text = self.segment(node)
            if not any(x in text for x in ('logger', 'print', 'super()')):
                self.add(node, 'pass')
            self.generic_visit(node)

    def visit_Call(self, node):
        if isinstance(node.func, ast.Attribute) and node.func.attr in ('lower', 'strip', 'lstrip', 'rstrip', 'copy', 'normpath', 'abspath', 'realpath', 'sort', 'read', 'encode'):
            self.add(node, self.segment(node.func.value) if node.func.attr not in ('normpath', 'abspath', 'realpath') else self.segment(node.args[0]))
        if isinstance(node.func, ast.Name) and node.func.id in ('max', 'min', 'sorted', 'set', 'int', 'abs', 'list'):
            if node.args:
                self.add(node, f'({self.segment(node.args[0])})')
        self.generic_visit(node)

    def visit_If(self, node):
        self.add(node.test, f'not ({self.segment(node.test)})')
        self.add(node.test, 'False')
        self.generic_visit(node)

    def visit_Continue(self, node):
        self.add(node, 'pass')

    def visit_Break(self, node):
        self.add(node, 'pass')


finder = Finder()
finder.visit(ast.parse(source))
rng = random.Random(int(seed))
rng.shuffle(finder.found)
done = 0
env = {**os.environ, 'VP_REPO': root, 'VP_SHRINK_SECONDS': '0', 'PYTHONDONTWRITEBYTECODE': '1'}
data = source.encode()
starts = [0]
for line in data.split(b'\n'):
    starts.append(starts[-1] + len(line) + 1)
try:
    for l1, c1, l2, c2, text in finder.found:
        if done >= int(count):
            break
        if any('logger' in x or 'progress' in x.lower() or 'print' in x for x in lines[l1 - 1 : l2]):
            continue
        new = data[: starts[l1 - 1] + c1] + text.encode() + data[starts[l2 - 1] + c2 :]
        try:
            compile(new, path, 'exec')
        except SyntaxError:
            continue
        done += 1
        with open(path, 'wb') as file:
            file.write(new)
        result = []
        for check in checks:
            process = subprocess.run(['nice', '-n', '15', '/verif/run.py', check], env=env, capture_output=True, text=True, timeout=1200)
            result.append(process.returncode)
            if process.returncode:
                break
        if not any(result):
            print(f'SURVIVED {target}:{l1}: {" ".join(x.strip() for x in lines[l1 - 1 : l2])[:200]}  -->  {text[:200]}', flush=True)
        else:
            print(f'  {checks[len(result) - 1]} rc {result[-1]}: line {l1} {text[:60]!r}', flush=True)
finally:
    with open(path, 'wb') as file:
        file.write(data)
