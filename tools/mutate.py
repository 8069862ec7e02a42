"""Mutation test of the deductive machinery: python3-vt tools/mutate.py PROP FILE [FUNC ...] [--max N] [--seed S].
Every mutant is written to a scratch copy of the sources; survivors are printed for review (many are equivalent)."""
import ast
import copy
import random
import shutil
import subprocess
import sys
import os
import tempfile

SW = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.Div: ast.Mult, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.And: ast.Or, ast.Or: ast.And}
NAMES = [('A', 'A_T'), ('B', 'B_T'), ('H', 'H_T'), ('D_v_neg_1', 'D_v_neg_1_2'), ('D_v', 'D_v_neg_1'), ('D_v_in', 'D_v_out'), ('D_v_in_neg_1', 'D_v_out_neg_1'), ('num_u', 'num_v'), ('src', 'dst'), ('D_u_neg_1', 'D_v_neg_1'), ('D_u', 'D_v'), ('e', 'e_both_side'), ('keys', 'values'), ('min', 'max'), ('extend', 'append'), ('argmax', 'argmin'), ('floor', 'ceil')]


def mutants(tree, fns):
    for n in ast.walk(tree):       # annotations have no behaviour
        if isinstance(n, ast.FunctionDef):
            n.returns = None
            for x in n.args.args + n.args.kwonlyargs + n.args.posonlyargs:
                x.annotation = None
    for cls in ast.walk(tree):
        if isinstance(cls, (ast.FunctionDef,)) and (not fns or cls.name in fns):
            for n in ast.walk(cls):
                yield from node_mut(cls, n)


def node_mut(fn, n):
    if isinstance(n, ast.Compare) and type(n.ops[0]) in SW:
        yield fn, n, 'ops', [SW[type(n.ops[0])]()] + n.ops[1:]
    if isinstance(n, (ast.BinOp, ast.BoolOp, ast.AugAssign)) and type(n.op) in SW:
        yield fn, n, 'op', SW[type(n.op)]()
    if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Sub, ast.Div)):
        yield fn, n, ('left', 'right'), (n.right, n.left)
    if isinstance(n, ast.Constant):
        if isinstance(n.value, bool):
            yield fn, n, 'value', not n.value
        elif isinstance(n.value, (int, float)):
            yield fn, n, 'value', n.value + 1
            if n.value > 0:
                yield fn, n, 'value', n.value - 1
    if isinstance(n, ast.If):
        yield fn, n, 'test', ast.UnaryOp(ast.Not(), n.test)
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
        yield fn, n, 'op', ast.UAdd() if isinstance(n.op, ast.USub) else ast.UAdd()
    if isinstance(n, ast.Attribute):
        for a, b in NAMES:
            if n.attr == a:
                yield fn, n, 'attr', b
            if n.attr == b:
                yield fn, n, 'attr', a
    if isinstance(n, ast.Name):
        for a, b in NAMES:
            if n.id == a:
                yield fn, n, 'id', b
            if n.id == b:
                yield fn, n, 'id', a
    if isinstance(n, ast.Call) and len(n.args) >= 2:
        yield fn, n, 'args', [n.args[1], n.args[0]] + n.args[2:]
    if isinstance(n, ast.Call) and n.keywords:
        yield fn, n, 'keywords', n.keywords[1:]
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('clone', 'copy', 'coalesce', 't') and not n.args:
        yield fn, n, 'REPL', n.func.value
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('deepcopy', 'sorted', 'list', 'set', 'reversed', 'abs') and len(n.args) == 1:
        yield fn, n, 'REPL', n.args[0]
    for fld in ('body', 'orelse'):
        b = getattr(n, fld, None)
        if isinstance(b, list):
            for i, s in enumerate(b):
                if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete)) and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                    yield fn, n, fld, b[:i] + [ast.Pass()] + b[i + 1:]
    if isinstance(n, ast.Tuple) and len(n.elts) == 2 and isinstance(n.ctx, ast.Load):
        yield fn, n, 'elts', [n.elts[1], n.elts[0]]
    if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Tuple) and len(n.slice.elts) == 2:
        yield fn, n, 'slice', ast.Tuple([n.slice.elts[1], n.slice.elts[0]], ast.Load())


def apply(tree, n, fld, val):
    """(text of the mutant, before, after) or None."""
    before = ast.unparse(n)[:160]
    save = copy.copy(n.__dict__)
    if fld == 'REPL':
        n.__dict__['__repl'] = True
        text = ast.unparse(Repl(n, val).visit(copy_tree(tree, n)))
        after = ast.unparse(val)
    else:
        for f, v in (zip(fld, val) if isinstance(fld, tuple) else [(fld, val)]):
            setattr(n, f, v)
        after = ast.unparse(n)[:160]
        text = ast.unparse(tree)
    n.__dict__.clear()
    n.__dict__.update(save)
    if before == after and fld not in ('body', 'orelse'):
        return None
    return text, before, after


def main():
    a = sys.argv[1:]
    mx, seed = 60, 1
    if '--max' in a:
        i = a.index('--max'); mx = int(a[i + 1]); del a[i:i + 2]
    if '--seed' in a:
        i = a.index('--seed'); seed = int(a[i + 1]); del a[i:i + 2]
    prop, file, fns = a[0], a[1], a[2:]
    src = open('/repo/' + file).read()
    tree = ast.parse(src)
    ms = list(mutants(tree, fns))
    random.Random(seed).shuffle(ms)
    ms = ms[:mx]
    d = tempfile.mkdtemp(prefix='mut', dir='/tmp')
    shutil.copytree('/repo/dhg', d + '/dhg')
    surv = kill = und = 0
    try:
        for fn, n, fld, val in ms:
            before = ast.unparse(n)[:160]
            save = copy.copy(n.__dict__)
            if fld == 'REPL':
                n.__dict__['__repl'] = True
                new = Repl(n, val).visit(copy_tree(tree, n))
                text = ast.unparse(new)
                after = ast.unparse(val)
            else:
                for f, v in (zip(fld, val) if isinstance(fld, tuple) else [(fld, val)]):
                    setattr(n, f, v)
                after = ast.unparse(n)[:160]
                text = ast.unparse(tree)
            n.__dict__.clear()
            n.__dict__.update(save)
            if before == after and fld not in ('body', 'orelse'):
                continue
            open(d + '/' + file, 'w').write(text)
            r = subprocess.run(['python3-vt', os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'pyvc/main.py'), prop, '--repo', d], capture_output=True, text=True, timeout=900)
            last = (r.stdout.strip().splitlines() or ['crash ' + r.stderr[-300:]])[-1]
            f = int(last.split(' failed')[0].split()[-1]) if ' failed' in last else -1
            u = int(last.split(' undecided')[0].split()[-1]) if ' undecided' in last else -1
            if f > 0:
                kill += 1
            elif u > 0:
                und += 1
                print('UNDECIDED', fn.name, n.lineno, before.replace('\n', '; '), '=>', after.replace('\n', '; '), '|', last, flush=True)
            else:
                surv += 1
                print('SURVIVED', fn.name, n.lineno, fld, before.replace('\n', '; '), '=>', after.replace('\n', '; '), '|', last, flush=True)
    finally:
        shutil.rmtree(d)
    print('mutants: %d killed, %d undecided, %d survived' % (kill, und, surv))


def copy_tree(tree, n):
    return copy.deepcopy(tree)


class Repl(ast.NodeTransformer):
    def __init__(self, n, val):
        self.val = val

    def visit(self, node):
        if getattr(node, '__repl', False) or node.__dict__.get('__repl'):
            return copy.deepcopy(self.val)
        return self.generic_visit(node)


if __name__ == '__main__':
    main()
