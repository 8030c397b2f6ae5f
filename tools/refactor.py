"""Behaviour-preserving rewriting of the Python files of a tree, to see that the checks stay quiet: python3 tools/refactor.py TREE [FILE...]
Branches are exchanged under negated conditions, comparisons flipped, returned values named, local variables renamed, bodies moved to helpers. With REASSOCIATE=1, products,
quotients and sums are regrouped as well (equal up to rounding)."""
import ast
import os
import subprocess
import sys

FLIP = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}


def simple(e):
    """ evaluation order does not matter """
    return not any(isinstance(n, (ast.Call, ast.Await, ast.Yield, ast.NamedExpr, ast.Lambda, ast.ListComp, ast.GeneratorExp)) for n in ast.walk(e))


class Rewrite(ast.NodeTransformer):
    def __init__(self):
        self.n = 0

    def fresh(self, what):
        self.n += 1
        return '_{}_{}'.format(what, self.n)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if not os.environ.get('REASSOCIATE'):
            return node
        left = node.left
        if isinstance(node.op, ast.Div) and isinstance(left, ast.BinOp) and isinstance(left.op, ast.Div):
            return ast.BinOp(left.left, ast.Div(), ast.BinOp(left.right, ast.Mult(), node.right))
        if isinstance(node.op, ast.Mult) and isinstance(left, ast.BinOp) and isinstance(left.op, ast.Mult):
            return ast.BinOp(left.left, ast.Mult(), ast.BinOp(left.right, ast.Mult(), node.right))
        if isinstance(node.op, ast.Add) and isinstance(left, ast.BinOp) and isinstance(left.op, ast.Add):
            return ast.BinOp(left.left, ast.Add(), ast.BinOp(left.right, ast.Add(), node.right))
        if isinstance(node.op, ast.Pow) and isinstance(node.right, ast.Constant) and node.right.value == 2 and simple(left):
            return ast.BinOp(left, ast.Mult(), left)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and type(node.ops[0]) in FLIP and simple(node.left) and simple(node.comparators[0]):
            return ast.Compare(node.comparators[0], [FLIP[type(node.ops[0])]()], [node.left])
        return node

    def visit_If(self, node):
        self.generic_visit(node)
        if node.orelse:
            return ast.If(ast.UnaryOp(ast.Not(), node.test), node.orelse, node.body)
        return node

    def visit_IfExp(self, node):
        self.generic_visit(node)
        return ast.IfExp(ast.UnaryOp(ast.Not(), node.test), node.orelse, node.body)

    def visit_Return(self, node):
        self.generic_visit(node)
        if node.value is None or isinstance(node.value, ast.Name):
            return node
        name = self.fresh('result')
        return [ast.Assign([ast.Name(name, ast.Store())], node.value), ast.Return(ast.Name(name, ast.Load()))]

    def visit_FunctionDef(self, node):
        self.generic_visit(node)
        stores, args, outer = set(), set(), set()
        for n in ast.walk(node):
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                outer.update(n.names)
            if isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not node:
                return node                     # nested scopes: left alone
            if isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
                for g in n.generators:
                    outer.update(x.id for x in ast.walk(g.target) if isinstance(x, ast.Name))
            if isinstance(n, ast.ExceptHandler) and n.name:
                outer.add(n.name)
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                outer.update((a.asname or a.name).split('.')[0] for a in n.names)
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                stores.add(n.id)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('locals', 'eval', 'exec', 'vars'):
                return node
        args = {a.arg for a in node.args.args + node.args.kwonlyargs + node.args.posonlyargs}
        args |= {a.arg for a in (node.args.vararg, node.args.kwarg) if a}
        for n in ast.walk(node):
            if isinstance(n, ast.Name) and n.id in stores - args - outer:
                n.id = n.id + '_here'
        return node


def helpers(tree):
    """ the bodies of plain module functions and methods move to a helper beside them """
    def split(body, method, where=''):
        out = []
        for node in body:
            if isinstance(node, ast.ClassDef):
                node.body = split(node.body, True, node.name)
            if isinstance(node, ast.FunctionDef) and not node.name.startswith('__') and not node.decorator_list \
                    and not any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(node)) \
                    and not any(isinstance(n, ast.Name) and n.id == '__class__' or isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'super' and not n.args for n in ast.walk(node)) \
                    and not node.args.vararg and not node.args.kwarg and not node.args.kwonlyargs and node.args.args:
                import copy
                helper = copy.deepcopy(node)
                helper.name = '_do_' + where + node.name
                helper.args.defaults = []
                names = [a.arg for a in node.args.args]
                if method:
                    if names[0] != 'self':
                        out.append(node)
                        continue
                    func = ast.Attribute(ast.Name('self', ast.Load()), helper.name, ast.Load())
                    names = names[1:]
                else:
                    func = ast.Name(helper.name, ast.Load())
                node.body = [ast.Return(ast.Call(func, [ast.Name(a, ast.Load()) for a in names], []))]
                out.append(helper)
            out.append(node)
        return out
    tree.body = split(tree.body, False)


def rewrite(path, extract=True):
    tree = ast.parse(open(path).read())
    tree = Rewrite().visit(tree)
    if extract:
        helpers(tree)
    open(path, 'w').write(ast.unparse(ast.fix_missing_locations(tree)) + '\n')


if __name__ == '__main__':
    root = sys.argv[1]
    files = sys.argv[2:] or [f for f in subprocess.check_output(['git', '-C', root, 'ls-files', '*.py'], text=True).split() if not f.startswith('tests/')]
    for f in files:
        p = os.path.join(root, f)
        if os.path.exists(p):
            rewrite(p, os.environ.get('NO_HELPERS') is None)
            print('rewrote', f)
