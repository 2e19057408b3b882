"""refactor.py SRC DST: copy of SRC in which all code is rewritten
mechanically without changing what it does

 * comparisons are turned around (a <= b -> b >= a)
 * x += y -> x = x + y, if/else and conditional expressions are negated
 * functions defined in functions are renamed, as are their local variables
 * comprehensions that make lists are written as list(generator)
 * comments and formatting are lost

Checks have to stay quiet: VERIF_REPO=DST ./check.py ...
"""

import ast
import pathlib
import shutil
import sys

FLIP = {
    ast.LtE: ast.GtE,
    ast.GtE: ast.LtE,
    ast.Lt: ast.Gt,
    ast.Gt: ast.Lt,
    ast.Eq: ast.Eq,
    ast.NotEq: ast.NotEq,
}


class Rewrite(ast.NodeTransformer):
    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and type(node.ops[0]) in FLIP:
            return ast.Compare(
                left=node.comparators[0],
                ops=[FLIP[type(node.ops[0])]()],
                comparators=[node.left],
            )
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if isinstance(node.target, ast.Name):
            return ast.Assign(
                targets=[node.target],
                value=ast.BinOp(
                    left=ast.Name(node.target.id, ast.Load()),
                    op=node.op,
                    right=node.value,
                ),
            )
        return node

    def visit_If(self, node):
        self.generic_visit(node)
        if node.orelse:
            return ast.If(
                test=ast.UnaryOp(ast.Not(), node.test),
                body=node.orelse,
                orelse=node.body,
            )
        return node

    def visit_IfExp(self, node):
        self.generic_visit(node)
        return ast.IfExp(
            test=ast.UnaryOp(ast.Not(), node.test),
            body=node.orelse,
            orelse=node.body,
        )

    def visit_ListComp(self, node):
        self.generic_visit(node)
        return ast.Call(
            func=ast.Name("list", ast.Load()),
            args=[ast.GeneratorExp(node.elt, node.generators)],
            keywords=[],
        )


class Names(ast.NodeTransformer):
    def __init__(self, table):
        self.table = table

    def visit_Name(self, node):
        node.id = self.table.get(node.id, node.id)
        return node

    def visit_FunctionDef(self, node):
        node.name = self.table.get(node.name, node.name)
        self.generic_visit(node)
        return node


def own_names(fn):
    """names assigned in a function (not its arguments)"""
    names = set()
    skip = {a.arg for a in ast.walk(fn) if isinstance(a, ast.arg)}
    for x in ast.walk(fn):
        if isinstance(x, (ast.Global, ast.Nonlocal)):
            skip |= set(x.names)
        if isinstance(x, (ast.Import, ast.ImportFrom)):
            skip |= {a.asname or a.name for a in x.names}
        if isinstance(x, ast.ExceptHandler) and x.name:
            skip.add(x.name)
        if isinstance(x, (ast.MatchAs, ast.MatchStar)) and x.name:
            skip.add(x.name)
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
            names.add(x.id)
        if isinstance(x, ast.FunctionDef) and x is not fn:
            names.add(x.name)
        if isinstance(x, ast.ClassDef):
            skip.add(x.name)
    return {n for n in names - skip if not n.startswith("__")}


def rename(tree):
    todo = list(tree.body)
    while todo:
        x = todo.pop()
        if isinstance(x, ast.ClassDef):
            todo += x.body
        elif isinstance(x, ast.FunctionDef):
            body = ast.Module(x.body, [])
            Names({n: f"{n}_r" for n in own_names(x)}).visit(body)


def main(src, dst):
    shutil.copytree(src, dst, symlinks=True)
    for path in sorted(pathlib.Path(dst, "src").rglob("*.py")):
        tree = ast.parse(path.read_text())
        rename(tree)
        tree = ast.fix_missing_locations(Rewrite().visit(tree))
        path.write_text(ast.unparse(tree) + "\n")


if __name__ == "__main__":
    main(*sys.argv[1:])
