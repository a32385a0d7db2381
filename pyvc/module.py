"""A module of the repository as the executor sees it."""
import ast, os
from .core import *
from .interp import Interp


def load(it, path, natives=()):
    """run the module's top level; returns its scope"""
    tree = ast.parse(open(path, encoding="utf-8").read(), path)
    it.env = it.new(Env({}, None)).i
    nat = dict(natives)
    for s in tree.body:
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            for a in s.names:
                n = a.asname or a.name
                if n != "annotations":
                    it.assign(n, nat.get(n, Native(a.name, a.name)))
        elif isinstance(s, ast.ClassDef):
            it.assign(s.name, Cls(s.name, s, it.env))
        elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
            pass
        else:
            it.st_(s)
    return it.env
