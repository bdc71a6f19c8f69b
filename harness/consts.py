"""
Literals of the package's source, used as a dictionary for the generators
(inputs only).
"""
import ast
import functools
import math
import os

from .client import REPO


METHODS = {"startswith", "endswith", "strip", "lstrip", "rstrip", "replace", "split", "find", "count", "removeprefix",
           "removesuffix", "partition", "index", "match", "search", "fullmatch", "sub"}


@functools.lru_cache(None)
def harvest():
    found = set()
    words, compared = set(), set()
    root = os.path.join(REPO, "qctrlopencontrols")
    for directory, _, names in sorted(os.walk(root)):
        for name in sorted(names):
            if not name.endswith(".py"):
                continue
            try:
                with open(os.path.join(directory, name), encoding="utf-8") as handle:
                    tree = ast.parse(handle.read())
            except (SyntaxError, UnicodeDecodeError):
                continue
            for node in ast.walk(tree):
                if (
                    isinstance(node, ast.Constant)
                    and isinstance(node.value, (int, float))
                    and not isinstance(node.value, bool)
                ):
                    value = abs(float(node.value))
                    if math.isfinite(value) and value > 0:
                        found.add(value)
                if isinstance(node, ast.Constant) and isinstance(node.value, str) and len(node.value) <= 40:
                    words.add(node.value)
                # texts that something is compared with, or that are arguments of a text's method
                if isinstance(node, ast.Compare) or (
                    isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr in METHODS
                ):
                    for part in ast.walk(node):
                        if isinstance(part, ast.Constant) and isinstance(part.value, str) and len(part.value) <= 40:
                            compared.add(part.value)
                # simple arithmetic on literals and pi
                if isinstance(node, ast.BinOp):
                    value = _fold(node)
                    if value is not None and math.isfinite(value) and value != 0:
                        found.add(abs(value))
    floats = sorted(found)
    integers = sorted({int(v) for v in floats if v == int(v) and v < 1e7})
    return {"floats": floats, "integers": integers, "words": sorted(words),
            "compared": sorted(compared)}


def _fold(node):
    if isinstance(node, ast.Constant) and isinstance(node.value, (int, float)):
        return float(node.value)
    if isinstance(node, ast.Attribute) and node.attr == "pi":
        return math.pi
    if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.USub):
        value = _fold(node.operand)
        return None if value is None else -value
    if isinstance(node, ast.BinOp):
        left, right = _fold(node.left), _fold(node.right)
        if left is None or right is None:
            return None
        try:
            if isinstance(node.op, ast.Add):
                return left + right
            if isinstance(node.op, ast.Sub):
                return left - right
            if isinstance(node.op, ast.Mult):
                return left * right
            if isinstance(node.op, ast.Div):
                return left / right
            if isinstance(node.op, ast.Pow) and abs(right) < 64:
                value = left ** right
                return value if isinstance(value, float) else None
        except (ZeroDivisionError, OverflowError):
            return None
    return None
