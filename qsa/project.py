"""Parse the analysed package and resolve its modules, functions, classes."""
import ast
import hashlib
import os

REPO = os.environ.get("QSA_REPO", "/repo")
PACKAGE = "qmix"


class AnalysisBroken(Exception):
    """The analysis lost one of its anchors (not a property violation)."""


class Func(object):
    __slots__ = ("node", "name", "qual", "module", "cls", "kind", "outer")

    def __init__(self, node, name, qual, module, cls=None, kind="plain",
                 outer=None):
        self.node, self.name, self.qual = node, name, qual
        self.module, self.cls, self.kind, self.outer = module, cls, kind, outer

    def __repr__(self):
        return "<Func %s>" % self.qual


class Module(object):
    def __init__(self, name, path, tree, is_pkg):
        self.name, self.path, self.tree, self.is_pkg = name, path, tree, is_pkg


class Project(object):
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.modules = {}
        self.digest = hashlib.sha256()
        root = os.path.join(self.repo, PACKAGE)
        if not os.path.isdir(root):
            raise AnalysisBroken("package %s not found in %s"
                                 % (PACKAGE, self.repo))
        for base, dirs, files in sorted(os.walk(root)):
            dirs.sort()
            for fn in sorted(files):
                if not fn.endswith(".py"):
                    continue
                path = os.path.join(base, fn)
                rel = os.path.relpath(path, self.repo)[:-3]
                parts = rel.split(os.sep)
                is_pkg = parts[-1] == "__init__"
                if is_pkg:
                    parts = parts[:-1]
                with open(path, encoding="utf-8") as fin:
                    src = fin.read()
                self.digest.update(rel.encode() + b"\0" + src.encode())
                tree = ast.parse(src, path)
                name = ".".join(parts)
                for node in ast.walk(tree):
                    node._mod = name
                self.modules[name] = Module(name, path, tree, is_pkg)
        self.n_functions = sum(
            isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef))
            for m in self.modules.values() for n in ast.walk(m.tree))

    # ------------------------------------------------------------------
    def func_nodes(self):
        """All (module, qualname, node) function definitions."""
        for m in self.modules.values():
            stack = [(m.tree, m.name)]
            while stack:
                node, qual = stack.pop()
                for ch in ast.iter_child_nodes(node):
                    if isinstance(ch, (ast.FunctionDef, ast.ClassDef)):
                        q = qual + "." + ch.name
                        if isinstance(ch, ast.FunctionDef):
                            yield m, q, ch
                        stack.append((ch, q))
                    else:
                        stack.append((ch, qual))

    def where(self, node):
        mod = getattr(node, "_mod", None)
        path = self.modules[mod].path if mod in self.modules else "?"
        return "%s:%s" % (os.path.relpath(path, self.repo),
                          getattr(node, "lineno", "?"))


def resolve_import(modname, is_pkg, level, target):
    """Absolute module name for a (possibly relative) import."""
    if not level:
        return target or ""
    parts = modname.split(".")
    if not is_pkg:
        parts = parts[:-1]
    if level > 1:
        parts = parts[:len(parts) - (level - 1)]
    base = ".".join(parts)
    return base + ("." + target if target else "")
