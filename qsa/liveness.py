"""Which local names are temporaries of one loop iteration."""
import ast

_SCOPES = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)


def _names(node):
    for n in ast.walk(node):
        if isinstance(n, ast.Name):
            yield n


def _loads(node, out):
    if node is None:
        return
    for n in _names(node):
        if isinstance(n.ctx, (ast.Load, ast.Del)):
            out.add(n.id)


def _stores(node, out):
    """plain name targets of an assignment target"""
    if isinstance(node, ast.Name):
        out.add(node.id)
    elif isinstance(node, (ast.Tuple, ast.List)):
        for e in node.elts:
            _stores(e, out)
    elif isinstance(node, ast.Starred):
        _stores(node.value, out)


class _Scan(object):
    """names read before they are certainly written, statement by
    statement"""

    def __init__(self):
        self.exposed = set()

    def use(self, node, have):
        s = set()
        _loads(node, s)
        self.exposed |= s - have

    def block(self, body, have):
        have = set(have)
        for s in body:
            have = self.stmt(s, have)
            if have is None:
                return None
        return have

    def stmt(self, s, have):
        if isinstance(s, ast.Assign):
            self.use(s.value, have)
            new = set()
            for t in s.targets:
                self.use(t, have)
                _stores(t, new)
            return have | new
        if isinstance(s, ast.AnnAssign):
            self.use(s.value, have)
            self.use(s.target, have)
            new = set()
            if s.value is not None:
                _stores(s.target, new)
            return have | new
        if isinstance(s, ast.AugAssign):
            self.use(s.value, have)
            for n in _names(s.target):
                if n.id not in have:
                    self.exposed.add(n.id)
            return have
        if isinstance(s, ast.If):
            self.use(s.test, have)
            a = self.block(s.body, have)
            b = self.block(s.orelse, have)
            if a is None:
                return b
            if b is None:
                return a
            return a & b
        if isinstance(s, (ast.For, ast.AsyncFor)):
            self.use(s.iter, have)
            self.use(s.target, have)
            new = set()
            _stores(s.target, new)
            self.block(s.body, have | new)
            self.block(s.orelse, have)
            return have
        if isinstance(s, ast.While):
            self.use(s.test, have)
            self.block(s.body, have)
            self.block(s.orelse, have)
            return have
        if isinstance(s, (ast.With, ast.AsyncWith)):
            new = set()
            for i in s.items:
                self.use(i.context_expr, have)
                if i.optional_vars is not None:
                    self.use(i.optional_vars, have)
                    _stores(i.optional_vars, new)
            return self.block(s.body, have | new)
        if isinstance(s, (ast.Return, ast.Raise)):
            self.use(s, have)
            return None
        if isinstance(s, (ast.Break, ast.Continue)):
            return None
        if isinstance(s, (ast.Expr, ast.Assert, ast.Pass)):
            self.use(s, have)
            return have
        # anything else: every name in it counts as read first
        for n in ast.walk(s):
            if isinstance(n, ast.Name):
                if n.id not in have:
                    self.exposed.add(n.id)
        return have


def loop_temps(fn, loop):
    """names assigned in ``loop`` of function ``fn`` that never carry a
    value from one iteration to the next, nor out of the loop"""
    c = getattr(loop, "_temps", None)
    if c is not None:
        return c
    inside = {}
    for n in ast.walk(loop):
        if isinstance(n, ast.Name):
            inside[n.id] = inside.get(n.id, 0) + 1
    total = {}
    bad = set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Name):
            total[n.id] = total.get(n.id, 0) + 1
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            bad |= set(n.names)
        elif isinstance(n, _SCOPES) and n is not fn:
            for m in ast.walk(n):
                if isinstance(m, ast.Name):
                    bad.add(m.id)
    stored = set()
    for n in ast.walk(loop):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            stored.add(n.id)
    sc = _Scan()
    have = set()
    if isinstance(loop, (ast.For, ast.AsyncFor)):
        _stores(loop.target, have)
        sc.use(loop.target, set())
    else:
        sc.use(loop.test, set())
    sc.block(loop.body, have)
    sc.block(loop.orelse, set())
    a = fn.args if hasattr(fn, "args") else None
    if a is not None:
        bad |= set(p.arg for p in a.posonlyargs + a.args + a.kwonlyargs)
        for p in (a.vararg, a.kwarg):
            if p is not None:
                bad.add(p.arg)
    c = frozenset(n for n in stored if inside[n] == total[n]
                  and n not in sc.exposed and n not in bad)
    loop._temps = c
    return c
