"""Loads the modules of /repo/src/mud from their current source and executes them under
CPython against the symbolic libraries.

What the load changes in the text (and nothing else):
  * comprehensions become calls of a helper that behaves like the comprehension on
    concrete iterables and yields a symbolic list on symbolic ones;
  * the iterable of a `for` statement goes through a helper (identity on concrete
    iterables);
  * the names of some builtins (len, range, isinstance, ...) resolve to versions that
    accept symbolic values.
"""
import ast
import builtins
import os
import sys
import types

from . import terms as T
from . import symnp as S
from . import stubs
from . import loops
from .terms import I, R, N, cmp
from .ctx import (ctx, Unsupported, prog_raise, SymInt, SymReal, SymBool, mkint, mkbool, to_R, to_I, to_B)

SRC = os.environ.get("PYVC_SRC", "/repo/src")
HERE = os.path.dirname(os.path.abspath(__file__))
_real_import = builtins.__import__


# ------------------------------------------------------------- AST transform

def _flat(t):
    if isinstance(t, ast.Name):
        return [t.id]
    if isinstance(t, (ast.Tuple, ast.List)):
        out = []
        for e in t.elts:
            f = _flat(e)
            if f is None:
                return None
            out += f
        return out
    return None


def _pat(t):
    if isinstance(t, ast.Name):
        return ast.Constant(None)
    return ast.Tuple([_pat(e) for e in t.elts], ast.Load())


class Tx(ast.NodeTransformer):
    def _comp(self, node, kind):
        self.generic_visit(node)
        elt = ast.Tuple([node.key, node.value], ast.Load()) if kind == "dict" else node.elt
        gens = node.generators
        if len(gens) != 1 or gens[0].is_async:
            return node
        g = gens[0]
        names = _flat(g.target)
        if names is None or len(set(names)) != len(names):
            return node
        if any(isinstance(x, (ast.NamedExpr, ast.Yield, ast.Await)) for x in ast.walk(node)):
            return node

        def lam(body):
            return ast.Lambda(ast.arguments(posonlyargs=[], args=[ast.arg(n) for n in names],
                                            kwonlyargs=[], kw_defaults=[], defaults=[]), body)
        conds = ast.List([lam(c) for c in g.ifs], ast.Load())
        new = ast.Call(ast.Name("_pyvc_comp", ast.Load()),
                       [ast.Constant(kind), lam(elt), g.iter, _pat(g.target), conds], [])
        return ast.copy_location(new, node)

    def visit_ListComp(self, node):
        return self._comp(node, "list")

    def visit_GeneratorExp(self, node):
        return self._comp(node, "gen")

    def visit_SetComp(self, node):
        return self._comp(node, "set")

    def visit_DictComp(self, node):
        return self._comp(node, "dict")

    # -- statements of functions: lists and loops
    infun = 0
    nloop = 0

    def _fun(self, node):
        if hasattr(node, "args"):
            node.args = self.visit(node.args)
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        save = self.infun, getattr(self, "nonloc", set())
        self.infun = 1
        self.nonloc = {n for x in ast.walk(node) if isinstance(x, (ast.Global, ast.Nonlocal)) for n in x.names}
        body = []
        for b in node.body:
            r = self.visit(b)
            body += r if isinstance(r, list) else [r]
        node.body = body
        self.infun, self.nonloc = save
        return node

    visit_FunctionDef = _fun

    def visit_ClassDef(self, node):
        save, self.infun = self.infun, 0
        self.generic_visit(node)
        self.infun = save
        return node

    def visit_List(self, node):
        self.generic_visit(node)
        if not self.infun or not isinstance(node.ctx, ast.Load):
            return node
        return ast.copy_location(ast.Call(ast.Name("_pyvc_L", ast.Load()), [node], []), node)

    def visit_For(self, node):
        ok = self.infun and not node.orelse and not node.type_comment and eligible(node)
        if ok:
            names = sorted(stored(node))
            bad = set()
            definite(node.body, set(_flat(node.target)), bad)
            fresh = [n for n in names if n not in bad]
            ok = not (set(names) & self.nonloc)
        self.generic_visit(node)
        if not ok:
            node.iter = ast.copy_location(ast.Call(ast.Name("_pyvc_iter", ast.Load()), [node.iter], []), node.iter)
            return node
        Tx.nloop += 1
        L = f"_pyvc_L{Tx.nloop}"
        sets = "".join(f"\n            if {L}.has({n!r}): {n} = {L}.val" for n in names if n not in fresh)
        outs = "".join(f"\n    if {L}.has({n!r}): {n} = {L}.val" for n in names)
        src = (f"{L} = _pyvc_loop(None, {names!r}, {fresh!r})\n"
               f"try:\n    for _ in {L}:\n        if {L}.sym:\n            {L}.begin(locals()){sets}\n"
               f"        if {L}.sym: {L}.end(locals())\n"
               f"except BaseException:\n    {L}.abort()\n    raise\n"
               f"if {L}.sym:\n    {L}.finish(){outs}\n")
        new = ast.parse(src).body
        new[0].value.args[0] = node.iter
        f = new[1].body[0]
        f.target = node.target
        f.body[1:1] = node.body
        for n in new:
            for x in ast.walk(n):
                if not hasattr(x, "lineno"):
                    continue
                if x.lineno <= len(src.split("\n")) and not getattr(x, "_orig", False):
                    pass
        own = {id(x) for b in node.body + [node.iter, node.target] for x in ast.walk(b)}
        for n in new:
            for x in ast.walk(n):
                if id(x) not in own and hasattr(x, "lineno"):
                    x.lineno, x.col_offset, x.end_lineno, x.end_col_offset = node.lineno, 0, node.lineno, 0
        return new


def eligible(node):
    """no way out of the loop but its end and exceptions"""
    if _flat(node.target) is None:
        return False

    def walk(n, inner):
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            return True
        if isinstance(n, (ast.Return, ast.Yield, ast.YieldFrom, ast.Await, ast.Delete, ast.Global, ast.Nonlocal,
                          ast.AsyncFor, ast.AsyncWith, ast.NamedExpr)):
            return False
        if isinstance(n, (ast.Break, ast.Continue)) and not inner:
            return False
        return all(walk(c, inner or isinstance(n, (ast.For, ast.While)) and c in n.body) for c in ast.iter_child_nodes(n))
    return all(walk(b, False) for b in node.body)


def stored(node):
    """names the statement may assign"""
    out = set()

    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
            return
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            out.update((a.asname or a.name).split(".")[0] for a in n.names)
        for c in ast.iter_child_nodes(n):
            walk(c)
    walk(node)
    return out


def _loads(n):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}


def definite(stmts, known, bad):
    """names assigned for certain after the statements; bad: names read where they may not have been assigned"""
    known = set(known)
    for s in stmts:
        if isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
            tg = s.targets if isinstance(s, ast.Assign) else [s.target]
            rd = _loads(s)
            if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name):
                rd = rd | {s.target.id}
            bad |= rd - known
            for t in tg:
                known |= {x.id for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        elif isinstance(s, ast.If):
            bad |= _loads(s.test) - known
            a = definite(s.body, known, bad)
            b = definite(s.orelse, known, bad)
            known |= a & b
        elif isinstance(s, ast.For):
            bad |= _loads(s.iter) - known
            definite(s.body, known | set(_flat(s.target) or []), bad)
            definite(s.orelse, known, bad)
        else:
            bad |= _loads(s) - known
            if isinstance(s, (ast.FunctionDef, ast.Import, ast.ImportFrom)):
                known |= stored(s)
    return known


# ------------------------------------------------------------- helpers

def is_symbolic_iter(it):
    if isinstance(it, loops.PList):
        return it.sg is not None
    if isinstance(it, S.SymList):
        return ctx().norm(it.n).cval() is None
    if isinstance(it, S.SymArray):
        return it.ndim > 0 and ctx().norm(it._shape[0]).cval() is None
    return False


def as_symlist(it):
    if isinstance(it, loops.PList):
        return it.symlist()
    if isinstance(it, S.SymList):
        return it
    if isinstance(it, S.SymArray):
        return S.SymList(it._shape[0], lambda k, it=it: it[mkint(k)] if not it.ndim == 1 else S.wrap_scalar(it.at(k), it.kind))
    raise Unsupported("symbolic iteration")


def bind(pat, v, out):
    if pat is None:
        out.append(v)
        return
    vs = list(v)
    if len(vs) != len(pat):
        prog_raise(ValueError("not enough values to unpack" if len(vs) < len(pat) else
                              "too many values to unpack"))
    for p, x in zip(pat, vs):
        bind(p, x, out)


def comp(kind, fn, it, pat, conds):
    if is_symbolic_iter(it):
        if conds or kind in ("set", "dict"):
            raise Unsupported("filtered comprehension over a symbolic extent")
        fn = frozen(fn)

        def mk(get):
            def elem(k):
                out = []
                bind(pat, get(k), out)
                return fn(*out)
            return elem
        if isinstance(it, loops.PList):
            r = loops.PList()
            sg = []
            for s in it._segs():
                if s.items is not None:
                    sg.append(loops.Seg([mk(lambda k, x=x: x)(None) for x in s.items]))
                else:
                    g = generic_list(s.n, mk(s.get))
                    sg.append(loops.Seg(n=s.n, get=g.fn))
            r._set(sg)
            return r
        sl = as_symlist(it)
        return generic_list(sl.n, mk(sl.fn))
    res = []
    for v in it:
        out = []
        bind(pat, v, out)
        if all(bool(c(*out)) for c in conds):
            res.append(fn(*out))
    if kind == "list":
        return loops.PList(res)
    if kind == "gen":
        return iter(res)
    if kind == "set":
        return set(res)
    return dict(res)


def frozen(fn):
    """the function with the values its variables have now"""
    if not isinstance(fn, types.FunctionType) or not fn.__closure__:
        return fn
    cells = []
    for c in fn.__closure__:
        try:
            cells.append(types.CellType(c.cell_contents))
        except ValueError:
            cells.append(c)
    f = types.FunctionType(fn.__code__, fn.__globals__, fn.__name__, fn.__defaults__, tuple(cells))
    f.__kwdefaults__ = fn.__kwdefaults__
    return f


def generic_list(n, elem):
    """evaluate the element once at a generic position (errors and side effects show up
    here), later by re-evaluation"""
    c = ctx()
    ev, pos = loops.content(c.events), c.rngpos
    v = T.fresh("g")
    k = I.var(v, c.norm(I.of(n)))
    c.generic += 1
    try:
        elem(k)
    finally:
        c.generic -= 1
    if c.rngpos is not pos and c.rngpos != pos or not loops.same_content(ev, loops.content(c.events)):
        raise Unsupported("side effects in a comprehension over a symbolic extent")

    def fn(k):
        c = ctx()
        c.generic += 1
        try:
            return elem(I.of(k))
        finally:
            c.generic -= 1
    return S.SymList(n, fn)


def b_loop(it, names, fresh):
    if is_symbolic_iter(it):
        if ctx().generic:
            raise Unsupported("loop over a symbolic extent inside a comprehension")
        sl = as_symlist(it)
        return loops.Loop(sl.n, sl.fn, names, fresh)
    return loops.Concrete(it)


def loop_iter(it):
    if is_symbolic_iter(it):
        raise Unsupported("loop over a symbolic extent")
    return it


# ------------------------------------------------------------- builtins

class SymRange(S.SymList):
    def __init__(self, n, fn, start, step):
        super().__init__(n, fn)
        self.start, self.step = start, step


def b_range(*a):
    if all(isinstance(x, int) for x in a):
        return range(*a)
    for x in a:
        if isinstance(x, (float, SymReal)):
            prog_raise(TypeError("'float' object cannot be interpreted as an integer"))
        if not isinstance(x, (int, SymInt)) and not hasattr(x, "__index__"):
            prog_raise(TypeError("object cannot be interpreted as an integer"))
    start, stop, step = 0, None, 1
    if len(a) == 1:
        stop = a[0]
    elif len(a) == 2:
        start, stop = a
    else:
        start, stop, step = a
    if not isinstance(step, int):
        raise Unsupported("symbolic range step")
    if step == 0:
        prog_raise(ValueError("range() arg 3 must not be zero"))
    s, e = to_I(start), to_I(stop)
    if step == 1:
        n = ctx().norm(e - s)
    else:
        d = e - s if step > 0 else s - e
        n = ctx().norm(T.i_div(d + (abs(step) - 1), I.const(abs(step))))
    if n.cval() is not None:
        n = I.const(max(0, n.cval()))
    elif not ctx().decide(cmp("<=", I.const(0), n)):
        n = I.const(0)
    return SymRange(n, lambda k: mkint(s + k * step), s, step)


def b_len(x):
    if isinstance(x, S.SymArray):
        return x._len()
    if isinstance(x, S.SymList):
        return mkint(x.n)
    if isinstance(x, loops.PList):
        return x._len()
    return len(x)


class _PyType:
    """float / int / bool as callables and as type names"""

    def __init__(self, py):
        self._pyvc_py = py
        self.__name__ = py.__name__

    def __repr__(self):
        return repr(self._pyvc_py)

    def __eq__(self, o):
        return o is self or o is self._pyvc_py

    def __hash__(self):
        return hash(self._pyvc_py)

    def __or__(self, o):
        return self

    __ror__ = __or__


class _Float(_PyType):
    def __call__(self, x=0.0):
        if isinstance(x, S.SymArray):
            if isinstance(x.size, int) and x.size == 1:
                x = x._as_scalar()
            elif ctx().decide(cmp("==", to_I(x.size), I.const(1))):
                x = x._as_scalar()
            else:
                prog_raise(TypeError("only length-1 arrays can be converted to Python scalars"))
        if isinstance(x, (SymInt, SymReal, SymBool)):
            return SymReal(to_R(x))
        return float(x)


class _Int(_PyType):
    def __call__(self, x=0, *a):
        if isinstance(x, S.SymArray):
            x = x._as_scalar()
        if isinstance(x, SymInt):
            return mkint(x.i)
        if isinstance(x, SymBool):
            return mkint(T.ite(x.b, I.const(1), I.const(0)))
        if isinstance(x, SymReal):
            i = x.r.as_I()
            if i is not None:
                return mkint(i)
            c = x.r.cval()
            if c is not None:
                return int(c)
            return SymInt(I.atom(N("ia", "truncI", x.r)))
        return int(x, *a)


class _Bool(_PyType):
    def __call__(self, x=False):
        return bool(x)


P_FLOAT, P_INT, P_BOOL = _Float(float), _Int(int), _Bool(bool)


def b_isinstance(x, t):
    if isinstance(t, tuple):
        return any(b_isinstance(x, y) for y in t)
    if t is LIST:
        return isinstance(x, (list, S.SymList))
    p = getattr(t, "_pyvc_py", None)
    if p is float:
        return isinstance(x, (float, SymReal))
    if p is int:
        return isinstance(x, int) and not isinstance(x, S.NPInt) or isinstance(x, SymInt) and not x.np
    if p is bool:
        return isinstance(x, (bool, SymBool))
    if isinstance(t, S.NPType):
        if t.kind_ == "n":
            return isinstance(x, (SymReal, SymInt, S.NPInt)) and x.np
        if t.kind_ == "i" and isinstance(x, S.NPInt):
            return True
        return t._isinstance(x)
    if isinstance(t, (stubs.Opaque, stubs.TypingName, stubs.Recorder)):
        raise Unsupported("isinstance of a library type")
    if isinstance(x, S.SymList):
        return t is list or t is object
    if isinstance(x, (SymInt, SymReal, SymBool)):
        import numbers
        if t in (numbers.Number, numbers.Real):
            return True
        return t is object or t in (SymInt, SymReal)
    return isinstance(x, t)


def b_sum(x, start=0):
    if isinstance(x, loops.PList) and x.sg is not None:
        r = start
        for s in x._segs():
            r = b_sum(s.items if s.items is not None else S.SymList(s.n, s.get), r)
        return r
    if isinstance(x, S.SymList):
        x = S.stack_symlist(x)
    if isinstance(x, S.SymArray) and x.ndim >= 1 and is_symbolic_iter(x):
        r = S.np_sum(x, axis=0)
        return r if start == 0 else start + r
    r = start
    for y in x:
        r = r + y
    return r


def _minmax(kind):
    def f(*a, **k):
        xs = a[0] if len(a) == 1 else a
        if k and is_symbolic_iter(xs):
            if set(k) != {"key"} or k["key"] is None:
                raise Unsupported("min/max with a default")
            sl = as_symlist(xs)
            if not bool(mkint(sl.n) > 0):
                prog_raise(ValueError(f"{kind}() arg is an empty sequence"))
            vals = S.stack_symlist(S.SymList(sl.n, lambda i: k["key"](sl.fn(i))))
            if vals.ndim != 1:
                raise Unsupported("min/max by a key that is an array")
            j = (S.np_argmin if kind == "min" else S.np_argmax)(vals)
            return sl.fn(to_I(j))
        if isinstance(xs, loops.PList) and xs.sg is not None:
            xs = S.array(xs)
        if isinstance(xs, S.SymList):
            xs = S.stack_symlist(xs)
        if isinstance(xs, S.SymArray):
            if xs.ndim == 1:
                return S.np_min(xs) if kind == "min" else S.np_max(xs)
            raise Unsupported("min/max of rows")
        if k:
            return (min if kind == "min" else max)(xs, **k)
        xs = list(xs)
        r = None
        for i, y in enumerate(xs):
            if i == 0:
                r = y
            elif (bool(y < r) if kind == "min" else bool(y > r)):
                r = y
        if not xs:
            prog_raise(ValueError(f"{kind}() arg is an empty sequence"))
        return r
    return f


def b_zip(*xs, **k):
    if any(is_symbolic_iter(x) for x in xs):
        n = None
        for x in xs:
            m = ctx().norm(to_I(x._len()) if isinstance(x, loops.PList) else x.n if isinstance(x, S.SymList) else x._shape[0] if isinstance(x, S.SymArray) else I.const(len(x)))
            if n is None or n == m:
                n = m
            elif ctx().decide(cmp("<=", m, n)):
                n = m
        fs = [as_symlist(x).fn if isinstance(x, (S.SymList, S.SymArray, loops.PList)) else (lambda k, x=x: x[mkint(k)]) for x in xs]
        if n.cval() is not None:
            return zip(*[[f(I.const(j)) for j in range(n.cval())] for f in fs])
        return S.SymList(n, lambda k: tuple(f(k) for f in fs))
    return zip(*xs, **k)


def b_enumerate(x, start=0):
    if is_symbolic_iter(x):
        sl = as_symlist(x)
        return S.SymList(sl.n, lambda k: (mkint(k + start), sl.fn(k)))
    return enumerate(x, start)


def b_all(x):
    if isinstance(x, loops.PList) and x.sg is not None:
        x = x.symlist()
    if isinstance(x, S.SymList):
        return bool(S.np_all(S.stack_symlist(x)))
    if isinstance(x, S.SymArray):
        return bool(S.np_all(x))
    for y in x:
        if not y:
            return False
    return True


def b_any(x):
    if isinstance(x, loops.PList) and x.sg is not None:
        x = x.symlist()
    if isinstance(x, S.SymList):
        return bool(S.np_any(S.stack_symlist(x)))
    if isinstance(x, S.SymArray):
        return bool(S.np_any(x))
    for y in x:
        if y:
            return True
    return False


class _ListMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (list, S.SymList))

    def __call__(cls, x=()):
        if is_symbolic_iter(x):
            r = loops.PList()
            r._set(loops.segs_of(x))
            return r
        return loops.PList(x)

    def __eq__(cls, o):
        return o is cls or o is list or o is loops.PList

    def __hash__(cls):
        return hash(list)


class LIST(list, metaclass=_ListMeta):
    """list"""


def b_tuple(x=()):
    if is_symbolic_iter(x):
        return as_symlist(x)
    return tuple(x)


def b_map(f, *xs):
    if any(is_symbolic_iter(x) for x in xs):
        z = b_zip(*xs)
        return generic_list(z.n, lambda k: f(*z.fn(k)))
    return map(f, *xs)


def b_reversed(x):
    if is_symbolic_iter(x):
        sl = as_symlist(x)
        return S.SymList(sl.n, lambda k: sl.fn(sl.n - 1 - k))
    return reversed(x)


def b_print(*a, **k):
    ctx().events.append(("print", tuple(str(x) for x in a)))


class File:
    """a file of the contract's file system, opened"""

    def __init__(self, path):
        self.path = path

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


def b_open(path, mode="r", *a, **k):
    f = ctx().files
    if not isinstance(path, str) or mode not in ("r", "rb"):
        raise Unsupported("file access")
    if path not in f:
        prog_raise(FileNotFoundError(2, "No such file or directory", path))
    return File(path)


def pickle_load(fp, *a, **k):
    if not isinstance(fp, File):
        raise Unsupported("pickle.load")
    return ctx().files[fp.path]


def b_sorted(x, **k):
    if is_symbolic_iter(x):
        raise Unsupported("sorted")
    xs = list(x)
    return sorted(xs, **k)


def b_hash_ok(x):
    return x


class TList(type):
    pass


def make_builtins(imp):
    d = dict(vars(builtins))
    d.update({
        "len": b_len, "range": b_range, "isinstance": b_isinstance, "sum": b_sum,
        "min": _minmax("min"), "max": _minmax("max"), "zip": b_zip, "enumerate": b_enumerate,
        "all": b_all, "any": b_any, "float": P_FLOAT, "int": P_INT,
        "map": b_map, "reversed": b_reversed, "print": b_print, "open": b_open, "sorted": b_sorted,
        "_pyvc_loop": b_loop, "_pyvc_L": loops.PList, "list": LIST, "_pyvc_comp": comp, "_pyvc_iter": loop_iter, "__import__": imp,
    })
    return d


ALLOWED_STD = {"typing", "logging", "pathlib", "ast", "json", "re", "random", "sys", "os", "math",
               "itertools", "functools", "collections", "warnings", "copy", "datetime", "time", "abc", "enum",
               "dataclasses", "numbers", "importlib", "importlib.metadata", "contextlib", "operator", "types",
               "argparse", "collections.abc", "__future__", "string", "textwrap", "inspect", "io", "platform"}
MISSING = {"xarray", "dolfin", "fenics", "importlib_metadata"}

_CODE = {}


def code_for(path):
    st = os.stat(path)
    key = (path, st.st_mtime_ns, st.st_size)
    if key not in _CODE:
        src = open(path, encoding="utf-8").read()
        tree = ast.parse(src, path)
        tree = ast.fix_missing_locations(Tx().visit(tree))
        _CODE[key] = compile(tree, path, "exec")
    return _CODE[key]


class World:
    """one fresh instance of the mud package on the symbolic libraries"""

    def __init__(self):
        self.mods = {}
        self.ext = {}
        self.ext.update(stubs.build_numpy())
        self.ext.update(stubs.build_scipy())
        self.ext.update(stubs.build_sklearn())
        self.ext.update(stubs.build_misc())
        self.ext["pickle"] = stubs.Mod("pickle", {"load": pickle_load})
        self.builtins = make_builtins(self.imp)
        self.loading = True

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals.get("__package__") or ""
            base = pkg.split(".")
            if level > 1:
                base = base[:-(level - 1)]
            name = ".".join(base + ([name] if name else []))
        root = name.split(".")[0]
        if root == "mud":
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if f != "*" and not hasattr(m, f):
                        try:
                            self.load(name + "." + f)
                        except ModuleNotFoundError:
                            pass
                return m
            return self.load("mud")
        if name in self.ext:
            if fromlist:
                return self.ext[name]
            return self.ext[root]
        if root in self.ext:
            m = self.ext.get(root)
            for part in name.split(".")[1:]:
                m = getattr(m, part)
            return m if fromlist else self.ext[root]
        if root in MISSING:
            prog_raise(ModuleNotFoundError(f"No module named '{root}'"))
        if name in ALLOWED_STD or root in ALLOWED_STD:
            return _real_import(name, None, None, fromlist, 0)
        raise Unsupported(f"import of {name}")

    def path(self, name):
        p = os.path.join(SRC, *name.split("."))
        if os.path.isdir(p) and os.path.exists(os.path.join(p, "__init__.py")):
            return os.path.join(p, "__init__.py"), True
        if os.path.exists(p + ".py"):
            return p + ".py", False
        prog_raise(ModuleNotFoundError(f"No module named '{name}'"))

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        parent = None
        if "." in name:
            parent = self.load(name.rsplit(".", 1)[0])
            if name in self.mods:
                return self.mods[name]
        path, ispkg = self.path(name)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if ispkg else name.rpartition(".")[0]
        if ispkg:
            m.__path__ = [os.path.dirname(path)]
        m.__dict__["__builtins__"] = self.builtins
        self.mods[name] = m
        try:
            exec(code_for(path), m.__dict__)
        except BaseException:
            self.mods.pop(name, None)
            raise
        if parent is not None:
            setattr(parent, name.rsplit(".", 1)[1], m)
        return m


def engine_error(e):
    """was this exception raised by the engine rather than by the code or a modelled
    library?"""
    if getattr(e, "_pyvc_real", False):
        return False
    tb = e.__traceback__
    last = None
    while tb is not None:
        last = tb.tb_frame.f_code.co_filename
        tb = tb.tb_next
    if last and os.path.abspath(last).startswith(HERE):
        return True
    msg = str(e)
    for nm in ("SymArray.", "Frozen.", "gaussian_kde.", "UserDist.", "DistGen.", "PCA.", "StandardScaler.",
               "Recorder", "Opaque", "SymList", "RecMod", "'Mod'", "_PyType", "SymRange", "np_", "rng_",
               "symnp", "'Frozen'", "'UserDist'", "_Float", "_Int", "Params", "RecList", "SymInt.", "SymReal.", "PList", "Stale", "Seg"):
        if nm in msg:
            return True
    return False
