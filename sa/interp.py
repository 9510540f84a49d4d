"""Path-partitioning abstract interpreter over the Python AST of the analysed package.

The analysed code is never imported or executed.  Control flow is interpreted over abstract values
(see values.py / objects.py / npmodel.py); branches whose condition is not determined by the
abstract state partition the trace (both outcomes are analysed), with no solver involved.
"""
import random
import ast
import math
import operator
import os
from fractions import Fraction

from .objects import *
from .values import *
from . import values as V

STEP_LIMIT = 3000000
import sys as _sys
STDLIB = frozenset(_sys.stdlib_module_names)
PATH_LIMIT = 3000


class Frame(object):
    __slots__ = ("file", "qual", "line", "vars", "scope", "module", "func", "back", "exc", "node")

    def __init__(self, file, qual, line, module, back, func=None):
        self.file = file
        self.qual = qual
        self.line = line
        self.module = module
        self.back = back
        self.func = func
        self.exc = None
        self.node = None


class Scope(object):
    __slots__ = ("vars", "parent", "module", "locals", "globals_", "nonlocals", "isclass")

    def __init__(self, parent, module, locals_=None, globals_=(), nonlocals=(), isclass=False):
        self.vars = {}
        self.parent = parent
        self.module = module
        self.locals = locals_
        self.globals_ = globals_
        self.nonlocals = nonlocals
        self.isclass = isclass


class _LocalsFinder(ast.NodeVisitor):
    def __init__(self):
        self.names = set()
        self.globals_ = set()
        self.nonlocals = set()
        self.isgen = False

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.names.add(n.id)

    def visit_FunctionDef(self, n):
        self.names.add(n.name)
        for d in n.decorator_list:
            self.visit(d)
        for d in n.args.defaults + [x for x in n.args.kw_defaults if x is not None]:
            self.visit(d)

    def visit_ClassDef(self, n):
        self.names.add(n.name)

    def visit_Lambda(self, n):
        pass

    def _comp(self, n):
        # comprehension targets are local to the comprehension; walrus leaks (handled)
        self.visit(n.generators[0].iter)
        for x in ast.walk(n):
            if isinstance(x, ast.NamedExpr):
                self.names.add(x.target.id)

    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = _comp

    def visit_Global(self, n):
        self.globals_.update(n.names)

    def visit_Nonlocal(self, n):
        self.nonlocals.update(n.names)

    def visit_Import(self, n):
        for a in n.names:
            self.names.add(a.asname or a.name.split(".")[0])

    def visit_ImportFrom(self, n):
        for a in n.names:
            self.names.add(a.asname or a.name)

    def visit_ExceptHandler(self, n):
        if n.name:
            self.names.add(n.name)
        self.generic_visit(n)

    def visit_Yield(self, n):
        self.isgen = True
        self.generic_visit(n)

    def visit_YieldFrom(self, n):
        self.isgen = True
        self.generic_visit(n)


_FINFO = {}


def funcinfo(node):
    r = _FINFO.get(node)
    if r is None:
        f = _LocalsFinder()
        body = node.body if isinstance(node.body, list) else [node.body]
        for s in body:
            f.visit(s)
        a = node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            f.names.add(x.arg)
        if a.vararg:
            f.names.add(a.vararg.arg)
        if a.kwarg:
            f.names.add(a.kwarg.arg)
        r = (f.names - f.globals_ - f.nonlocals, f.globals_, f.nonlocals, f.isgen)
        _FINFO[node] = r
    return r


_HASYIELD = {}


def hasyield(node):
    r = _HASYIELD.get(node)
    if r is None:
        r = False
        stack = [] if isinstance(node, (ast.FunctionDef, ast.ClassDef)) else [node]
        while stack:
            x = stack.pop()
            if isinstance(x, (ast.Yield, ast.YieldFrom)):
                r = True
                break
            for c in ast.iter_child_nodes(x):
                if not isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.GeneratorExp)):
                    stack.append(c)
        _HASYIELD[node] = r
    return r


BINOPS = {
    ast.Add: ("+", "__add__", "__radd__", "__iadd__", operator.add),
    ast.Sub: ("-", "__sub__", "__rsub__", "__isub__", operator.sub),
    ast.Mult: ("*", "__mul__", "__rmul__", "__imul__", operator.mul),
    ast.Div: ("/", "__truediv__", "__rtruediv__", "__itruediv__", operator.truediv),
    ast.FloorDiv: ("//", "__floordiv__", "__rfloordiv__", "__ifloordiv__", operator.floordiv),
    ast.Mod: ("%", "__mod__", "__rmod__", "__imod__", operator.mod),
    ast.Pow: ("**", "__pow__", "__rpow__", "__ipow__", operator.pow),
    ast.LShift: ("<<", "__lshift__", "__rlshift__", "__ilshift__", operator.lshift),
    ast.RShift: (">>", "__rshift__", "__rrshift__", "__irshift__", operator.rshift),
    ast.BitOr: ("|", "__or__", "__ror__", "__ior__", operator.or_),
    ast.BitAnd: ("&", "__and__", "__rand__", "__iand__", operator.and_),
    ast.BitXor: ("^", "__xor__", "__rxor__", "__ixor__", operator.xor),
    ast.MatMult: ("@", "__matmul__", "__rmatmul__", "__imatmul__", operator.matmul),
}
CMPOPS = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">="}
CMPDUNDER = {"==": ("__eq__", "__eq__"), "!=": ("__ne__", "__ne__"), "<": ("__lt__", "__gt__"),
             "<=": ("__le__", "__ge__"), ">": ("__gt__", "__lt__"), ">=": ("__ge__", "__le__")}
HOSTCMP = {"==": operator.eq, "!=": operator.ne, "<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge}

CONST = (type(None), bool, int, float, str, bytes, complex, type(Ellipsis), Fraction)


class NPFloat(float):
    """A numpy.float64 constant (differs from float only in isinstance checks)."""
    __slots__ = ()


class NPInt(int):
    """A numpy.int64 constant."""
    __slots__ = ()


class _NotImpl(object):
    def __repr__(self):
        return "NotImplemented"


NOTIMPL = _NotImpl()


class Program(object):
    """Parsed source of the analysed package."""

    def __init__(self, root, package):
        self.root = root
        self.package = package
        self.trees = {}
        self.files = {}

    def find(self, modname):
        if modname in self.trees:
            return self.trees[modname]
        rel = modname.replace(".", "/")
        for cand, ispkg in ((os.path.join(self.root, rel, "__init__.py"), True), (os.path.join(self.root, rel + ".py"), False)):
            if os.path.isfile(cand):
                with open(cand, "rb") as f:
                    src = f.read()
                tree = ast.parse(src, cand)
                self.trees[modname] = (tree, cand, ispkg)
                return self.trees[modname]
        return None


class Machine(object):
    def __init__(self, program):
        self.program = program
        self.modules = {}
        self.loading = False
        self.dirty = False
        self.decisions = []
        self.pos = 0
        self.taken = []
        self.facts = {}
        self.steps = 0
        self.frame = None
        self.hdepth = 0
        self.hpure = True
        self.hepoch = 0
        self.covered = {}
        self.rel = {}
        self.wlog = None
        self.calls = 0
        self.allocs = 0
        self.effects = []
        self.setorder = 0
        self.loopguard = 0
        from . import builtins_model
        self.bt = builtins_model
        self.types = builtins_model.make_types(self)
        self.builtins = builtins_model.make_builtins(self)
        self.hostmods = {}
        from . import npmodel
        self.np = npmodel
        self.Cond = Cond
        self.NPFloat = NPFloat
        self.NPInt = NPInt
        self.stubs = {}

    # ---------------------------------------------------------------- bookkeeping
    def here(self):
        f = self.frame
        if f is None:
            return None
        return (f.file, f.line, f.qual)

    def stack(self):
        out = []
        f = self.frame
        while f is not None:
            out.append((f.file, f.line, f.qual))
            f = f.back
        return out

    def reset(self, decisions=()):
        self.decisions = list(decisions)
        self.pos = 0
        self.taken = []
        self.facts = {}
        self.steps = 0
        self.frame = None
        self.effects = []
        self.wlog = {}

    def fork(self, key, why=""):
        """Undetermined condition: partition the trace."""
        if key is not None and key in self.facts:
            return self.facts[key]
        if self.loading:
            raise Unsupported("undetermined branch during module initialisation")
        if self.pos < len(self.decisions):
            r = self.decisions[self.pos]
        else:
            r = True
            self.decisions.append(True)
        self.pos += 1
        self.taken.append((why or str(key), r, self.here()))
        if key is not None:
            self.facts[key] = r
        return r

    # ---------------------------------------------------------------- exceptions
    def exc(self, name, *args):
        cls = self.types[name] if isinstance(name, str) else name
        o = AObj(self, cls)
        o.attrs["args"] = tuple(args)
        return PyExc(o, self.here(), self.stack())

    def host(self, fn, *args, **kw):
        try:
            return fn(*args, **kw)
        except (ValueError, TypeError, KeyError, IndexError, ZeroDivisionError, AttributeError, OverflowError, SyntaxError) as e:
            raise self.exc(type(e).__name__ if type(e).__name__ in self.types else "ValueError", str(e))

    # ---------------------------------------------------------------- modules
    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        found = self.program.find(name)
        if found is None:
            return None
        tree, path, ispkg = found
        parent, _, leaf = name.rpartition(".")
        pm = None
        if parent:
            pm = self.load(parent)
            if name in self.modules:
                return self.modules[name]
        mod = AMod(name, {"__name__": name, "__file__": path}, path)
        self.modules[name] = mod
        oldframe = self.frame
        old = self.loading
        self.loading = True
        self.frame = Frame(os.path.relpath(path, self.program.root), "<module>", 1, mod, oldframe)
        scope = Scope(None, mod)
        scope.vars = mod.ns
        try:
            self.exec_block(tree.body, scope)
        finally:
            self.frame = oldframe
            self.loading = old
        if pm is not None:
            pm.ns[leaf] = mod
        return mod

    def import_(self, name):
        if name == self.program.package or name.startswith(self.program.package + "."):
            r = self.load(name)
            if r is None:
                raise self.exc("ImportError", "No module named " + name)
            return r
        if name in self.stubs:
            return self.stubs[name]
        if name not in self.hostmods:
            r = self.bt.make_module(self, name)
            if r is None:
                if name.split(".")[0] in STDLIB:
                    raise Unsupported("standard library module " + name)
                raise self.exc("ImportError", "No module named " + name)
            self.hostmods[name] = r
        return self.hostmods[name]

    # ---------------------------------------------------------------- statements
    def exec_block(self, stmts, scope):
        for s in stmts:
            self.exec(s, scope)

    def tick(self, node):
        self.steps += 1
        if self.steps > STEP_LIMIT:
            raise Unsupported("step limit")
        self.frame.line = node.lineno

    def exec(self, s, scope):
        self.tick(s)
        t = type(s)
        if t is ast.Expr:
            if type(s.value) is ast.Constant:
                return
            self.eval(s.value, scope)
        elif t is ast.Assign:
            v = self.eval(s.value, scope)
            for tgt in s.targets:
                self.assign(tgt, v, scope)
        elif t is ast.If:
            if self.truth(self.eval(s.test, scope)):
                self.exec_block(s.body, scope)
            else:
                self.exec_block(s.orelse, scope)
        elif t is ast.Return:
            raise ReturnX(self.eval(s.value, scope) if s.value is not None else None)
        elif t is ast.For:
            broke = False
            for v in self.iterate(self.eval(s.iter, scope)):
                self.assign(s.target, v, scope)
                try:
                    self.exec_block(s.body, scope)
                except BreakX:
                    broke = True
                    break
                except ContinueX:
                    pass
            if not broke:
                self.exec_block(s.orelse, scope)
        elif t is ast.While:
            broke = False
            while self.truth(self.eval(s.test, scope)):
                self.tick(s)
                try:
                    self.exec_block(s.body, scope)
                except BreakX:
                    broke = True
                    break
                except ContinueX:
                    pass
            if not broke:
                self.exec_block(s.orelse, scope)
        elif t is ast.AugAssign:
            self.augassign(s, scope)
        elif t is ast.FunctionDef:
            f = self.makefunc(s, scope)
            for d in reversed(s.decorator_list):
                f = self.call(self.eval(d, scope), [f], {})
            self.store(s.name, f, scope)
        elif t is ast.ClassDef:
            self.classdef(s, scope)
        elif t is ast.Raise:
            if s.exc is None:
                fr = self.frame
                while fr is not None and fr.exc is None:
                    fr = fr.back
                if fr is None:
                    raise self.exc("RuntimeError", "No active exception to reraise")
                raise fr.exc
            v = self.eval(s.exc, scope)
            if isinstance(v, AClass):
                v = self.call(v, [], {})
            if not isinstance(v, AObj):
                raise self.exc("TypeError", "exceptions must derive from BaseException")
            raise PyExc(v, self.here(), self.stack())
        elif t is ast.Try:
            self.exec_try(s, scope)
        elif t is ast.Pass:
            pass
        elif t is ast.Break:
            raise BreakX()
        elif t is ast.Continue:
            raise ContinueX()
        elif t is ast.Assert:
            if not self.truth(self.eval(s.test, scope)):
                args = [self.eval(s.msg, scope)] if s.msg is not None else []
                raise self.exc("AssertionError", *args)
        elif t is ast.Delete:
            for tgt in s.targets:
                self.delete(tgt, scope)
        elif t is ast.Import:
            for a in s.names:
                mod = self.import_(a.name)
                if a.asname:
                    self.store(a.asname, mod, scope)
                else:
                    self.store(a.name.split(".")[0], self.import_(a.name.split(".")[0]), scope)
        elif t is ast.ImportFrom:
            if s.level:
                base = scope.module.name.split(".")
                ispkg = self.program.find(scope.module.name)[2]
                up = s.level - (1 if ispkg else 0)
                base = base[:len(base) - up]
                name = ".".join(base + ([s.module] if s.module else []))
            else:
                name = s.module
            if name == "__future__":
                return
            mod = self.import_(name)
            for a in s.names:
                if a.name == "*":
                    for k, v in list(mod.ns.items()):
                        if not k.startswith("_"):
                            self.store(k, v, scope)
                    continue
                try:
                    v = self.getattr(mod, a.name)
                except PyExc:
                    v = self.import_(name + "." + a.name)
                self.store(a.asname or a.name, v, scope)
        elif t is ast.With:
            self.exec_with(s, 0, scope)
        elif t is ast.Global or t is ast.Nonlocal:
            pass
        elif t is ast.AnnAssign:
            if s.value is not None:
                self.assign(s.target, self.eval(s.value, scope), scope)
        else:
            raise Unsupported("statement %s" % t.__name__)

    def exec_with(self, s, i, scope):
        if i == len(s.items):
            return self.exec_block(s.body, scope)
        item = s.items[i]
        cm = self.eval(item.context_expr, scope)
        enter = self.getattr(cm, "__enter__")
        exit_ = self.getattr(cm, "__exit__")
        v = self.call(enter, [], {})
        if item.optional_vars is not None:
            self.assign(item.optional_vars, v, scope)
        try:
            self.exec_with(s, i + 1, scope)
        except PyExc as e:
            if self.truth(self.call(exit_, [e.obj.cls, e.obj, None], {})):
                return
            raise
        except (ReturnX, BreakX, ContinueX):
            self.call(exit_, [None, None, None], {})
            raise
        else:
            self.call(exit_, [None, None, None], {})

    def gen_with(self, items, body, scope):
        if not items:
            yield from self.gen_block(body, scope)
            return
        cm = self.eval(items[0].context_expr, scope)
        enter = self.getattr(cm, "__enter__")
        exit_ = self.getattr(cm, "__exit__")
        v = self.call(enter, [], {})
        if items[0].optional_vars is not None:
            self.assign(items[0].optional_vars, v, scope)
        fr = self.frame
        try:
            yield from self.gen_with(items[1:], body, scope)
        except PyExc as e:
            self.frame = fr
            if self.truth(self.call(exit_, [e.obj.cls, e.obj, None], {})):
                return
            raise
        except (ReturnX, BreakX, ContinueX):
            self.frame = fr
            self.call(exit_, [None, None, None], {})
            raise
        else:
            self.call(exit_, [None, None, None], {})

    def matches(self, e, h, scope):
        if h.type is None:
            return True
        t = self.eval(h.type, scope)
        ts = t if isinstance(t, tuple) else (t,)
        return any(isinstance(c, AClass) and e.obj.cls.issub(c) for c in ts)

    def exec_try(self, s, scope):
        fr = self.frame
        try:
            try:
                self.exec_block(s.body, scope)
            except PyExc as e:
                self.frame = fr
                for h in s.handlers:
                    if self.matches(e, h, scope):
                        old = fr.exc
                        fr.exc = e
                        if h.name:
                            self.store(h.name, e.obj, scope)
                        try:
                            self.exec_block(h.body, scope)
                        finally:
                            fr.exc = old
                        break
                else:
                    raise
            else:
                self.exec_block(s.orelse, scope)
        finally:
            self.frame = fr
            if s.finalbody:
                self.exec_block(s.finalbody, scope)

    # generator variants -----------------------------------------------------------------
    def gen_block(self, stmts, scope):
        for s in stmts:
            if hasyield(s):
                for v in self.gen_stmt(s, scope):
                    yield v
            else:
                self.exec(s, scope)

    def gen_stmt(self, s, scope):
        self.tick(s)
        t = type(s)
        if t is ast.Expr and isinstance(s.value, ast.Yield):
            yield self.eval(s.value.value, scope) if s.value.value is not None else None
        elif t is ast.Expr and isinstance(s.value, ast.YieldFrom):
            yield from self.iterate(self.eval(s.value.value, scope))
        elif t is ast.Assign and isinstance(s.value, ast.Yield):
            yield self.eval(s.value.value, scope) if s.value.value is not None else None
            for tg in s.targets:
                self.assign(tg, None, scope)
        elif t is ast.Assign and isinstance(s.value, ast.YieldFrom):
            v = yield from self.iterate(self.eval(s.value.value, scope))
            for tg in s.targets:
                self.assign(tg, v, scope)
        elif t is ast.Return and isinstance(s.value, ast.YieldFrom):
            v = yield from self.iterate(self.eval(s.value.value, scope))
            raise ReturnX(v)
        elif t is ast.With and not any(hasyield(i) for i in s.items):
            yield from self.gen_with(s.items, s.body, scope)
        elif t is ast.If:
            for v in self.gen_block(s.body if self.truth(self.eval(s.test, scope)) else s.orelse, scope):
                yield v
        elif t is ast.For:
            broke = False
            for v in self.iterate(self.eval(s.iter, scope)):
                self.assign(s.target, v, scope)
                try:
                    for y in self.gen_block(s.body, scope):
                        yield y
                except BreakX:
                    broke = True
                    break
                except ContinueX:
                    pass
            if not broke:
                for y in self.gen_block(s.orelse, scope):
                    yield y
        elif t is ast.While:
            broke = False
            while self.truth(self.eval(s.test, scope)):
                try:
                    for y in self.gen_block(s.body, scope):
                        yield y
                except BreakX:
                    broke = True
                    break
                except ContinueX:
                    pass
            if not broke:
                for y in self.gen_block(s.orelse, scope):
                    yield y
        elif t is ast.Try and not any(hasyield(h) for h in s.handlers):
            fr = self.frame
            try:
                try:
                    yield from self.gen_block(s.body, scope)
                except PyExc as e:
                    self.frame = fr
                    for h in s.handlers:
                        if self.matches(e, h, scope):
                            if h.name:
                                self.store(h.name, e.obj, scope)
                            self.exec_block(h.body, scope)
                            break
                    else:
                        raise
                else:
                    yield from self.gen_block(s.orelse, scope)
            except (PyExc, ReturnX, BreakX, ContinueX):
                self.frame = fr
                if any(hasyield(x) for x in s.finalbody):
                    raise Unsupported("yield inside finally")
                self.exec_block(s.finalbody, scope)
                raise
            yield from self.gen_block(s.finalbody, scope)
        else:
            raise Unsupported("yield inside %s" % t.__name__)

    # ---------------------------------------------------------------- names
    def store(self, name, v, scope):
        if scope.locals is not None and name not in scope.locals:
            if name in scope.nonlocals:
                p = scope.parent
                while p is not None:
                    if p.locals is not None and name in p.locals:
                        p.vars[name] = v
                        return
                    p = p.parent
            if name in scope.globals_:
                scope.module.ns[name] = v
                if not self.loading:
                    self.dirty = True
                return
        if scope.vars is scope.module.ns and not self.loading and scope.module.file is not None:
            self.dirty = True
        scope.vars[name] = v

    def lookup(self, name, scope):
        s = scope
        first = True
        while s is not None:
            if first or not s.isclass:
                if name in s.vars:
                    if self.hdepth and not first:
                        self.hpure = False
                    return s.vars[name]
                if first and s.locals is not None and name in s.locals:
                    raise self.exc("UnboundLocalError", "local variable '%s' referenced before assignment" % name)
                if s.locals is not None and name in s.locals:
                    raise self.exc("NameError", "free variable '%s' referenced before assignment" % name)
            first = False
            s = s.parent
        ns = scope.module.ns
        if name in ns:
            v = ns[name]
            if self.hdepth and not isinstance(v, _CONSTLIKE):
                self.hpure = False
            return v
        if name in self.builtins:
            return self.builtins[name]
        if name in self.bt.HOST_BUILTIN_NAMES:
            raise Unsupported("builtin %s" % name)
        raise self.exc("NameError", "name '%s' is not defined" % name)

    def assign(self, tgt, v, scope):
        t = type(tgt)
        if t is ast.Name:
            self.store(tgt.id, v, scope)
        elif t is ast.Attribute:
            self.setattr(self.eval(tgt.value, scope), tgt.attr, v)
        elif t is ast.Subscript:
            o = self.eval(tgt.value, scope)
            k = self.eval(tgt.slice, scope)
            self.setitem(o, k, v)
        elif t in (ast.Tuple, ast.List):
            vals = list(self.iterate(v))
            star = [i for i, e in enumerate(tgt.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                after = len(tgt.elts) - i - 1
                if len(vals) < len(tgt.elts) - 1:
                    raise self.exc("ValueError", "not enough values to unpack")
                for e, x in zip(tgt.elts[:i], vals[:i]):
                    self.assign(e, x, scope)
                self.assign(tgt.elts[i].value, AList(self, vals[i:len(vals) - after]), scope)
                for e, x in zip(tgt.elts[i + 1:], vals[len(vals) - after:]):
                    self.assign(e, x, scope)
            else:
                if len(vals) != len(tgt.elts):
                    raise self.exc("ValueError", "wrong number of values to unpack (expected %d, got %d)" % (len(tgt.elts), len(vals)))
                for e, x in zip(tgt.elts, vals):
                    self.assign(e, x, scope)
        else:
            raise Unsupported("assignment target %s" % t.__name__)

    def delete(self, tgt, scope):
        t = type(tgt)
        if t is ast.Name:
            if tgt.id in scope.vars:
                del scope.vars[tgt.id]
            else:
                raise self.exc("NameError", tgt.id)
        elif t is ast.Attribute:
            o = self.eval(tgt.value, scope)
            if isinstance(o, AObj):
                if tgt.attr not in o.attrs:
                    raise self.exc("AttributeError", tgt.attr)
                del o.attrs[tgt.attr]
                o.wrote(self)
            else:
                raise Unsupported("del attribute")
        elif t is ast.Subscript:
            self.delitem(self.eval(tgt.value, scope), self.eval(tgt.slice, scope))
        elif t in (ast.Tuple, ast.List):
            for e in tgt.elts:
                self.delete(e, scope)
        else:
            raise Unsupported("del %s" % t.__name__)

    def augassign(self, s, scope):
        tgt = s.target
        if isinstance(tgt, ast.Name):
            cur = self.lookup(tgt.id, scope)
            self.store(tgt.id, self.inplace(s.op, cur, self.eval(s.value, scope)), scope)
        elif isinstance(tgt, ast.Attribute):
            o = self.eval(tgt.value, scope)
            cur = self.getattr(o, tgt.attr)
            self.setattr(o, tgt.attr, self.inplace(s.op, cur, self.eval(s.value, scope)))
        else:
            o = self.eval(tgt.value, scope)
            k = self.eval(tgt.slice, scope)
            cur = self.getitem(o, k)
            self.setitem(o, k, self.inplace(s.op, cur, self.eval(s.value, scope)))

    def inplace(self, op, a, b):
        sym_, d, r, i, h = BINOPS[type(op)]
        if isinstance(a, AList) and sym_ == "+":
            a.v.extend(self.iterate(b))
            a.wrote(self)
            return a
        if isinstance(a, AList) and sym_ == "*":
            n = b
            a.v[:] = a.v * n
            a.wrote(self)
            return a
        if isinstance(a, ASet) and sym_ in "|-&^":
            res = self.binop(sym_, a, b)
            a.d = res.d
            a.wrote(self)
            return a
        if isinstance(a, ADict) and sym_ == "|":
            for k, v in b.items():
                a.set(self, k, v)
            return a
        if isinstance(a, self.np.NDArr):
            return self.np.inplace(self, sym_, a, b)
        if isinstance(a, AObj):
            f = a.cls.lookup(i)
            if f is not None:
                res = self.call(self.bind(f, a), [b], {})
                if res is not NOTIMPL:
                    return res
        return self.binop(sym_, a, b)

    # ---------------------------------------------------------------- functions and classes
    def makefunc(self, node, scope, name=None):
        a = node.args
        defaults = [self.eval(d, scope) for d in a.defaults]
        kwdefaults = [None if d is None else (self.eval(d, scope),) for d in a.kw_defaults]
        name = name or getattr(node, "name", "<lambda>")
        q = self.frame.qual
        qual = name if q == "<module>" else q + "." + name
        info = funcinfo(node)
        sc = scope
        while sc is not None and sc.isclass:
            sc = sc.parent
        # class body scope: methods do not close over it
        if scope.isclass:
            closure = sc
        else:
            closure = scope
        if closure is not None and closure.locals is None and closure.parent is None:
            closure = None      # module scope is reached through module.ns
        return AFunc(node, name, defaults, kwdefaults, closure, scope.module, qual, None, info[3])

    def classdef(self, s, scope):
        bases = [self.eval(b, scope) for b in s.bases]
        for b in bases:
            if not isinstance(b, AClass):
                raise Unsupported("base class %r" % (b,))
            if b is self.types["type"]:
                raise Unsupported("metaclass")
        if not bases:
            bases = [self.types["object"]]
        for kw in s.keywords:
            mc = self.eval(kw.value, scope)
            if kw.arg != "metaclass" or not isinstance(mc, AClass) or mc is not self.types["type"] and mc.name != "ABCMeta":
                raise Unsupported("class keyword %s" % kw.arg)
        cscope = Scope(scope if scope.vars is not scope.module.ns else None, scope.module, isclass=True)
        cscope.vars["__module__"] = scope.module.name
        oldq = self.frame.qual
        self.frame.qual = s.name if oldq == "<module>" else oldq + "." + s.name
        try:
            self.exec_block(s.body, cscope)
        finally:
            self.frame.qual = oldq
        ns = cscope.vars
        if "__eq__" in ns and "__hash__" not in ns:
            ns["__hash__"] = None
        cls = AClass(self, s.name, bases, ns, scope.module)
        for v in ns.values():
            f = v
            while isinstance(f, (StaticM, ClassM)):
                f = f.f
            if isinstance(f, Prop):
                for g in (f.fget, f.fset):
                    if isinstance(g, AFunc) and g.owner is None:
                        g.owner = cls
            if isinstance(f, AFunc) and f.owner is None:
                f.owner = cls
        c = cls
        for d in reversed(s.decorator_list):
            c = self.call(self.eval(d, scope), [c], {})
        self.store(s.name, c, scope)

    def call(self, f, args, kw):
        self.calls += 1
        if isinstance(f, Bound):
            return self.call(f.func, [f.self] + list(args), kw)
        if isinstance(f, AFunc):
            return self.callfunc(f, args, kw)
        if isinstance(f, BFn):
            return f.fn(self, list(args), kw)
        if isinstance(f, AClass):
            return self.instantiate(f, args, kw)
        if isinstance(f, AObj):
            c = f.cls.lookup("__call__")
            if c is not None:
                return self.call(self.bind(c, f), args, kw)
        if isinstance(f, (StaticM, ClassM)):
            return self.call(f.f, args, kw)
        if isinstance(f, self.np.UFunc):
            return self.np.call_ufunc(self, f, args, kw)
        if isinstance(f, self.bt.HostType):
            return f.new(self, list(args), kw)
        raise self.exc("TypeError", "object is not callable: %r" % (f,))

    def callfunc(self, f, args, kw):
        node = f.node
        names, globals_, nonlocals, isgen = funcinfo(node)
        scope = Scope(f.scope, f.module, names, globals_, nonlocals)
        self.bindargs(f, args, kw, scope)
        file = self.relfile(f.module)
        key = (file, f.qual)
        self.covered[key] = self.covered.get(key, 0) + 1
        old = self.frame
        depth = 0
        fr = Frame(file, f.qual, node.lineno, f.module, old, f)
        if isinstance(node, ast.Lambda):
            self.frame = fr
            try:
                self.depth_check()
                return self.eval(node.body, scope)
            finally:
                self.frame = old
        if isgen:
            return AIter(self.rungen(f, scope, fr))
        self.frame = fr
        try:
            self.depth_check()
            self.exec_block(node.body, scope)
        except ReturnX as r:
            return r.v
        finally:
            self.frame = old
        return None

    def depth_check(self):
        n = 0
        f = self.frame
        while f is not None:
            n += 1
            f = f.back
        if n > 140:
            raise self.exc("RecursionError", "maximum recursion depth exceeded")

    def rungen(self, f, scope, fr):
        g = self.gen_block(f.node.body, scope)
        thrown = None
        while True:
            old = self.frame
            fr.back = old
            self.frame = fr
            try:
                v = next(g) if thrown is None else g.throw(thrown)
                thrown = None
            except StopIteration:
                return None
            except ReturnX as r:
                return r.v
            finally:
                self.frame = old
            try:
                yield v
            except PyExc as e:
                thrown = e

    def relfile(self, module):
        r = self.rel.get(module.name)
        if r is None:
            r = self.rel[module.name] = os.path.relpath(module.file, self.program.root) if module.file else module.name
        return r

    def bindargs(self, f, args, kw, scope):
        a = f.node.args
        params = [x.arg for x in a.posonlyargs + a.args]
        vars_ = scope.vars
        args = list(args)
        kw = dict(kw)
        n = len(params)
        for p, v in zip(params, args):
            vars_[p] = v
        if len(args) > n:
            if a.vararg is None:
                raise self.exc("TypeError", "%s() takes %d positional arguments but %d were given" % (f.name, n, len(args)))
            vars_[a.vararg.arg] = tuple(args[n:])
        elif a.vararg is not None:
            vars_[a.vararg.arg] = ()
        posonly = set(x.arg for x in a.posonlyargs)
        for p in params[:len(args)]:
            if p in kw and p not in posonly:
                raise self.exc("TypeError", "%s() got multiple values for argument '%s'" % (f.name, p))
        nd = len(f.defaults)
        for i, p in enumerate(params):
            if i < len(args):
                continue
            if p in kw and p not in posonly:
                vars_[p] = kw.pop(p)
            elif i >= n - nd:
                vars_[p] = f.defaults[i - (n - nd)]
            else:
                raise self.exc("TypeError", "%s() missing required positional argument: '%s'" % (f.name, p))
        for x, d in zip(a.kwonlyargs, f.kwdefaults):
            if x.arg in kw:
                vars_[x.arg] = kw.pop(x.arg)
            elif d is not None:
                vars_[x.arg] = d[0]
            else:
                raise self.exc("TypeError", "%s() missing keyword-only argument: '%s'" % (f.name, x.arg))
        if a.kwarg is not None:
            vars_[a.kwarg.arg] = ADict(self, list(kw.items()))
        elif kw:
            raise self.exc("TypeError", "%s() got an unexpected keyword argument '%s'" % (f.name, list(kw)[0]))

    def instantiate(self, cls, args, kw):
        if cls.host is not None:
            return self.bt.construct(self, cls, args, kw)
        new = cls.lookup("__new__")
        if isinstance(new, (AFunc, StaticM)):
            o = self.call(new.f if isinstance(new, StaticM) else new, [cls] + list(args), kw)
        else:
            o = self.bt.new_instance(self, cls, args, kw)
        if isinstance(o, AObj) and o.cls.issub(cls):
            init = o.cls.lookup("__init__")
            if isinstance(init, AFunc):
                self.call(init, [o] + list(args), kw)
            elif isinstance(init, BFn):
                init.fn(self, [o] + list(args), kw)
            elif (args or kw) and o.base is None and not o.cls.issub(self.types["BaseException"]) and not isinstance(new, (AFunc, StaticM)):
                raise self.exc("TypeError", "%s() takes no arguments" % cls.name)
        return o

    # ---------------------------------------------------------------- attributes
    def typeof(self, v):
        return self.bt.typeof(self, v)

    def bind(self, f, obj):
        if isinstance(f, AFunc) or isinstance(f, BFn):
            return Bound(f, obj)
        if isinstance(f, StaticM):
            return f.f
        if isinstance(f, ClassM):
            return Bound(f.f, obj.cls if isinstance(obj, AObj) else obj)
        if isinstance(f, Prop):
            return self.call(f.fget, [obj], {})
        return f

    def getattr(self, o, name):
        if isinstance(o, AObj):
            if name == "__class__":
                return o.cls
            if name == "__dict__":
                self.hpure = False
                return self.bt.attrdict(self, o)
            c = o.cls.lookup(name)
            if isinstance(c, Prop):
                return self.call(c.fget, [o], {})
            if self.hdepth:
                o.hflag = True
            if name in o.attrs:
                v = o.attrs[name]
                if self.hdepth and not isinstance(v, _PURE):
                    self.hpure = False
                return v
            owner = o.cls.lookup_owner(name)
            if owner is not None:
                v = owner.ns[name]
                if self.hdepth and not isinstance(v, _PURE):
                    self.hpure = False
                return self.bind(v, o)
            r = self.bt.instance_attr(self, o, name)
            if r is not self.bt.MISSING:
                return r
            ga = o.cls.lookup("__getattr__")
            if ga is not None:
                return self.call(self.bind(ga, o), [name], {})
            raise self.exc("AttributeError", "'%s' object has no attribute '%s'" % (o.cls.name, name))
        if isinstance(o, AMod):
            if name in o.ns:
                v = o.ns[name]
                if self.hdepth and not isinstance(v, _CONSTLIKE):
                    self.hpure = False
                return v
            if o.attr is not None:
                r = o.attr(self, name)
                if r is not self.bt.MISSING:
                    return r
            if name == "__name__":
                return o.name
            if name == "__dict__":
                return ADict(self, list(o.ns.items()))
            if o.name.split(".")[0] != self.program.package:
                raise Unsupported("attribute %s of module %s" % (name, o.name))
            raise self.exc("AttributeError", "module '%s' has no attribute '%s'" % (o.name, name))
        if isinstance(o, AClass):
            if name == "__name__" or name == "__qualname__":
                return o.name[3:] if o.name.startswith("np.") else o.name
            if name == "__class__":
                return self.types["type"]
            if name == "__mro__":
                return tuple(o.mro)
            if name == "__bases__":
                return tuple(o.bases)
            if name == "__dict__":
                return ADict(self, list(o.ns.items()))
            c = o.lookup(name)
            if c is not None or o.lookup_owner(name) is not None:
                if self.hdepth and not isinstance(c, _CONSTLIKE):
                    self.hpure = False
                if isinstance(c, StaticM):
                    return c.f
                if isinstance(c, ClassM):
                    return Bound(c.f, o)
                return c
            r = self.bt.class_attr(self, o, name)
            if r is not self.bt.MISSING:
                return r
            raise self.exc("AttributeError", "type object '%s' has no attribute '%s'" % (o.name, name))
        if isinstance(o, Super):
            obj = o.self
            cls = obj if isinstance(obj, AClass) else obj.cls
            mro = cls.mro
            i = mro.index(o.cls) + 1
            for c in mro[i:]:
                if name in c.ns:
                    f = c.ns[name]
                    if isinstance(obj, AClass):
                        if isinstance(f, ClassM):
                            return Bound(f.f, obj)
                        return f.f if isinstance(f, StaticM) else f
                    return self.bind(f, obj)
            if isinstance(obj, AObj):
                r = self.bt.instance_attr(self, obj, name)
                if r is not self.bt.MISSING:
                    return r
            raise self.exc("AttributeError", "'super' object has no attribute '%s'" % name)
        if isinstance(o, AFunc):
            if name in o.attrs:
                return o.attrs[name]
            if name in ("__name__",):
                return o.name
            if name == "__qualname__":
                return o.qual
            if name == "__doc__":
                return ast.get_docstring(o.node) if not isinstance(o.node, ast.Lambda) else None
            if name == "__module__":
                return o.module.name
            if name == "__call__":
                return o
            raise self.exc("AttributeError", "'function' object has no attribute '%s'" % name)
        if isinstance(o, Bound):
            if name == "__self__":
                return o.self
            if name == "__func__":
                return o.func
            return self.getattr(o.func, name)
        if isinstance(o, (self.np.NDArr, self.np.UFunc, self.np.DType)):
            if name == "__class__":
                return self.typeof(o)
            return self.np.getattr(self, o, name)
        return self.bt.builtin_attr(self, o, name)

    def setattr(self, o, name, v):
        if isinstance(o, AObj):
            c = o.cls.lookup(name)
            if isinstance(c, Prop):
                if c.fset is None:
                    raise self.exc("AttributeError", "can't set attribute " + name)
                self.call(c.fset, [o, v], {})
                return
            sa = o.cls.lookup("__setattr__")
            if isinstance(sa, AFunc):
                self.call(sa, [o, name, v], {})
                return
            if name == "__class__":
                o.cls = v
                o.wrote(self)
                return
            if "__slots__" in o.cls.ns:
                names = set()
                for c in o.cls.mro:
                    if c.host is object:
                        continue
                    sl = c.ns.get("__slots__")
                    if sl is None:
                        break
                    names.update([sl] if isinstance(sl, str) else list(self.iterate(sl)))
                else:
                    if name not in names and "__dict__" not in names:
                        raise self.exc("AttributeError", "'%s' object has no attribute '%s'" % (o.cls.name, name))
            o.setattr(self, name, v)
        elif isinstance(o, AClass):
            if o.host is not None:
                raise self.exc("TypeError", "can't set attributes of built-in type")
            o.ns[name] = v
            if not self.loading:
                self.dirty = True
        elif isinstance(o, AFunc):
            o.attrs[name] = v
        elif isinstance(o, AMod):
            o.ns[name] = v
            if not self.loading:
                self.dirty = True
        elif isinstance(o, self.np.NDArr):
            self.np.setattr(self, o, name, v)
        else:
            raise self.exc("AttributeError", "cannot set attribute %s on %r" % (name, o))

    def hasattr(self, o, name):
        try:
            self.getattr(o, name)
            return True
        except PyExc as e:
            if e.name == "AttributeError":
                return False
            raise

    # ---------------------------------------------------------------- hashing / equality
    def hashkey(self, k):
        if k is None or isinstance(k, (bool, int, str, bytes)):
            return k
        if isinstance(k, float):
            return k if k == k else ("nan", id(k))
        if isinstance(k, tuple):
            return ("t",) + tuple(self.hashkey(x) for x in k)
        if isinstance(k, AObj):
            h = k.cls.lookup("__hash__")
            owner = k.cls.lookup_owner("__hash__")
            if owner is not None and h is None:
                raise self.exc("TypeError", "unhashable type: '%s'" % k.cls.name)
            if isinstance(h, AFunc):
                c = k.hcache
                if c is not None and c[0] == self.hepoch:
                    return c[1]
                outer = self.hpure
                self.hpure = True
                self.hdepth += 1
                try:
                    hv = self.call(h, [k], {})
                finally:
                    self.hdepth -= 1
                    pure = self.hpure
                    self.hpure = outer and pure
                if isinstance(hv, HVal) or isinstance(hv, int):
                    r = ("h" if isinstance(hv, HVal) else "hi", hv)
                    if pure:
                        k.hflag = True
                        k.hcache = (self.hepoch, r)
                    return r
                raise self.exc("TypeError", "__hash__ method should return an integer")
            if k.base is not None:
                return self.hashkey(k.base)
            return ("id", k.oid)
        if isinstance(k, (AList, ADict, slice)) or (isinstance(k, ASet) and not k.frozen) or isinstance(k, self.np.NDArr):
            raise self.exc("TypeError", "unhashable type: '%s'" % self.typeof(k).name)
        if isinstance(k, ASet):
            return ("fs", frozenset(self.hashkey(x) for x in k.items()))
        if isinstance(k, Poly):
            return ("poly", repr(k))
        if isinstance(k, Rng):
            return ("rng", k.tag)
        if isinstance(k, Bound):
            return ("bound", id(k.func), self.hashkey(k.self))
        if isinstance(k, HVal):
            return k
        if isinstance(k, HostObj):
            return ("host", id(k.o))
        if isinstance(k, AClass):
            return ("cls", k.oid)
        return ("id", id(k))

    def same_key(self, a, b):
        if a is b:
            return True
        return self.truth(self.compare("==", a, b))

    # ---------------------------------------------------------------- operators
    def truth(self, v):
        if v is True or v is False:
            return v
        if v is None:
            return False
        if isinstance(v, (int, float, str, bytes, tuple, complex)):
            return bool(v)
        if isinstance(v, Cond):
            return v.decide(self)
        if isinstance(v, Poly):
            s = v.sign()
            if s in (">0", "<0"):
                return True
            return self.fork(("nz", repr(v)), "%r != 0" % v)
        if isinstance(v, Rng):
            r = v.cmp("!=", 0)
            if r is None:
                return self.fork(("nz", v.tag), "%r != 0" % v)
            return r
        if isinstance(v, AList):
            return len(v.v) != 0
        if isinstance(v, (ADict, ASet)):
            return len(v) != 0
        if isinstance(v, self.bt.View):
            return len(v.d) != 0
        if isinstance(v, AObj):
            f = v.cls.lookup("__bool__")
            if f is not None:
                return self.truth(self.call(self.bind(f, v), [], {}))
            f = v.cls.lookup("__len__")
            if f is not None:
                return self.truth(self.call(self.bind(f, v), [], {}))
            if v.base is not None:
                return self.truth(v.base)
            return True
        if isinstance(v, self.np.NDArr):
            return self.np.truth(self, v)
        if isinstance(v, self.np.Masked):
            return False
        return True

    def binop(self, op, a, b):
        if op in ("|", "&", "-", "^"):
            a, b = self.viewset(a), self.viewset(b)
        ca = isinstance(a, CONST) and not isinstance(a, Cond)
        cb = isinstance(b, CONST)
        if ca and cb:
            if op == "%" and isinstance(a, str):
                return self.bt.strformat(self, a, b)
            return self.host(_HB[op], a, b)
        if isinstance(a, self.np.NDArr) or isinstance(b, self.np.NDArr) or isinstance(a, self.np.Masked) or isinstance(b, self.np.Masked):
            if isinstance(b, AObj) and not isinstance(b.cls.host, type) and b.cls.lookup(_RD[op]) is not None:
                return self.call(self.bind(b.cls.lookup(_RD[op]), b), [a], {})
            return self.np.binop(self, op, a, b)
        if isinstance(a, AObj) or isinstance(b, AObj):
            ra = self.bt.unbase(a)
            rb = self.bt.unbase(b)
            if isinstance(a, AObj):
                f = a.cls.lookup(_D[op])
                if f is not None:
                    r = self.call(self.bind(f, a), [b], {})
                    if r is not NOTIMPL:
                        return r
            if isinstance(b, AObj):
                f = b.cls.lookup(_RD[op])
                if f is not None:
                    r = self.call(self.bind(f, b), [a], {})
                    if r is not NOTIMPL:
                        return r
            if ra is not a or rb is not b:
                if not isinstance(ra, AObj) and not isinstance(rb, AObj):
                    return self.binop(op, ra, rb)
            raise self.exc("TypeError", "unsupported operand type(s) for %s: '%s' and '%s'" % (op, self.typeof(a).name, self.typeof(b).name))
        if isinstance(a, (Poly, Rng, Cond)) or isinstance(b, (Poly, Rng, Cond)):
            if isinstance(a, Cond):
                a = self.truth(a)
            if isinstance(b, Cond):
                b = self.truth(b)
            if isinstance(a, (Poly, Rng, int, float, Fraction)) and isinstance(b, (Poly, Rng, int, float, Fraction)):
                return self.np.sbin(self, op, a, b)
            if op == "%" and isinstance(a, str):
                return self.bt.strformat(self, a, b)
            raise self.exc("TypeError", "unsupported operand types for %s: %r %r" % (op, a, b))
        if isinstance(a, tuple) and isinstance(b, tuple) and op == "+":
            return a + b
        if op == "*" and isinstance(a, (tuple, AList)) and isinstance(b, int):
            return a * b if isinstance(a, tuple) else AList(self, a.v * b)
        if op == "*" and isinstance(b, (tuple, AList)) and isinstance(a, int):
            return b * a if isinstance(b, tuple) else AList(self, b.v * a)
        if isinstance(a, AList) and isinstance(b, AList) and op == "+":
            return AList(self, a.v + b.v)
        if isinstance(a, ASet) and isinstance(b, ASet):
            if op == "|":
                return ASet(self, a.items() + b.items())
            if op == "&":
                return ASet(self, [x for x in a.items() if b.d.has(self, x)])
            if op == "-":
                return ASet(self, [x for x in a.items() if not b.d.has(self, x)])
            if op == "^":
                return ASet(self, [x for x in a.items() if not b.d.has(self, x)] + [x for x in b.items() if not a.d.has(self, x)])
        if isinstance(a, ADict) and isinstance(b, ADict) and op == "|":
            return ADict(self, a.items() + b.items())
        if isinstance(a, str) and op == "%":
            return self.bt.strformat(self, a, b)
        if isinstance(a, HVal) or isinstance(b, HVal):
            k = (op, a.k if isinstance(a, HVal) else ("c", a), b.k if isinstance(b, HVal) else ("c", b))
            if op in ("^", "+", "*", "|", "&"):
                k = (op,) + tuple(sorted(k[1:], key=repr))
            return HVal(k)
        if isinstance(a, (HostObj, BFn, AMod)) or isinstance(b, (HostObj, BFn, AMod)):
            raise Unsupported("operator %s on %r, %r" % (op, a, b))
        raise self.exc("TypeError", "unsupported operand type(s) for %s: '%s' and '%s'" % (op, self.typeof(a).name, self.typeof(b).name))

    def viewset(self, v):
        """Keys and items views take part in set operations."""
        if isinstance(v, self.bt.View) and v.kind in ("keys", "items"):
            return ASet(self, list(self.iterate(v)))
        return v

    def compare(self, op, a, b):
        a, b = self.viewset(a), self.viewset(b)
        if isinstance(a, NPFloat) or isinstance(b, NPFloat):
            pass
        if isinstance(a, Cond):
            a = self.truth(a)
        if isinstance(b, Cond):
            b = self.truth(b)
        if isinstance(a, CONST) and isinstance(b, CONST):
            if op == "==":
                return a == b
            if op == "!=":
                return a != b
            return self.host(HOSTCMP[op], a, b)
        if isinstance(a, self.np.NDArr) or isinstance(b, self.np.NDArr):
            return self.np.compare(self, op, a, b)
        if isinstance(a, self.np.Masked) or isinstance(b, self.np.Masked):
            return self.np.MASKED
        if isinstance(a, AObj) or isinstance(b, AObj):
            d, rd = CMPDUNDER[op]
            if isinstance(b, AObj) and isinstance(a, AObj) and b.cls is not a.cls and b.cls.issub(a.cls) and b.cls.lookup_owner(rd) is not a.cls.lookup_owner(rd):
                f = b.cls.lookup(rd)
                if f is not None:
                    r = self.call(self.bind(f, b), [a], {})
                    if r is not NOTIMPL:
                        return r
            if isinstance(a, AObj):
                f = a.cls.lookup(d)
                if f is not None:
                    r = self.call(self.bind(f, a), [b], {})
                    if r is not NOTIMPL:
                        return r
            if isinstance(b, AObj):
                f = b.cls.lookup(rd)
                if f is not None:
                    r = self.call(self.bind(f, b), [a], {})
                    if r is not NOTIMPL:
                        return r
            if op == "!=":
                # default __ne__ inverts __eq__
                if isinstance(a, AObj) and a.cls.lookup("__eq__") is not None or isinstance(b, AObj) and b.cls.lookup("__eq__") is not None:
                    return not self.truth(self.compare("==", a, b))
            ra, rb = self.bt.unbase(a), self.bt.unbase(b)
            if (ra is not a or rb is not b) and not isinstance(ra, AObj) and not isinstance(rb, AObj):
                return self.compare(op, ra, rb)
            if op == "==":
                return a is b
            if op == "!=":
                return a is not b
            raise self.exc("TypeError", "'%s' not supported between instances of '%s' and '%s'" % (op, self.typeof(a).name, self.typeof(b).name))
        if isinstance(a, (Poly, Rng)) or isinstance(b, (Poly, Rng)):
            num = (Poly, Rng, bool, int, float, Fraction)
            if isinstance(a, num) and isinstance(b, num):
                return self.np.scmp(self, op, a, b)
            if op == "==":
                return False
            if op == "!=":
                return True
            raise self.exc("TypeError", "'%s' not supported between %r and %r" % (op, a, b))
        if isinstance(a, tuple) and isinstance(b, tuple):
            return self.seqcmp(op, a, b)
        if isinstance(a, AList) and isinstance(b, AList):
            return self.seqcmp(op, a.v, b.v)
        if isinstance(a, ADict) and isinstance(b, ADict):
            if op in ("==", "!="):
                eq = len(a) == len(b)
                if eq:
                    if a.ordered and b.ordered:
                        eq = all(self.same_key(x, y) and self.same_key(v, w) for (x, v), (y, w) in zip(a.items(), b.items()))
                    else:
                        for k, v in a.items():
                            if not b.has(self, k) or not (v is b.get(self, k) or self.truth(self.compare("==", v, b.get(self, k)))):
                                eq = False
                                break
                return eq if op == "==" else not eq
        if isinstance(a, ASet) and isinstance(b, ASet):
            sub = lambda p, q: all(q.d.has(self, x) for x in p.items())
            if op == "==":
                return len(a) == len(b) and sub(a, b)
            if op == "!=":
                return not (len(a) == len(b) and sub(a, b))
            if op == "<=":
                return sub(a, b)
            if op == "<":
                return len(a) < len(b) and sub(a, b)
            if op == ">=":
                return sub(b, a)
            if op == ">":
                return len(b) < len(a) and sub(b, a)
        if isinstance(a, slice) and isinstance(b, slice) and op in ("==", "!="):
            r = self.seqcmp("==", (a.start, a.stop, a.step), (b.start, b.stop, b.step))
            return r if op == "==" else not r
        if isinstance(a, HVal) and isinstance(b, HVal):
            if op == "==":
                return a == b
            if op == "!=":
                return a != b
        if isinstance(a, Bound) and isinstance(b, Bound) and op in ("==", "!="):
            r = a.func is b.func and a.self is b.self
            return r if op == "==" else not r
        if isinstance(a, HostObj) and isinstance(b, HostObj) and op in ("==", "!="):
            r = a.o == b.o
            return r if op == "==" else not r
        if isinstance(a, self.np.DType) or isinstance(b, self.np.DType):
            r = self.np.dtype_eq(self, a, b)
            return r if op == "==" else not r
        if op == "==":
            return a is b
        if op == "!=":
            return a is not b
        raise self.exc("TypeError", "'%s' not supported between instances of '%s' and '%s'" % (op, self.typeof(a).name, self.typeof(b).name))

    def seqcmp(self, op, a, b):
        if op in ("==", "!="):
            eq = len(a) == len(b) and all(x is y or self.truth(self.compare("==", x, y)) for x, y in zip(a, b))
            return eq if op == "==" else not eq
        for x, y in zip(a, b):
            if not (x is y or self.truth(self.compare("==", x, y))):
                return self.compare(op, x, y)
        return HOSTCMP[op](len(a), len(b))

    def contains(self, c, x):
        if isinstance(c, str):
            if not isinstance(x, str):
                raise self.exc("TypeError", "'in <string>' requires string")
            return x in c
        if isinstance(c, bytes):
            return x in c
        if isinstance(c, ADict):
            return c.has(self, x)
        if isinstance(c, ASet):
            return c.d.has(self, x)
        if isinstance(c, AObj):
            f = c.cls.lookup("__contains__")
            if f is not None:
                return self.truth(self.call(self.bind(f, c), [x], {}))
        if isinstance(c, AClass):
            raise self.exc("TypeError", "argument of type 'type' is not iterable")
        if isinstance(c, self.bt.AttrDict):
            return self.contains(c.asdict(self), x)
        for y in self.iterate(c):
            if y is x or self.truth(self.compare("==", y, x)):
                return True
        return False

    # ---------------------------------------------------------------- subscripts
    def getitem(self, o, k):
        if isinstance(o, AObj):
            f = o.cls.lookup("__getitem__")
            if f is not None:
                return self.call(self.bind(f, o), [k], {})
            if isinstance(o.base, ADict) and o.cls.lookup("__missing__") is not None and not self.contains(o.base, k):
                return self.call(self.bind(o.cls.lookup("__missing__"), o), [k], {})
            if o.base is not None:
                return self.getitem(o.base, k)
            raise self.exc("TypeError", "'%s' object is not subscriptable" % o.cls.name)
        if isinstance(o, ADict):
            hk, num = o._find(self, k)
            if num is None:
                raise self.exc("KeyError", k)
            return o.ent[num][1]
        if isinstance(o, (tuple, AList, str, bytes)):
            seq = o.v if isinstance(o, AList) else o
            if isinstance(k, slice):
                r = seq[self.hostslice(k)]
                return AList(self, r) if isinstance(o, AList) else r
            i = self.index(k)
            if not -len(seq) <= i < len(seq):
                raise self.exc("IndexError", "%s index out of range" % self.typeof(o).name)
            return seq[i]
        if isinstance(o, (self.np.NDArr, self.np.DType)):
            return self.np.getitem(self, o, k)
        return self.bt.getitem(self, o, k)

    def index(self, k):
        if isinstance(k, bool):
            return int(k)
        if isinstance(k, int):
            return k
        if isinstance(k, self.np.NDArr) and k.shape == ():
            return self.index(k.item())
        if isinstance(k, Rng):
            k = k.norm()
            if isinstance(k, int):
                return k
            raise Unsupported("interval index %r" % (k,))
        if isinstance(k, Poly):
            raise Unsupported("symbolic index")
        if isinstance(k, AObj):
            f = k.cls.lookup("__index__")
            if f is not None:
                return self.call(self.bind(f, k), [], {})
        raise self.exc("TypeError", "indices must be integers or slices, not %s" % self.typeof(k).name)

    def hostslice(self, s):
        def h(x):
            return None if x is None else self.index(x)
        return slice(h(s.start), h(s.stop), h(s.step))

    def setitem(self, o, k, v):
        if isinstance(o, AObj):
            f = o.cls.lookup("__setitem__")
            if f is None:
                if isinstance(o.base, (ADict, AList)):
                    return self.setitem(o.base, k, v)
                raise self.exc("TypeError", "'%s' object does not support item assignment" % o.cls.name)
            self.call(self.bind(f, o), [k, v], {})
        elif isinstance(o, ADict):
            o.set(self, k, v)
        elif isinstance(o, AList):
            if isinstance(k, slice):
                o.v[self.hostslice(k)] = list(self.iterate(v))
            else:
                i = self.index(k)
                if not -len(o.v) <= i < len(o.v):
                    raise self.exc("IndexError", "list assignment index out of range")
                o.v[i] = v
            o.wrote(self)
        elif isinstance(o, self.np.NDArr):
            self.np.setitem(self, o, k, v)
        elif isinstance(o, self.bt.AttrDict):
            o.o.setattr(self, k, v)
        else:
            raise self.exc("TypeError", "'%s' object does not support item assignment" % self.typeof(o).name)

    def delitem(self, o, k):
        if isinstance(o, AObj):
            f = o.cls.lookup("__delitem__")
            if f is None:
                if isinstance(o.base, (ADict, AList)):
                    return self.delitem(o.base, k)
                raise self.exc("TypeError", "object doesn't support item deletion")
            self.call(self.bind(f, o), [k], {})
        elif isinstance(o, ADict):
            if not o.delete(self, k):
                raise self.exc("KeyError", k)
        elif isinstance(o, self.bt.AttrDict):
            if k not in o.o.attrs:
                raise self.exc("KeyError", k)
            del o.o.attrs[k]
            o.o.wrote(self)
        elif isinstance(o, AList):
            if isinstance(k, slice):
                del o.v[self.hostslice(k)]
            else:
                i = self.index(k)
                if not -len(o.v) <= i < len(o.v):
                    raise self.exc("IndexError", "list assignment index out of range")
                del o.v[i]
            o.wrote(self)
        else:
            raise Unsupported("del item of %r" % (o,))

    # ---------------------------------------------------------------- iteration
    def iterate(self, v):
        """Host iterator over an abstract iterable."""
        if isinstance(v, tuple):
            return iter(v)
        if isinstance(v, AList):
            return self._iterlist(v)
        if isinstance(v, AIter):
            return v.it
        if isinstance(v, ADict):
            return self._iterdict(v)
        if isinstance(v, ASet):
            items = v.items()
            if self.setorder:
                items = list(items)
                if self.setorder == 1:
                    items.reverse()
                else:
                    random.Random(self.setorder * 1000 + len(items)).shuffle(items)
            return iter(items)
        if isinstance(v, str):
            return iter(v)
        if isinstance(v, bytes):
            return iter(v)
        if isinstance(v, range):
            return iter(v)
        if isinstance(v, self.np.NDArr):
            return self.np.iterate(self, v)
        if isinstance(v, AObj):
            f = v.cls.lookup("__iter__")
            if f is not None:
                return self.iterate(self.call(self.bind(f, v), [], {}))
            if v.base is not None:
                return self.iterate(v.base)
            f = v.cls.lookup("__next__")
            if f is not None:
                return self._iternext(v, f)
            f = v.cls.lookup("__getitem__")
            if f is not None:
                return self._itergetitem(v)
        r = self.bt.iterate(self, v)
        if r is not None:
            return r
        raise self.exc("TypeError", "'%s' object is not iterable" % self.typeof(v).name)

    def _iternext(self, v, f):
        while True:
            try:
                x = self.call(self.bind(f, v), [], {})
            except PyExc as e:
                if e.name == "StopIteration":
                    return
                raise
            yield x

    def _itergetitem(self, v):
        i = 0
        while True:
            try:
                x = self.getitem(v, i)
            except PyExc as e:
                if e.name == "IndexError":
                    return
                raise
            yield x
            i += 1

    def _iterlist(self, v):
        i = 0
        while i < len(v.v):
            yield v.v[i]
            i += 1

    def _iterdict(self, v):
        n = len(v.ent)
        for k in list(v.ent):
            if len(v.ent) != n:
                raise self.exc("RuntimeError", "dictionary changed size during iteration")
            if k in v.ent:
                yield v.ent[k][0]

    # ---------------------------------------------------------------- expressions
    def eval(self, e, scope):
        return _EVAL[type(e)](self, e, scope)

    def e_Constant(self, e, scope):
        return e.value

    def e_Name(self, e, scope):
        v = scope.vars.get(e.id, _MISSING)
        if v is not _MISSING:
            return v
        return self.lookup(e.id, scope)

    def e_Attribute(self, e, scope):
        return self.getattr(self.eval(e.value, scope), e.attr)

    def e_Subscript(self, e, scope):
        o = self.eval(e.value, scope)
        return self.getitem(o, self.eval(e.slice, scope))

    def e_Slice(self, e, scope):
        f = lambda x: None if x is None else self.eval(x, scope)
        return slice(f(e.lower), f(e.upper), f(e.step))

    def e_Index(self, e, scope):
        return self.eval(e.value, scope)

    def e_Call(self, e, scope):
        # zero-argument super()
        fn = e.func
        if isinstance(fn, ast.Name) and fn.id == "super" and not e.args and "super" not in scope.module.ns:
            fr = self.frame
            while fr is not None and (fr.func is None or fr.func.owner is None):
                fr = fr.back
            if fr is None:
                raise self.exc("RuntimeError", "super(): no arguments")
            node = fr.func.node
            first = (node.args.posonlyargs + node.args.args)[0].arg
            sc = scope
            while sc is not None and first not in sc.vars:
                sc = sc.parent
            if sc is None:
                raise Unsupported("super() without arguments")
            return Super(fr.func.owner, sc.vars[first])
        f = self.eval(fn, scope)
        args = []
        for a in e.args:
            if type(a) is ast.Starred:
                args.extend(self.iterate(self.eval(a.value, scope)))
            else:
                args.append(self.eval(a, scope))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.eval(k.value, scope)
                for kk in self.iterate(d):
                    if not isinstance(kk, str):
                        raise self.exc("TypeError", "keywords must be strings")
                    if kk in kw:
                        raise self.exc("TypeError", "got multiple values for keyword argument '%s'" % kk)
                    kw[kk] = self.getitem(d, kk)
            else:
                kw[k.arg] = self.eval(k.value, scope)
        if f is self.builtins["globals"]:
            return ADict(self, list(scope.module.ns.items()))
        if f is self.builtins["locals"]:
            return ADict(self, list(scope.vars.items()))
        self.frame.line = e.lineno
        return self.call(f, args, kw)

    def e_BinOp(self, e, scope):
        a = self.eval(e.left, scope)
        b = self.eval(e.right, scope)
        return self.binop(BINOPS[type(e.op)][0], a, b)

    def e_UnaryOp(self, e, scope):
        v = self.eval(e.operand, scope)
        if isinstance(e.op, ast.Not):
            return not self.truth(v)
        return self.unary({ast.USub: "-", ast.UAdd: "+", ast.Invert: "~"}[type(e.op)], v)

    def unary(self, op, v):
        if isinstance(v, Cond):
            v = self.truth(v)
        if isinstance(v, CONST):
            return self.host({"-": operator.neg, "+": operator.pos, "~": operator.invert}[op], v)
        if isinstance(v, (Poly, Rng)):
            if op == "-":
                return self.np.sbin(self, "*", v, -1)
            if op == "+":
                return v
        if isinstance(v, self.np.NDArr):
            return self.np.unary(self, op, v)
        if isinstance(v, AObj):
            f = v.cls.lookup({"-": "__neg__", "+": "__pos__", "~": "__invert__"}[op])
            if f is not None:
                return self.call(self.bind(f, v), [], {})
        raise self.exc("TypeError", "bad operand type for unary %s: '%s'" % (op, self.typeof(v).name))

    def e_BoolOp(self, e, scope):
        isand = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.eval(x, scope)
            if i == len(e.values) - 1:
                return v
            if self.truth(v) != isand:
                return v
        return v

    def e_Compare(self, e, scope):
        left = self.eval(e.left, scope)
        res = True
        for i, (op, c) in enumerate(zip(e.ops, e.comparators)):
            right = self.eval(c, scope)
            t = type(op)
            if t in CMPOPS:
                res = self.compare(CMPOPS[t], left, right)
            elif t is ast.Is:
                res = self.is_(left, right)
            elif t is ast.IsNot:
                res = not self.is_(left, right)
            elif t is ast.In:
                res = self.contains(right, left)
            else:
                res = not self.contains(right, left)
            if i < len(e.ops) - 1:
                if not self.truth(res):
                    return res
            left = right
        return res

    def is_(self, a, b):
        if a is b:
            return True
        if isinstance(a, (bool, type(None))) or isinstance(b, (bool, type(None))):
            if isinstance(a, Cond):
                a = self.truth(a)
            if isinstance(b, Cond):
                b = self.truth(b)
            return a is b
        if isinstance(a, (int, str)) and type(a) is type(b):
            return a == b
        if isinstance(a, Bound) and isinstance(b, Bound):
            return False
        if isinstance(a, HostObj) and isinstance(b, HostObj):
            return a.o is b.o
        if isinstance(a, tuple) and isinstance(b, tuple) and a == () and b == ():
            return True
        return False

    def e_IfExp(self, e, scope):
        return self.eval(e.body if self.truth(self.eval(e.test, scope)) else e.orelse, scope)

    def e_Tuple(self, e, scope):
        out = []
        for x in e.elts:
            if type(x) is ast.Starred:
                out.extend(self.iterate(self.eval(x.value, scope)))
            else:
                out.append(self.eval(x, scope))
        return tuple(out)

    def e_List(self, e, scope):
        return AList(self, self.e_Tuple(e, scope))

    def e_Set(self, e, scope):
        return ASet(self, self.e_Tuple(e, scope))

    def e_Dict(self, e, scope):
        d = ADict(self)
        for k, v in zip(e.keys, e.values):
            if k is None:
                src = self.eval(v, scope)
                for kk in self.iterate(src):
                    d.set(self, kk, self.getitem(src, kk), init=True)
            else:
                kk = self.eval(k, scope)
                d.set(self, kk, self.eval(v, scope), init=True)
        return d

    def e_Lambda(self, e, scope):
        return self.makefunc(e, scope, "<lambda>")

    def comp(self, e, scope, emit):
        # comprehension scope: closes over enclosing function scope (class scopes are skipped by lookup)
        inner = Scope(scope, scope.module, set())
        inner.locals = None
        names = set()
        for g in e.generators:
            for x in ast.walk(g.target):
                if isinstance(x, ast.Name):
                    names.add(x.id)
        inner.locals = names
        first = self.iterate(self.eval(e.generators[0].iter, scope))

        def rec(i, it):
            g = e.generators[i]
            for v in it:
                self.steps += 1
                self.assign(g.target, v, inner)
                ok = True
                for c in g.ifs:
                    if not self.truth(self.eval(c, inner)):
                        ok = False
                        break
                if not ok:
                    continue
                if i + 1 == len(e.generators):
                    yield emit(inner)
                else:
                    for y in rec(i + 1, self.iterate(self.eval(e.generators[i + 1].iter, inner))):
                        yield y
        return rec(0, first)

    def e_ListComp(self, e, scope):
        return AList(self, self.comp(e, scope, lambda s: self.eval(e.elt, s)))

    def e_SetComp(self, e, scope):
        return ASet(self, list(self.comp(e, scope, lambda s: self.eval(e.elt, s))))

    def e_DictComp(self, e, scope):
        return ADict(self, list(self.comp(e, scope, lambda s: (self.eval(e.key, s), self.eval(e.value, s)))))

    def e_GeneratorExp(self, e, scope):
        fr = self.frame
        g = self.comp(e, scope, lambda s: self.eval(e.elt, s))

        def run():
            gf = Frame(fr.file, fr.qual, e.lineno, fr.module, None, fr.func)
            while True:
                old = self.frame
                gf.back = old
                self.frame = gf
                try:
                    v = next(g)
                except StopIteration:
                    return
                finally:
                    self.frame = old
                yield v
        return AIter(run())

    def e_Starred(self, e, scope):
        raise Unsupported("starred expression")

    def e_JoinedStr(self, e, scope):
        out = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                out.append(x.value)
            else:
                out.append(self.e_FormattedValue(x, scope))
        return "".join(out)

    def e_FormattedValue(self, e, scope):
        v = self.eval(e.value, scope)
        if e.conversion == 114:
            v = self.bt.repr_(self, v)
        elif e.conversion == 115:
            v = self.bt.str_(self, v)
        spec = self.eval(e.format_spec, scope) if e.format_spec is not None else ""
        return self.bt.format_(self, v, spec)

    def e_NamedExpr(self, e, scope):
        v = self.eval(e.value, scope)
        sc = scope
        while sc.locals is not None and e.target.id not in sc.locals and sc.parent is not None:
            sc = sc.parent
        self.store(e.target.id, v, sc)
        return v


_MISSING = object()
_CONSTLIKE = (type(None), bool, int, float, str, bytes, AClass, AFunc, AMod, BFn)
_PURE = _CONSTLIKE + (tuple, AObj, Poly, Rng, HVal, StaticM, ClassM, Prop)


class Cond(object):
    """A comparison not determined by the abstract state; decided (by partitioning) on use."""
    __slots__ = ("key", "neg", "why", "refine")

    def __init__(self, key, neg=False, why="", refine=None):
        self.key = key
        self.neg = neg
        self.why = why
        self.refine = refine     # (tag, op, constant) for interval comparisons

    def decide(self, m):
        if self.refine is not None:
            # the interval may have been narrowed since this comparison was formed
            r = m.np.rngcmp(m, *self.refine)
            if r is None:
                r = m.fork(self.key, self.why)
                m.np.assume(m, self.refine, r)
        else:
            r = m.fork(self.key, self.why)
        return (not r) if self.neg else r

    def __repr__(self):
        return "Cond(%s%s)" % ("not " if self.neg else "", self.why or self.key)


_HB = dict((v[0], v[4]) for v in BINOPS.values())
_D = dict((v[0], v[1]) for v in BINOPS.values())
_RD = dict((v[0], v[2]) for v in BINOPS.values())


class _Eval(dict):
    def __missing__(self, k):
        f = getattr(Machine, "e_" + k.__name__, None)
        if f is None:
            raise Unsupported("expression %s" % k.__name__)
        self[k] = f
        return f


_EVAL = _Eval()


def explore(machine_factory, run, path_limit=PATH_LIMIT):
    """Enumerate all trace partitions of `run(m)`.  Yields (taken, outcome)."""
    pending = [[]]
    n = 0
    while pending:
        dec = pending.pop()
        m = machine_factory()
        m.reset(dec)
        n += 1
        if n > path_limit:
            yield [], ("unsupported", Unsupported("path limit")), m
            return
        try:
            out = ("ok", run(m))
        except PyExc as e:
            out = ("raise", e)
        except Unsupported as e:
            e.where = m.here()
            e.stack = m.stack()
            out = ("unsupported", e)
        except RecursionError as e:
            u = Unsupported("analyser recursion limit")
            u.where = None
            out = ("unsupported", u)
        made = m.decisions[:m.pos]
        for i in range(len(dec), len(made)):
            pending.append(made[:i] + [not made[i]])
        yield m.taken, out, m
