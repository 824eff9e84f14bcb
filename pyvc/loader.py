"""Loads the source of /repo/rebulk, mechanically rewritten, as the package `vrebulk`.
Nothing is cached: every run reads and rewrites the current working tree."""
import ast
import builtins
import os
import sys
import types
import z3
from . import builtins_ as pv
from . import terms as T
from .engine import Engine, Unsupported, PathEnd
from .transform import transform_source
from .values import (E, SInt, SBool, SVal, SFn, SymList, SymDict, SymSet, SymIter, Poison, bterm, decode, encode, iterate, lst_iter,
                     prog, stamp, kind_of)

REPO = os.environ.get("REBULK_REPO", "/repo")
ABC_SRC = "/usr/lib/python3.12/_collections_abc.py"
real_import = builtins.__import__


class Stub(types.ModuleType):
    pass


# ------------------------------------------------------------------ models of library functions (assumed contracts)
class GroupBy:
    def __init__(self, src, key):
        self.src, self.key = src, key

    def _vc_iter(self):
        s = iterate(self.src)
        if not isinstance(s, SymIter):
            import itertools
            out = []
            for x in s:
                k = self.key(x)
                if out and bool(out[-1][0] == k):
                    out[-1][1].append(x)
                else:
                    out.append((k, [x]))
            return out
        if s.lst is None:
            raise Unsupported("groupby")
        r = SymIter(None, None, None, None)
        r.groupby = (s, self.key)
        return r


def m_groupby(it, key=None):
    return GroupBy(it, key or (lambda v: v))


class Chain:
    def __new__(cls, *its):
        r = SymList()
        for i in its:
            r.extend(i)
        return r

    @staticmethod
    def from_iterable(its):
        return Chain(*pv.iterate_concrete(its))


def m_reduce(f, it, *init):
    vals = pv.iterate_concrete(it)
    if init:
        acc = init[0]
    else:
        if not vals:
            raise prog(TypeError("reduce() of empty iterable with no initial value"))
        acc, vals = vals[0], vals[1:]
    for v in vals:
        acc = f(acc, v)
    return acc


def m_copy(x):
    if isinstance(x, (SymList, SymDict)):
        return x.clone() if isinstance(x, SymList) else x.copy()
    h = getattr(E(), "copy_hook", None)
    if h is not None:
        return h(x, False)
    raise Unsupported("copy.copy of %s" % type(x).__name__)


def m_deepcopy(x, memo=None):
    h = getattr(E(), "copy_hook", None)
    if h is not None:
        r = h(x, True)
        if r is not NotImplemented:
            return r
    if isinstance(x, (SVal, SInt, SBool, SFn, str, int, type(None), bool)):
        return x
    if isinstance(x, SymList) and (x.concrete or x.kind() in ("str", "optstr", "int", "char", "bool")):
        if x.concrete:
            r = SymList()
            r._items = [m_deepcopy(v) for v in x._items]
            return r
        return x.clone()
    if isinstance(x, SymDict) and not x.symbolic:
        r = SymDict()
        r._keys, r._vals = list(x._keys), [m_deepcopy(v) for v in x._vals]
        r._factory = x._factory
        return r
    if isinstance(x, tuple):
        return tuple(m_deepcopy(v) for v in x)
    raise Unsupported("deepcopy of %s" % type(x).__name__)


class _Log:
    def __call__(self, *a, **k):
        return None

    def log(self, *a, **k):
        return None

    def isEnabledFor(self, *a):
        return False

    debug = info = warning = error = log


class Loader:
    def __init__(self, repo=None, overrides=None):
        self.repo = repo or REPO
        self.mods = {}
        self.files = {}
        self.pkg = types.ModuleType("vrebulk")
        self.pkg.__path__ = []
        self.classes = []
        self.overrides = overrides or {}
        self.libs = {}
        self.unsupported_modules = {}
        self._make_libs()

    # ---- library models
    def _make_libs(self):
        import collections
        import collections.abc
        import inspect
        import itertools
        import functools
        import copy
        import logging
        L = self.libs

        def over(name, real, **kw):
            m = Stub(name)
            m.__dict__.update({k: v for k, v in vars(real).items() if not k.startswith("__")})
            m.__dict__.update(kw)
            L[name] = m
            return m
        cabc = over("collections.abc", collections.abc)
        abcs = self._abc_classes()
        cabc.MutableSequence = abcs["MutableSequence"]
        cabc.Sequence_ = abcs["Sequence"]
        cabc.MutableSet = abcs["MutableSet"]
        over("collections", collections, OrderedDict=SymDict, defaultdict=pv.defaultdict, abc=cabc)
        ch = Chain
        over("itertools", itertools, groupby=m_groupby, chain=ch)
        over("functools", functools, reduce=m_reduce)
        over("copy", copy, copy=m_copy, deepcopy=m_deepcopy)
        over("logging", logging, getLogger=lambda *a: _Log(), log=_Log())
        over("inspect", inspect)

    def _abc_classes(self):
        """The mixin methods of collections.abc, from CPython's own source, rewritten like the code under test."""
        src = open(ABC_SRC).read()
        tree = ast.parse(src)
        keep = [n for n in tree.body if isinstance(n, ast.ClassDef) and n.name in ("Sequence", "MutableSequence", "Set", "MutableSet")]
        for n in keep:
            n.bases = [b for b in n.bases if isinstance(b, ast.Name) and b.id in ("Sequence", "Set")]
            n.keywords = []
            n.body = [b for b in n.body if isinstance(b, ast.FunctionDef) and b.name in
                      ("__iter__", "__contains__", "__reversed__", "index", "count", "append", "clear", "reverse", "extend", "pop", "remove", "__iadd__", "__ior__", "__ixor__", "__isub__", "__iand__")
                      and not any(isinstance(d, ast.Name) and d.id == "abstractmethod" for d in b.decorator_list)] or [ast.Pass()]
        mod = ast.Module(keep, [])
        text = ast.unparse(mod)
        t = transform_source(text, "<collections.abc>", "collections.abc")
        ns = {"__name__": "vrebulk.abc", "pv__": pv, "__builtins__": vars(builtins)}
        exec(compile(t, "<collections.abc>", "exec"), ns)
        for c in ("Sequence", "MutableSequence", "Set", "MutableSet"):
            cl = ns[c]
            cl.__class_getitem__ = classmethod(lambda cls, item: cls)
            cl.__hash__ = None if c.endswith("Set") else object.__hash__
        return ns

    # ---- import of the code under verification
    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            if not name:
                for f in fromlist:
                    setattr(self.pkg, f, self.load(f))
                return self.pkg
            return self.load(name)
        if name in self.libs:
            return self.libs[name] if fromlist else self.libs[name.split(".")[0]]
        return real_import(name, globals, locals, fromlist, 0)

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        path = os.path.join(self.repo, "rebulk", name + ".py")
        src = open(path, encoding="utf-8").read()
        self.files[name] = src
        m = types.ModuleType("vrebulk." + name)
        m.__package__ = "vrebulk"
        m.__file__ = path
        self.mods[name] = m
        sys.modules["vrebulk." + name] = m
        if name in self.overrides:
            self.overrides[name](m)
            return m
        try:
            tree = transform_source(src, path, name)
        except NotImplementedError as x:
            raise Unsupported("module %s: %s" % (name, x))
        b = dict(vars(builtins))
        b["__import__"] = self._import
        m.__dict__["__builtins__"] = b
        m.__dict__["pv__"] = pv
        code = compile(tree, path, "exec")
        saved = Engine.cur
        Engine.cur = None
        LoadEngine.push()
        try:
            exec(code, m.__dict__)
        finally:
            Engine.cur = saved
        for v in list(vars(m).values()):
            if isinstance(v, type) and v.__module__ == m.__name__:
                self._prepare(v)
        return m

    def _prepare(self, cls):
        self.classes.append(cls)
        if issubclass(cls, (tuple, BaseException)) or hasattr(cls, "__dataclass_fields__"):
            return
        d = cls.__dict__
        if "__len__" in d and "__bool__" not in d and not issubclass(cls, (SymDict, SymList)):
            cls.__bool__ = lambda self: _truth(pv.b_len(self))
        if "__setattr__" not in d:
            cls.__setattr__ = _setattr
        if "__new__" not in d and cls.__bases__ == (object,) or any(getattr(b, "__module__", "") == "vrebulk.abc" for b in cls.__bases__):
            cls.__new__ = staticmethod(_new)
        cls.__repr__ = lambda self: "<%s>" % type(self).__name__


class LoadEngine:
    @staticmethod
    def push():
        return None


def _truth(n):
    if isinstance(n, SInt):
        return E().fork(n.t != 0)
    return bool(n)


def _new(cls, *a, **k):
    o = object.__new__(cls)
    o.__dict__["_born"] = stamp()
    return o


MISSING = object()


def _setattr(self, name, value):
    e = Engine.cur
    desc = None
    for c in type(self).__mro__:
        if name in c.__dict__:
            desc = c.__dict__[name]
            break
    if desc is not None and hasattr(type(desc), "__set__"):
        desc.__set__(self, value)
        return
    d = self.__dict__
    if e is not None:
        old = d.get(name, MISSING)

        def restore():
            if old is MISSING:
                d.pop(name, None)
            else:
                d[name] = old
        e.record((self, name), restore)
    d[name] = value


# ------------------------------------------------------------------ managed (heap) fields
class Managed:
    """Attribute of a class whose instances are symbolic references: value in E.heap."""

    def __init__(self, name, kind):
        self.name, self.kind = name, kind
        self.sort = z3.ArraySort(T.I, T.LST) if kind.startswith("list:") else T.ARR

    def __get__(self, obj, cls=None):
        if obj is None:
            return self
        e = E()
        if e is None:
            raise AttributeError(self.name)
        ref = obj.__dict__["_ref"]
        e.field(self.name, self.sort)
        if self.kind.startswith("list:"):
            name = self.name
            return SymList.of_slot(lambda: e.read(name, ref), lambda t: e.write(name, ref, t), self.kind[5:], ("field", name, ref))
        return decode(z3.simplify(e.read(self.name, ref)), self.kind)

    def __set__(self, obj, v):
        e = E()
        ref = obj.__dict__["_ref"]
        e.field(self.name, self.sort)
        if isinstance(v, Poison):
            v._p()
        if self.kind.startswith("list:"):
            if not isinstance(v, SymList):
                if type(v) is tuple:
                    v = SymList(v)
                else:
                    raise Unsupported("field %s set to a %s" % (self.name, type(v).__name__))
            if v._slot is not None:
                raise Unsupported("list shared between two fields")
            if v.kind() not in (None, self.kind[5:]):
                raise Unsupported("field %s: list of %s" % (self.name, v.kind()))
            e.write(self.name, ref, v.term())
            name = self.name
            v._save()
            v._items, v._t, v._kind = None, None, self.kind[5:]
            v._slot = (lambda: e.read(name, ref), lambda t: e.write(name, ref, t), ("field", name, ref))
            return
        if self.kind in ("int", "optint") and isinstance(v, str):
            raise Unsupported("field %s" % self.name)
        e.write(self.name, ref, encode(v))


def manage(cls, fields, kind="ref"):
    """Instances of cls become symbolic references with these heap fields."""
    for f, k in fields.items():
        setattr(cls, f, Managed(f, k))
    cls._vc_kind = kind
    cls._vc_managed = fields

    def new(c, *a, **k):
        o = object.__new__(c)
        o.__dict__["_born"] = stamp()
        e = E()
        o.__dict__["_ref"] = z3.simplify(e.alloc)
        e.alloc = z3.simplify(e.alloc + 1)
        return o
    cls.__new__ = staticmethod(new)


def mkref(cls, code):
    o = object.__new__(cls)
    o.__dict__["_ref"] = code
    o.__dict__["_born"] = 0
    return o
