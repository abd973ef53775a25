"""Puts the iteration order of every set the code under test builds, and every directory listing,
clock, pid and random number it reads, under the control of a chooser.

`install()` (before turms is imported) makes the import system rewrite turms' modules: set displays,
set comprehensions and the names set/frozenset become an owned class whose iteration order is a
choice.  Sets are otherwise ordinary sets.
"""
import ast
import builtins
import importlib.abc
import importlib.machinery
import os
import sys

CH = [None]  # the chooser of the running execution


def order(items, label):
    items = list(items)
    ch = CH[0]
    if ch is None or len(items) < 2:
        return items
    try:
        items.sort(key=lambda x: (type(x).__name__, str(x)))
    except Exception:
        pass
    opts = [items, items[::-1]]
    if len(items) > 2:
        opts.append(items[1:] + items[:1])
    return ch.pick(opts, label)


def make(base):
    class Owned(base):
        def __iter__(self):
            return iter(order(base.__iter__(self), f"set of {len(self)}"))

        def __repr__(self):
            return "{" + ", ".join(map(repr, self)) + "}"

    def wrap(name):
        f = getattr(base, name)

        def m(self, *a):
            r = f(self, *a)
            return Owned(r) if type(r) is base else r
        m.__name__ = name
        return m

    for n in ("__or__", "__and__", "__sub__", "__xor__", "__ror__", "__rand__", "__rsub__", "__rxor__", "union", "intersection",
              "difference", "symmetric_difference", "copy"):
        setattr(Owned, n, wrap(n))
    if base is set:
        def pop(self):
            x = next(iter(self))
            self.remove(x)
            return x
        Owned.pop = pop
    Owned.__name__ = Owned.__qualname__ = base.__name__
    return Owned


OwnedSet, OwnedFrozen = make(set), make(frozenset)


class Rewrite(ast.NodeTransformer):
    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Load) and n.id in ("set", "frozenset"):
            return ast.copy_location(ast.Name("mc_owned_" + n.id, ast.Load()), n)
        return n

    def visit_Set(self, n):
        self.generic_visit(n)
        return ast.copy_location(ast.Call(ast.Name("mc_owned_set", ast.Load()), [ast.List(n.elts, ast.Load())], []), n)

    def visit_SetComp(self, n):
        self.generic_visit(n)
        return ast.copy_location(ast.Call(ast.Name("mc_owned_set", ast.Load()), [ast.ListComp(n.elt, n.generators)], []), n)


class Loader(importlib.machinery.SourceFileLoader):
    def source_to_code(self, data, path, *, _optimize=-1):
        tree = Rewrite().visit(ast.parse(data, path))
        return compile(ast.fix_missing_locations(tree), path, "exec", dont_inherit=True)

    def get_code(self, fullname):  # never from a bytecode cache
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name != "turms" and not name.startswith("turms."):
            return None
        spec = importlib.machinery.PathFinder.find_spec(name, path)
        if spec and isinstance(spec.loader, importlib.machinery.SourceFileLoader):
            spec.loader = Loader(spec.loader.name, spec.loader.path)
        return spec


def install():
    assert not any(m == "turms" or m.startswith("turms.") for m in sys.modules), "turms is imported already"
    builtins.mc_owned_set, builtins.mc_owned_frozenset = OwnedSet, OwnedFrozen
    sys.meta_path.insert(0, Finder())

    real_listdir, real_scandir = os.listdir, os.scandir

    def listdir(*a):
        return order(real_listdir(*a), "listdir")

    class Scan:
        def __init__(self, *a):
            with real_scandir(*a) as it:
                self.it = iter(order(list(it), "scandir"))

        def __iter__(self):
            return self.it

        def __next__(self):
            return next(self.it)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass

        def close(self):
            pass

    os.listdir, os.scandir = listdir, Scan


def env_reads():
    """Clocks, pids and random sources: every read is a choice between two answers."""
    import datetime
    import random
    import time
    import uuid

    def two(a, b, label):
        def f(*_a, **_k):
            return CH[0].pick([a, b], label) if CH[0] else a
        return f

    t0, t1 = 1_700_000_000.25, 1_900_000_000.75
    time.time = two(t0, t1, "time")
    time.time_ns = two(int(t0 * 1e9), int(t1 * 1e9), "time_ns")
    real = {n: getattr(time, n) for n in ("localtime", "gmtime", "strftime", "ctime")}
    time.localtime = lambda *a: real["localtime"](*(a or (time.time(),)))
    time.gmtime = lambda *a: real["gmtime"](*(a or (time.time(),)))
    time.strftime = lambda f, *a: real["strftime"](f, *(a or (time.localtime(),)))
    os.getpid = two(4242, 777, "pid")
    os.urandom = lambda n: two(b"\0" * n, b"\1" * n, "urandom")()
    for n in ("uuid1", "uuid4"):
        setattr(uuid, n, two(uuid.UUID(int=1), uuid.UUID(int=2), n))
    for n, a, b in (("random", .1, .9), ("getrandbits", 0, 1)):
        setattr(random, n, two(a, b, n))
    random.choice = lambda s: two(s[0], s[-1], "choice")()
    random.shuffle = lambda s: s.reverse() if two(0, 1, "shuffle")() else None

    class DT(datetime.datetime):
        @classmethod
        def now(cls, tz=None):
            return cls.fromtimestamp(time.time(), tz)
        today = utcnow = now

    class D(datetime.date):
        @classmethod
        def today(cls):
            return cls.fromtimestamp(time.time())

    datetime.datetime, datetime.date = DT, D
