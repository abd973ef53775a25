"""C16: merging a regeneration never loses user code and converges."""
import ast
import contextlib
import io
import os
import re

from ..merging import judge
from ..turmsio import GenFailed, LoadFailed, generate, loaded, plugins, scratch, stylers

ID = "C16"
LEVEL = "model_checking"
RULE = ("one case = one first step (user edit or schema change) of one kind of module (server skeleton, client models, pipelines of stages around "
        "the merge); from it all continuations up to the depth are explored breadth first with equal files visited once. A state is the text "
        "of the generated file, a transition is one edit or schema change followed by a regeneration through the real merging stage; a trace is a "
        "transition judged: nothing the user wrote is gone, moved or changed, everything generated is there, the module imports and merging "
        "again changes no byte. Outcomes: distinct (step, effect on the text).")
BOUNDS = {
    "quick": "server: 62 edits + 24 schema versions, all histories of length 2 (schema change or edit, each followed by a regeneration; after an edit 14 of the edits); client: all "
             "histories of length 2 over 35 edits + 16 schema/document versions; 12 pipelines of stages x 16 single steps",
    "thorough": "as quick with histories of length 3 for both kinds, pairs of edits without a regeneration in between, and length 2 under every pipeline",
}
ASSUMPTIONS = ["a generated assignment, field or function signature replaces what stands there under the same name (documented behaviour); user edits of those are not judged",
               "code that left the schema may stay in the file", "the user's edits are valid Python in themselves"]

# ---------------------------------------------------------------- schemas

BASE = {
    "Animal": "interface Animal { name: String! }",
    "Beast": "type Beast implements Animal { id: String name: String! legs: Int feats(first: Int!): [String!] }",
    "Kind": "enum Kind { CAT DOG }",
    "Person": "type Person { name: String kind: Kind }",
    "In": "input In { a: Int b: [In!] }",
    "Query": "type Query { beast(id: String!): Beast people(inp: In): [Person] }",
    "Mutation": "type Mutation { mk(inp: In!): Beast }",
}


def version(first=(), drop=(), last=(), order=None, **changes):
    d = dict(BASE)
    d.update(changes)
    for k in drop:
        del d[k]
    keys = order or list(d)
    d = {**dict(first), **{k: d[k] for k in keys}, **dict(last)}
    return "\n".join(d.values())


VERSIONS = {
    "base": version(),
    "field": version(Beast="type Beast implements Animal { id: String age: Int name: String! legs: Int feats(first: Int!): [String!] }"),
    "first": version(Beast="type Beast implements Animal { zero: Int id: String name: String! legs: Int feats(first: Int!): [String!] more(x: Int!): Int }"),
    "nofield": version(Beast="type Beast implements Animal { id: String name: String! feats(first: Int!): [String!] }"),
    "arg": version(Beast="type Beast implements Animal { id: String name: String! legs: Int feats(first: Int!, kind: Kind!): [String!] }"),
    "resolver": version(Beast="type Beast implements Animal { id: String name: String! legs(unit: String!): Int feats(first: Int!): [String!] }"),
    "plain": version(Beast="type Beast implements Animal { id: String name: String! legs: Int feats: [String!] }"),
    "retype": version(Beast="type Beast implements Animal { id: String name: String! legs: Float! feats(first: String!): [Int!] }"),
    "type": version(order=["Animal", "Beast", "Kind", "Zoo", "Person", "In", "Query", "Mutation"], Zoo="type Zoo { beast: Beast people: [Person] }",
                    Query="type Query { beast(id: String!): Beast people(inp: In): [Person] zoo: Zoo }"),
    "typelast": version(last={"Zoo": "type Zoo { beast: Beast kind: Kind }"}.items(), Query="type Query { beast(id: String!): Beast people(inp: In): [Person] zoo: Zoo }"),
    "typefirst": version(first={"Aaa": "type Aaa { x: Int }"}.items(), Person="type Person { name: String kind: Kind aaa: Aaa }"),
    "iface": version(last={"Tail": "interface Tail { long: Int }"}.items(), Beast="type Beast implements Animal & Tail { id: String name: String! long: Int legs: Int feats(first: Int!): [String!] }"),
    "noiface": version(Beast="type Beast { id: String name: String! legs: Int feats(first: Int!): [String!] }"),
    "ifaces": version(Person="type Person implements Animal { name: String! kind: Kind }"),
    "enumvalue": version(Kind="enum Kind { ANT CAT BIRD DOG }"),
    "enum": version(last={"Size": "enum Size { BIG }"}.items(), Person="type Person { name: String kind: Kind size: Size }"),
    "input": version(last={"Deep": "input Deep { x: Int k: Kind }"}.items(), In="input In { a: Int b: [In!] d: Deep }"),
    "union": version(last={"Any": "union Any = Beast | Person"}.items(), Query="type Query { beast(id: String!): Beast people(inp: In): [Person] any: Any }"),
    "notype": version(drop=["Person", "Mutation"], Query="type Query { beast(id: String!): Beast people(inp: In): [Kind] }"),
    "docs": version(Beast='"a beast" type Beast implements Animal { "its id" id: String name: String! legs: Int "its feats" feats(first: Int!): [String!] }', Query='"the root" type Query { "one beast" beast(id: String!): Beast people(inp: In): [Person] }'),
    "subscription": version(last={"Subscription": "type Subscription { watch(id: String!): Beast }"}.items()),
    "reversed": version(order=list(reversed(list(BASE)))),
    "scalar": version(first={"D": "scalar Day"}.items(), Person="type Person { name: String kind: Kind born: Day day(of: Day!): Day }"),
    "rename": version(drop=["Person"], last={"Human": "type Human { name: String kind: Kind }"}.items(), Query="type Query { beast(id: String!): Beast people(inp: In): [Human] }"),
}

DOCS = "\n".join([
    "fragment F on Beast { id name }",
    "query Get($id: String!) { beast(id: $id) { legs ...F } }",
    "query People($inp: In) { people(inp: $inp) { name kind } }",
    "mutation Mk($inp: In!) { mk(inp: $inp) { id } }",
])
ZOODOCS = "\n".join(x for x in DOCS.split("\n"))


def client_version(name):
    """(schema, documents) of a version of the client project"""
    sdl = VERSIONS.get(name, VERSIONS["base"])
    docs = {
        "docfield": DOCS.replace("{ legs ...F }", "{ legs feats(first: 1) ...F }"),
        "docfirst": DOCS.replace("{ legs ...F }", "{ id legs ...F }"),
        "docdrop": DOCS.replace("{ legs ...F }", "{ ...F }"),
        "docalias": DOCS.replace("{ legs ...F }", "{ legs paws: legs ...F }"),
        "docvar": DOCS.replace("Get($id: String!) { beast(id: $id)", "Get($id: String!, $n: Int!) { beast(id: $id)").replace("legs ...F", "legs feats(first: $n) ...F"),
        "docop": DOCS + "\nquery Again { people { name } }",
        "docopfirst": "query Again { people { name } }\n" + DOCS,
        "docfrag": DOCS.replace("{ name kind }", "{ ...P }") + "\nfragment P on Person { name kind }",
        "docnofrag": DOCS.replace("fragment F on Beast { id name }", "").replace("...F", "id"),
        "docfragfield": DOCS.replace("{ id name }", "{ id name legs }"),
        "docnested": DOCS.replace("mk(inp: $inp) { id }", "mk(inp: $inp) { id ...F }"),
        "docswap": "\n".join(reversed(DOCS.split("\n"))),
    }.get(name, DOCS)
    return sdl, docs


CLIENT_VERSIONS = ["base", "enumvalue", "retype", "input", "docs", "iface", "docfield", "docfirst", "docdrop", "docalias", "docvar", "docop", "docopfirst", "docfrag", "docnofrag", "docfragfield",
                   "docnested", "docswap", "union", "typelast", "reversed"]
PIPES = {
    "merge": [("turms.processors.merge.MergeProcessor", {})],
    "black-merge": [("turms.processors.black.BlackProcessor", {}), ("turms.processors.merge.MergeProcessor", {})],
    "isort-merge": [("turms.processors.isort.IsortProcessor", {}), ("turms.processors.merge.MergeProcessor", {})],
    "merge-black": [("turms.processors.merge.MergeProcessor", {}), ("turms.processors.black.BlackProcessor", {})],
    "merge-isort": [("turms.processors.merge.MergeProcessor", {}), ("turms.processors.isort.IsortProcessor", {})],
    "readme": [("turms.processors.disclaimer.DisclaimerProcessor", {}), ("turms.processors.black.BlackProcessor", {}), ("turms.processors.merge.MergeProcessor", {})],
    "disclaimer-merge": [("turms.processors.disclaimer.DisclaimerProcessor", {}), ("turms.processors.merge.MergeProcessor", {})],
    "merge-disclaimer": [("turms.processors.merge.MergeProcessor", {}), ("turms.processors.disclaimer.DisclaimerProcessor", {})],
    "comment-merge": [("turms.processors.disclaimer.DisclaimerProcessor", {"disclaimer": "# generated"}), ("turms.processors.merge.MergeProcessor", {})],
    "merge-comment": [("turms.processors.merge.MergeProcessor", {}), ("turms.processors.disclaimer.DisclaimerProcessor", {"disclaimer": "# generated\n"})],
    "merge-merge": [("turms.processors.merge.MergeProcessor", {}), ("turms.processors.merge.MergeProcessor", {})],
    "black-isort-merge-black": [("turms.processors.black.BlackProcessor", {}), ("turms.processors.isort.IsortProcessor", {}), ("turms.processors.merge.MergeProcessor", {}), ("turms.processors.black.BlackProcessor", {})],
}


def config(kind, pipe=None, out=None):
    cfg = {"skip_forwards": kind == "server", "scalar_definitions": {"Day": "datetime.date"}}
    if kind == "server":
        cfg["plugins"] = plugins("strawberry")
    else:
        cfg["plugins"] = plugins(("enums", {"skip_unreferenced": False}), ("inputs", {"skip_unreferenced": False}), "objects", "fragments", "operations",
                                 ("funcs", {"definitions": [{"type": t, "use": "mc.proxies." + f, "is_async": False} for t, f in
                                                            [("query", "query"), ("mutation", "mutate"), ("subscription", "subscribe")]]}))
    if pipe:
        cfg["processors"] = [{"type": t, **x} for t, x in PIPES[pipe]]
    if out:
        cfg["out_dir"] = out
    return cfg


_gen = {}


def generated(kind, v):
    if (kind, v) not in _gen:
        sdl, docs = (VERSIONS[v], None) if kind == "server" else client_version(v)
        _gen[kind, v] = generate(sdl, docs, config(kind))
    return _gen[kind, v]


_stage = {}
_merged = {}


def merge(old, new):
    """The real merging stage on a real file."""
    if (old, new) in _merged:
        return _merged[old, new]
    path = os.path.join(_stage["config"].out_dir, _stage["config"].generated_name)
    with open(path, "w", encoding="utf-8", newline="") as f:
        f.write(old)
    with contextlib.redirect_stdout(io.StringIO()):
        out = _stage["merge"].run(new, _stage["config"])
    if len(_merged) > 20000:
        _merged.clear()
    _merged[old, new] = out
    return out


# ---------------------------------------------------------------- edits
# An edit maps the text of the file to the edited text, or None where it does not apply (target gone, already done).

TARGET = {
    "server": {"cls": "Beast", "cls2": "Person", "field": "legs", "method": ("Query", "beast"), "method2": ("Beast", "feats"), "enum": "Kind", "member": "DOG"},
    "client": {"cls": "Beast", "cls2": "In", "field": "legs", "method": (None, "get"), "method2": (None, "people"), "enum": "Kind", "member": "DOG"},
}


class Text:
    def __init__(self, text):
        self.lines = text.split("\n")
        self.tree = ast.parse(text.lstrip("\ufeff"))

    def cls(self, name):
        for n in self.tree.body:
            if isinstance(n, ast.ClassDef) and n.name == name:
                return n

    def func(self, where):
        c, name = where
        body = self.tree.body if c is None else (self.cls(c).body if self.cls(c) else [])
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n.name == name:
                return n

    def field(self, c, name):
        for n in (self.cls(c).body if self.cls(c) else []):
            if isinstance(n, (ast.AnnAssign, ast.Assign)):
                t = n.target if isinstance(n, ast.AnnAssign) else n.targets[0]
                if isinstance(t, ast.Name) and t.id == name:
                    return n

    def start(self, n):
        return min([n.lineno] + [d.lineno for d in getattr(n, "decorator_list", [])]) - 1

    def text(self):
        return "\n".join(self.lines)

    def insert(self, at, *lines):
        self.lines[at:at] = lines
        return self.text()

    def replace(self, a, b, *lines):
        self.lines[a:b] = lines
        return self.text()


def edits(kind):
    T = TARGET[kind]
    out = {}

    def edit(fn):
        name = fn.__name__.rstrip("_")

        def apply(text, fn=fn, name=name):
            if f"u_{name}" in text:
                return None
            try:
                return fn(Text(text), f"u_{name}")
            except (AttributeError, IndexError, TypeError):
                return None

        out[name] = apply
        return fn

    ind = "" if kind == "client" else "    "

    # --- functions
    @edit
    def body(t, u):
        n = t.func(T["method"])
        return t.replace(n.body[0].lineno - 1, n.end_lineno, f"{ind}    # {u}", f"{ind}    {u} = 1", "", f"{ind}    return None  # done {u}")

    @edit
    def body2(t, u):
        n = t.func(T["method2"])
        return t.replace(n.body[0].lineno - 1, n.end_lineno, f"{ind}    {u} = 'é'", f"{ind}    def inner():", f"{ind}        return {u}", f"{ind}    return None")

    @edit
    def asynchronous(t, u):
        n = t.func(T["method"])
        if isinstance(n, ast.AsyncFunctionDef):
            return None
        i = n.lineno - 1
        t.lines[i] = t.lines[i].replace("def ", "async def ", 1)
        return t.replace(n.body[0].lineno - 1, n.end_lineno, f"{ind}    async def {u}():", f"{ind}        return None", f"{ind}    return await {u}()")

    @edit
    def oneliner(t, u):
        n = t.func(T["method2"])
        head = ast.unparse(ast.fix_missing_locations(type(n)(n.name, n.args, [ast.Pass()], [], n.returns))).split("\n")[0]
        return t.replace(n.lineno - 1, n.end_lineno, f"{ind}{head} return None  # {u}")

    @edit
    def abovemethod(t, u):
        return t.insert(t.start(t.func(T["method"])), f"{ind}# {u}")

    @edit
    def decoratorcomment(t, u):
        n = t.func(T["method"])
        return t.insert(n.lineno - 1, f"{ind}# {u}") if n.decorator_list else None

    @edit
    def decorator(t, u):
        n = t.func(T["method"])
        at = t.start(n)
        i = t.start(t.cls(T["method"][0])) if T["method"][0] else at
        t.insert(n.lineno - 1, f"{ind}@{u}  # deco {u}") if kind == "client" else t.insert(n.lineno - 1, f"{ind}@{u}")
        return t.insert(i, f"def {u}(f):", "    return f", "")

    @edit
    def bodyend(t, u):
        n = t.func(T["method"])
        return t.insert(n.end_lineno, f"{ind}    # {u} at the end of the body")

    # --- inside classes
    @edit
    def method(t, u):
        return t.insert(t.cls(T["cls"]).end_lineno, "", f"    def {u}(self):", "        return 1")

    @edit
    def methodfirst(t, u):
        n = t.cls(T["cls"]).body[0]
        return t.insert(t.start(n), f"    def {u}(self):", "        # note", "        return 1", "")

    @edit
    def classmethods(t, u):
        return t.insert(t.cls(T["cls2"]).end_lineno, "", "    @classmethod", f"    def {u}(cls):", "        return cls", "", "    @staticmethod", f"    def {u}2():", "        return 2")

    @edit
    def prop(t, u):
        return t.insert(t.cls(T["cls"]).end_lineno, "", "    @property", f"    def {u}(self):", "        return 1", "", f"    @{u}.setter", f"    def {u}(self, value):", "        pass")

    @edit
    def attribute(t, u):
        return t.insert(t.start(t.cls(T["cls"]).body[0]), f"    {u}: int = 3  # mine")

    @edit
    def attributeend(t, u):
        return t.insert(t.cls(T["cls2"]).end_lineno, f"    {u}: int = 3")

    @edit
    def attributemid(t, u):
        return t.insert(t.field(T["cls"], T["field"]).lineno - 1, f"    {u}: int = 3")

    @edit
    def nested(t, u):
        return t.insert(t.cls(T["cls"]).end_lineno, f"    class {u}:", '        """nested"""', "        x = 1")

    @edit
    def classcomment(t, u):
        return t.insert(t.start(t.cls(T["cls"]).body[0]), f"    # {u}")

    @edit
    def classcommentend(t, u):
        return t.insert(t.cls(T["cls2"]).end_lineno, f"    # {u}")

    @edit
    def fieldcomment(t, u):
        i = t.field(T["cls"], T["field"]).lineno - 1
        t.lines[i] += f"  # {u}"
        return t.text()

    @edit
    def fieldabove(t, u):
        return t.insert(t.field(T["cls"], T["field"]).lineno - 1, f"    # {u}")

    @edit
    def sameline(t, u):
        i = t.field(T["cls"], T["field"]).end_lineno - 1
        t.lines[i] += f"; {u}: int = 3"
        return t.text()

    @edit
    def samelinefirst(t, u):
        i = t.field(T["cls"], T["field"]).lineno - 1
        t.lines[i] = f"    {u}: int = 3; " + t.lines[i].strip()
        return t.text()

    @edit
    def classstatements(t, u):
        return t.insert(t.cls(T["cls2"]).end_lineno, "    if True:", f"        def {u}(self):", "            return 1", "    for _i in range(2):", f"        pass  # {u}", "    del _i")

    @edit
    def classdecorator(t, u):
        n = t.cls(T["cls"])
        t.insert(t.start(n), f"@{u}")
        return t.insert(t.start(n), f"def {u}(c):", "    return c", "")

    @edit
    def classdecoratorlast(t, u):
        n = t.cls(T["cls2"])
        t.insert(n.lineno - 1, f"@{u}")
        return t.insert(t.start(n), f"def {u}(c):", "    return c", "")

    @edit
    def mixin(t, u):
        n = t.cls(T["cls"])
        i = n.lineno - 1
        bases = [f"{u}"] + [ast.unparse(b) for b in n.bases]
        t.lines[i] = f"class {n.name}({', '.join(bases)}):"
        return t.insert(t.start(n), f"class {u}:", "    def extra(self):", "        return 1", "")

    @edit
    def mixinlast(t, u):
        n = t.cls(T["cls2"])
        i = n.lineno - 1
        bases = [ast.unparse(b) for b in n.bases] + [f"{u}"]
        t.lines[i] = f"class {n.name}({', '.join(bases)}):"
        return t.insert(t.start(n), f"class {u}:", "    def extra(self):", "        return 1", "")

    @edit
    def classabove(t, u):
        return t.insert(t.start(t.cls(T["cls"])), f"# {u}", "")

    @edit
    def enummember(t, u):
        return t.insert(t.cls(T["enum"]).end_lineno, f"    {u} = 'mine'", "", "    @property", f"    def {u}_low(self):", "        return self.value.lower()")

    @edit
    def enumfirst(t, u):
        return t.insert(t.start(t.cls(T["enum"]).body[0]), f"    {u} = 'mine'  # first")

    # --- between statements
    @edit
    def classbetween(t, u):
        return t.insert(t.start(t.cls(T["cls2"])), f"class {u}:", "    x = 1", "", "")

    @edit
    def onelineclass(t, u):
        return t.insert(t.start(t.cls(T["cls2"])), f"class {u}: pass", f"class {u}2: x = 1; y = 2  # both", "")

    @edit
    def subclass(t, u):
        return t.insert(t.cls(T["cls"]).end_lineno, "", f"class {u}({T['cls']}):", "    pass", "")

    @edit
    def bottom(t, u):
        return t.text() + f"\n\nclass {u}({T['cls']}):\n    pass\n\n\ndef {u}_f():\n    return {u}\n"

    @edit
    def functionbetween(t, u):
        return t.insert(t.start(t.cls(T["cls"])), f"def {u}(a, *b, **c):", f"    # {u}", "    return a", "", "")

    @edit
    def asyncfunction(t, u):
        return t.text() + f"\n\nasync def {u}():\n    return None\n"

    @edit
    def constant(t, u):
        return t.insert(t.start(t.cls(T["cls"])), f"{u} = 1", f"{u}_typed: int = 2", f"{u} += 1", f"({u}_a, {u}_b) = 1, 2", f"{u}_c = {u}_d = {{}}", f"{u}_c['x'] = 1", f"{u}_c['y']: int = 1", "")

    @edit
    def attributes(t, u):
        return t.text() + f"\n{T['cls']}.{u} = 1  # patched\n{T['cls']}.{u}_b: int = 2\n"

    @edit
    def calls(t, u):
        return t.text() + f"\nprint_{u} = lambda *a: None\nprint_{u}('x')  # called\nprint_{u}('x')\nassert {T['cls']}\n"

    @edit
    def compound(t, u):
        return t.insert(t.start(t.cls(T["cls2"])), "if True:", f"    {u} = 1", "else:", f"    {u} = 2", "for _ in range(1):", f"    {u}_l = _", "try:", f"    import {u}", "except ImportError as e:",
                        f"    {u}_e = 1  # kept", "with open('/dev/null') as f:", f"    {u}_f = f", "")

    @edit
    def alias(t, u):
        return t.text() + f"\n{u} = {T['cls']}\n{T['cls']}_old = {T['cls']}\n"

    # --- imports, top and bottom
    @edit
    def imports(t, u):
        return t.insert(0, f"import os as {u}, sys", f"from collections import OrderedDict as {u}_b, deque  # why", "import os.path")

    @edit
    def importmid(t, u):
        return t.insert(t.start(t.cls(T["cls"])), f"from collections import (  # {u}", "    OrderedDict,", f"    Counter as {u},", ")", "import json, re", "")

    @edit
    def importend(t, u):
        return t.text() + f"\nfrom typing import Any, List as {u}, Optional\n"

    @edit
    def importtyping(t, u):
        return t.insert(0, f"from typing import *  # {u}", "from typing import Tuple")

    @edit
    def typechecking(t, u):
        return t.insert(0, "from typing import TYPE_CHECKING", "if TYPE_CHECKING:", f"    from {u} import X", "")

    @edit
    def tryimport(t, u):
        return t.insert(0, "try:", f"    import {u} as fast", "except ImportError:", "    import json as fast", "")

    @edit
    def future(t, u):
        if any(isinstance(n, ast.ImportFrom) and n.module == "__future__" for n in t.tree.body):
            return None
        at = 1 if t.tree.body and isinstance(t.tree.body[0], ast.Expr) else 0
        if at:
            return None
        return t.insert(0, f"from __future__ import generator_stop  # {u}")

    @edit
    def moduledoc(t, u):
        if ast.get_docstring(t.tree) is not None or any(isinstance(n, ast.ImportFrom) and n.module == "__future__" for n in t.tree.body):
            return None
        return t.insert(0, f'"""{u}', "", "More about it.", '"""')

    @edit
    def header(t, u):
        return t.insert(0, "#!/usr/bin/env python3", f"# {u} é", "#", "# pylint: disable=all", "")

    @edit
    def footer(t, u):
        return t.text() + f"\n# {u}\n\n# the end"

    @edit
    def main(t, u):
        return t.text() + f"\n\nif __name__ == '__main__':\n    print('{u}')  # run\n"

    # --- deletions and moves
    @edit
    def delclass(t, u):
        n = t.cls(T["cls2"])
        if kind == "server" and any(isinstance(x, ast.ClassDef) and any(ast.unparse(b) == T["cls2"] for b in x.bases) for x in t.tree.body):
            return None
        return t.replace(t.start(n), n.end_lineno, f"# {u}")

    @edit
    def delfield(t, u):
        n = t.field(T["cls"], T["field"])
        return t.replace(n.lineno - 1, n.end_lineno, f"    # {u}")

    @edit
    def delmethod(t, u):
        n = t.func(T["method2"])
        return t.replace(t.start(n), n.end_lineno, f"{ind}# {u}")

    @edit
    def delimport(t, u):
        n = [n for n in t.tree.body if isinstance(n, ast.ImportFrom) and n.module == "enum"][0]
        return t.replace(n.lineno - 1, n.end_lineno, f"# {u}")

    @edit
    def delmember(t, u):
        n = t.field(T["enum"], T["member"])
        return t.replace(n.lineno - 1, n.end_lineno, f"    # {u}")

    @edit
    def movefield(t, u):
        n = t.field(T["cls"], T["field"])
        c = t.cls(T["cls"])
        block = t.lines[n.lineno - 1:n.end_lineno]
        t.insert(t.start(c.body[0]), *block) if False else None
        t.lines[c.end_lineno:c.end_lineno] = block + [f"    # {u}"]
        return t.replace(n.lineno - 1, n.end_lineno)

    @edit
    def movemethod(t, u):
        n = t.func(T["method2"])
        if T["method2"][0] is None:
            return None
        c = t.cls(T["method2"][0])
        block = t.lines[t.start(n):n.end_lineno]
        t.replace(t.start(n), n.end_lineno)
        return t.insert(t.start(c.body[0]), *block, f"    # {u}")

    @edit
    def moveclass(t, u):
        n = t.cls(T["enum"])
        block = t.lines[t.start(n):n.end_lineno]
        t.replace(t.start(n), n.end_lineno)
        at = [x for x in t.tree.body if isinstance(x, ast.ClassDef)][0]
        if at is n:
            return None
        return t.insert(t.start(at), *block, f"# {u}", "")

    @edit
    def moveclasslast(t, u):
        n = t.cls(T["cls2"])
        used = [x for x in t.tree.body if x is not n and any(isinstance(y, ast.Name) and y.id == n.name for y in ast.walk(x))]
        if used:
            return None
        block = t.lines[t.start(n):n.end_lineno]
        t.replace(t.start(n), n.end_lineno)
        return t.text() + "\n" + "\n".join(block) + f"\n# {u}\n"

    @edit
    def resolver(t, u):
        if kind == "client":
            return None
        n = t.field(T["cls"], T["field"])
        return t.replace(n.lineno - 1, n.end_lineno, "    @strawberry.field", f"    def {T['field']}(self) -> Optional[int]:  # {u}", f"        return {len(u)}  # {u}")

    @edit
    def onelinegenerated(t, u):
        n = t.cls("Zoo") or t.cls("Animal")
        if len(n.body) != 1:
            return None
        return t.replace(n.lineno - 1, n.end_lineno, t.lines[n.lineno - 1] + " " + ast.unparse(n.body[0]) + f"  # {u}")

    # --- the file as a whole
    @edit
    def crlf(t, u):
        if "\r" in t.text():
            return None
        return (f"# {u}\n" + t.text()).replace("\n", "\r\n")

    @edit
    def nonewline(t, u):
        return t.text().rstrip("\n") + f"  # {u}"

    @edit
    def blank(t, u):
        return "\n\n\n" + t.text().replace("\nclass ", "\n\n\n\nclass ") + f"\n\n\n# {u}\n\n\n"

    @edit
    def tabs(t, u):
        if any(l.startswith(" ") and not l.startswith("    ") for l in t.lines) or '"""' in t.text():
            return None
        return "\n".join(re.sub(r"^(    )+", lambda m: "\t" * (len(m.group(0)) // 4), l) for l in t.lines) + f"\n# {u}\n"

    @edit
    def empty(t, u):
        return f"# {u}\n" if "class " in t.text() else None

    @edit
    def formatted(t, u):
        import black

        return black.format_str(t.text() + f"\n# {u}\n", mode=black.Mode())

    return out


SERVER_EDITS = edits("server")
CLIENT_EDITS = edits("client")
EDITS = {"server": SERVER_EDITS, "client": CLIENT_EDITS}
STEPS = {"server": [("v", v) for v in VERSIONS if v != "base"] + [("e", e) for e in SERVER_EDITS],
         "client": [("v", v) for v in CLIENT_VERSIONS if v != "base"] + [("e", e) for e in CLIENT_EDITS]}
FEW = [("v", "field"), ("v", "type"), ("v", "arg"), ("v", "resolver"), ("v", "enum"), ("v", "scalar"), ("e", "body"), ("e", "method"), ("e", "imports"), ("e", "bottom"), ("e", "header"), ("e", "footer"),
       ("e", "moduledoc"), ("e", "future"), ("e", "classcomment"), ("e", "constant")]


SECOND = ["body", "asynchronous", "decorator", "prop", "sameline", "mixin", "classbetween", "imports", "header", "footer", "moduledoc", "delfield", "movemethod", "resolver"]


def cases(tier):
    thorough = tier == "thorough"
    for kind in ("server", "client"):
        for s in STEPS[kind]:
            yield {"key": f"{kind}:{s[0]}:{s[1]}", "kind": kind, "first": list(s), "depth": 3 if thorough else 2, "mode": "bfs"}
        for s in STEPS[kind]:
            if s[0] == "e" and thorough:
                yield {"key": f"{kind}:both:{s[1]}", "kind": kind, "first": list(s), "depth": 2, "mode": "both"}
    for p in PIPES:
        for s in STEPS["server"]:
            if thorough or s in FEW:
                yield {"key": f"pipe:{p}:{s[0]}:{s[1]}", "kind": "server", "first": list(s), "depth": 2 if thorough else 1, "mode": "pipe", "pipe": p}


_load = {}


def importable(text):
    text = text.lstrip("\ufeff")
    if text not in _load:
        try:
            with loaded(text):
                _load[text] = None
        except LoadFailed as e:
            _load[text] = str(e)[:200]
    return _load[text]


def apply(kind, step, state):
    """(text before the regeneration, version) or None"""
    text, v = state
    t, name = step
    if t == "v":
        return None if name == v else (text, name)
    new = EDITS[kind][name](text)
    if new is None:
        return None
    try:
        compile(new.lstrip("\ufeff"), "edited", "exec")
    except (SyntaxError, ValueError):
        return None  # the two edits do not go together
    return new, v


def judge_merge(history, old, new, merged, again, st):
    out = []
    st.traces += 1
    for k, m in judge(old, new, merged):
        out.append((k, f"{history}: {m}"))
    if importable(old) is None or not any(h.startswith("e") for h in history):
        err = importable(merged)
        if err:
            out.append(("import", f"{history}: the merged module does not import: {err}"))
    else:
        st.outcome("edited module cannot be imported by itself", history[-1])
    if again != merged:
        import difflib

        d = [x for x in difflib.unified_diff(merged.split("\n"), again.split("\n"), lineterm="", n=0)][2:8]
        out.append(("unstable", f"{history}: merging once more changes the file: {d}"))
    return out


def run(case, st):
    if case["mode"] == "pipe":
        return pipeline(case, st)
    from turms.config import GeneratorConfig
    from turms.processors.merge import MergeProcessor

    with scratch() as d:
        _stage.update(merge=MergeProcessor(), config=GeneratorConfig(out_dir=d))
        return histories(case, st)


def histories(case, st):
    kind = case["kind"]
    out = []
    start = (generated(kind, "base"), "base")
    first = tuple(case["first"])
    seen = set()
    frontier = [(start, [])]
    for level in range(case["depth"]):
        nxt = []
        for state, history in frontier:
            for step in ([first] if level == 0 else STEPS[kind]):
                if case["mode"] == "both" and level and step[0] == "v":
                    continue
                if case["mode"] == "bfs" and case["depth"] == 2 and level and first[0] == step[0] == "e" and step[1] not in SECOND:
                    continue
                pre = apply(kind, step, state)
                if pre is None:
                    continue
                h = history + [f"{step[0]}:{step[1]}"]
                if case["mode"] == "both" and level == 0:
                    nxt.append((pre, h))
                    continue
                st.transitions += 1
                old, v = pre
                new = generated(kind, v)
                try:
                    merged = merge(old, new)
                    again = merge(merged, new)
                except Exception as e:  # noqa
                    out.append(("crash", f"{h}: merging fails: {type(e).__name__}: {e}"))
                    continue
                key = (merged, v)
                st.outcome(step, merged == old)
                out += judge_merge(h, old, new, merged, again, st)
                if len(out) > 8:
                    return out
                if key not in seen:
                    seen.add(key)
                    st.states += 1
                    nxt.append((key, h))
        frontier = nxt
    return out


def pipeline(case, st):
    """The whole generation with the merge among other stages, on a real output directory."""
    out = []
    kind = case["kind"]
    with scratch() as d:
        cfg = config(kind, case["pipe"], d)
        path = os.path.join(d, "api.py")
        from turms.config import GeneratorConfig

        path = os.path.join(d, GeneratorConfig(out_dir=d).generated_name)

        def regenerate(v):
            code = generate(VERSIONS[v], None, cfg)
            with open(path, "w", encoding="utf-8") as f:
                f.write(code)
            return code

        def put(text):
            with open(path, "w", encoding="utf-8") as f:
                f.write(text)

        start = regenerate("base")
        if regenerate("base") != start:
            return [("unstable", f"{case['pipe']}: generating twice changes the file")]
        frontier = [((start, "base"), [])]
        for level in range(case["depth"]):
            nxt = []
            for state, history in frontier:
                for step in ([tuple(case["first"])] if level == 0 else FEW):
                    pre = apply(kind, step, state)
                    if pre is None:
                        continue
                    st.transitions += 1
                    st.states += 1
                    h = [case["pipe"]] + history + [f"{step[0]}:{step[1]}"]
                    old, v = pre
                    put(old)
                    try:
                        merged = regenerate(v)
                        again = regenerate(v)
                    except GenFailed as e:
                        out.append(("crash", f"{h}: {e}"))
                        continue
                    st.outcome(step, merged == old)
                    out += judge_merge(h, old, generated(kind, v), merged, again, st)
                    nxt.append(((merged, v), h[1:]))
            frontier = nxt
    return out
