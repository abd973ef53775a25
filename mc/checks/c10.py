"""C10: how documents and schema are split into files and ordered does not matter."""
import contextlib
import io
import itertools
import os

from graphql import GraphQLError, Lexer, Source, TokenKind, parse

from .. import proxies
from ..signature import difference, signature
from ..turmsio import GenFailed, LoadFailed, client_config, loaded, make_project, plugins, scratch, write_tree

ID = "C10"
LEVEL = "model_checking"
RULE = ("one case = one set of definitions (operations and fragments, or schema definitions) and one way to arrange them; a trace is one "
        "arrangement (order x cut into files x file names x text around the cuts) generated and loaded: the observable signature of "
        "the module (classes, bases, fields, types, documents, functions, docstrings) must be that of the plain arrangement. For cuts inside "
        "a definition generation must be refused. Outcomes: distinct signatures (one per case is right) and refusals.")
BOUNDS = {
    "quick": "6 document sets of 4-5 definitions and 3 schemas of 5-6 definitions: all orders x 3 cuts into consecutive files, 2 orders x all cuts; 9 texts around cuts x all "
             "cuts; every token-boundary cut of every document set and schema",
    "thorough": "as quick with all orders x all cuts x all texts around them",
}
ASSUMPTIONS = ["definition order is reflected in the order of classes in the module, which is not judged"]

SDL = {
    "Color": "enum Color { RED GREEN }", "Filter": "input Filter { color: Color sub: Sub limit: Int = 3 }", "Sub": "input Sub { f: Filter d: Date }",
    "Date": "scalar Date", "Node": "interface Node { id: ID! next: Node }",
    "Dog": '"a dog" type Dog implements Node { id: ID! next: Node barks: Int! color: Color }', "Cat": "type Cat implements Node { id: ID! next: Node meows: Date friend: Pet }",
    "Pet": "union Pet = Dog | Cat", "Query": "type Query { node(id: ID): Node dog(f: Filter): Dog pets(c: [Color!]): [Pet!]! }",
    "Mutation": "type Mutation { rename(f: Filter!): Dog }", "Subscription": "type Subscription { ticks(n: Int): Int! }",
}
FULL = "\n".join(SDL.values())
DOCS = {
    "chain": ["query Get { node { ...N } }", "fragment N on Node { id ...M }", "fragment M on Node { next { ...D } }", "fragment D on Node { ... on Dog { barks } }"],
    "shared": ["query Get($c: [Color!]) {\n # reads pets\n pets(c: $c) { ...P } }", "query Other { dog { ...DogParts color } }", "fragment P on Pet { ... on Dog { ...DogParts } ... on Cat { ...CatParts } }",
               "fragment DogParts on Dog { barks color }", "fragment CatParts on Cat { meows friend { ... on Dog { ...DogParts } } }"],
    "kinds": ["query Get1($f: Filter) { dog(f: $f) { ...A } }", "mutation Get2($f: Filter!) { rename(f: $f) { ...A id } }", "subscription Tick($n: Int = 3) { ticks(n: $n) }",
              "fragment A on Dog { ...B next { id } }", "fragment B on Dog { barks }"],
    "iface": ["query Get { node { ...N ... on Cat { meows } } }", "query Two { dog { ...N ...E } }", "fragment N on Node { id next { id } }", "fragment E on Dog { color }"],
    "diamond": ["query Get { dog { ...X ...Y } }", "fragment X on Dog { ...Z barks }", "fragment Y on Dog { ...Z color }", "fragment Z on Dog { id }", "query Rest { node { id ... on Cat { ...U } } } fragment U on Cat { meows }"],
    "prefix": ["query Get { dog { ...A } }", "query get2 { dog { ...AB ...ABC } }", "fragment A on Dog { barks }", "fragment AB on Dog { ...A color }", "fragment ABC on Dog { ...AB ...A id }"],
}
SCHEMAS = {
    "types": ["Node", "Dog", "Cat", "Pet", "Query"], "inputs": ["Color", "Filter", "Sub", "Date", "Query", "Mutation"], "mixed": ["Query", "Node", "Color", "Pet", "Subscription", "Dog"],
}
EXTEND = ["type Query { a: A }", "extend type Query { b: [A!]! e(i: I): E }", "type A { x: Int }", "extend type A { y: E }", "enum E { ONE }", "extend enum E { TWO }", "input I { e: E }", "extend input I { n: Int }"]
AROUND = {
    "newline": ("", "\n"), "bare": ("", ""), "comment": ("# head\n\n", "\n# tail"), "blank": ("\n\n", "\n\n"), "crlf": ("\r\n", "\r\n"), "cr": ("\r", "\r"),
    "bom": ("\ufeff", ""), "u2028": ("# a\u2028b\x0c\x85c\n\n", "\n"), "comma": (",,", ","),
}


def cuts(n):
    """all ways to cut n items into consecutive groups"""
    for bits in itertools.product((0, 1), repeat=n - 1):
        out, cur = [], [0]
        for i, b in enumerate(bits):
            if b:
                out.append(cur)
                cur = []
            cur.append(i + 1)
        yield out + [cur]


def cases(tier):
    for d, defs in DOCS.items():
        for first in range(len(defs)):
            yield {"key": f"docs:{d}:{first}", "kind": "docs", "docs": d, "first": first, "around": ["newline"], "all": tier == "thorough"}
            yield {"key": f"around:{d}:{first}", "kind": "docs", "docs": d, "first": first, "around": list(AROUND), "all": tier == "thorough"}
        yield {"key": f"names:{d}", "kind": "names", "docs": d}
        yield {"key": f"inside:{d}", "kind": "inside", "docs": d}
    for s, names in SCHEMAS.items():
        for first in range(len(names)):
            yield {"key": f"schema:{s}:{first}", "kind": "schema", "schema": s, "first": first, "around": ["bare"]}
            yield {"key": f"saround:{s}:{first}", "kind": "schema", "schema": s, "first": first, "around": list(AROUND), "few": True}
    for first in range(len(EXTEND)):
        yield {"key": f"schema:extend:{first}", "kind": "schema", "schema": "extend", "first": first, "around": ["bare"]}
    for s in [*SCHEMAS, "extend"]:
        yield {"key": f"sinside:{s}", "kind": "sinside", "schema": s}


CONFIG = dict(style=["default", "snake"], scalar_definitions={"Date": "datetime.date"})
STACK = ["enums", "inputs", "input_funcs", "fragments", "operations", ("funcs", {"definitions": proxies.definitions()})]


def gen(schema_files, doc_files, as_glob=True, documents="docs/**/*.graphql", plugs=None, aslist=None):
    from turms.run import generate

    with scratch() as d:
        write_tree(d, {"schema/" + k: v for k, v in schema_files.items()})
        raw(d, "docs", doc_files)
        raw(d, "schema", schema_files)
        schema = os.path.join(d, "schema", "**", "*.graphql") if as_glob else [os.path.join(d, "schema", k) for k in (aslist or schema_files)]
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                p = make_project(schema, os.path.join(d, documents) if doc_files else None, client_config(plugs or STACK, **CONFIG))
                code = generate(p, log=lambda *a, **k: None)[0]
        except Exception as e:
            raise GenFailed(f"{type(e).__name__}: {e}")
    if code not in _seen:  # the same text means the same module
        with loaded(code) as m:
            _seen[code] = signature(m)
    return _seen[code]


_seen = {}


def raw(d, sub, files):
    for k, v in files.items():
        p = os.path.join(d, sub, k)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:  # exactly these bytes, also for carriage returns
            f.write(v.encode("utf-8"))


def arrange(defs, group, around):
    pre, post = AROUND[around]
    return {f"{'abcdefgh'[i]}.graphql": pre + ("\n" if around != "cr" else "\r").join(defs[j] for j in g) + post for i, g in enumerate(group)}


def compare(base, label, st, out, *a, **k):
    st.traces += 1
    st.transitions += 1
    try:
        got = gen(*a, **k)
    except (GenFailed, LoadFailed) as e:
        out.append(("refused", f"{label}: {str(e)[:300]}"))
        return
    d = difference(base, got)
    if d:
        out.append(("changed", f"{label}: {d[:500]}"))


def run(case, st):
    out = []
    kind = case["kind"]
    schema = {"s.graphql": FULL}
    if kind in ("docs", "names", "inside"):
        defs = DOCS[case["docs"]]
        base = gen(schema, {"a.graphql": "\n".join(defs)})
        st.outcome(sorted(base))
        st.programs += 1
    if kind == "docs":
        orders = [p for p in itertools.permutations(range(len(defs))) if p[0] == case["first"]]
        for around in case["around"]:
            for p in orders if len(case["around"]) == 1 or case.get("all") else orders[:1]:
                some = list(cuts(len(defs)))
                if not case.get("all") and len(orders) > 6:  # the product is explored in the thorough tier
                    some = some if p in orders[:1] + orders[-1:] else [some[0], some[len(some) // 2], some[-1]]
                for g in some:
                    st.states += 1
                    files = arrange([defs[i] for i in p], g, around)
                    compare(base, f"order {p}, files {g}, {around}", st, out, schema, files)
                    if len(out) > 2:
                        return out
    if kind == "names":
        for layout in (["z.graphql", "a.graphql"], ["sub/a.graphql", "b.graphql"], ["deep/er/a.graphql", "deep/b.graphql"], ["10.graphql", "9.graphql"],
                       ["A.graphql", "a.graphql"], ["ü.graphql", "with space.graphql"], ["x.y.graphql", "x.graphql"]):
            for g in cuts(len(defs)):
                if len(g) != 2:
                    continue
                for extra in ({}, {"empty.graphql": ""}, {"note.graphql": "# nothing here"}, {"blank.graphql": "\n\n"}, {"0.txt": "query Broken {"}, {"zz.graphql": "#only\r\n"}):
                    st.states += 1
                    files = {n: "\n".join(defs[i] for i in grp) for n, grp in zip(layout, g)}
                    compare(base, f"{layout} {g} {extra}", st, out, schema, {**files, **extra})
                    if len(out) > 2:
                        return out
    if kind == "inside":
        text = "\n".join(defs)
        for a, b in inner_cuts(text):
            st.states += 1
            refuse(f"file ends with ...{a[-25:]!r}", st, out, schema, {"a.graphql": a, "b.graphql": b})
    if kind in ("schema", "sinside"):
        if case["schema"] == "extend":
            defs, docs, rest = EXTEND, {"a.graphql": "query Get($i: I) { a { x y } b { y } e(i: $i) }"}, {}
        else:
            names = SCHEMAS[case["schema"]]
            defs = [SDL[n] for n in names]
            rest = {"rest.graphql": "\n".join(v for k, v in SDL.items() if k not in names)}
            docs = {f"{n}{i}.graphql": t for n in ("shared", "kinds") for i, t in enumerate(DOCS[n])}
        plain = {"a.graphql": "\n".join(defs), **rest}
        base = gen(plain, docs)
        obj = gen(plain, {}, plugs=["enums", "inputs", "objects"])
        st.programs += 2
        st.outcome(sorted(base))
    if kind == "schema":
        orders = [p for p in itertools.permutations(range(len(defs))) if p[0] == case["first"]]
        if case.get("few"):
            orders = orders[:1]
        elif case["schema"] == "extend":  # 8 definitions: all orders that move two of them
            orders = [p for p in orders if sum(i != j for i, j in enumerate([x for x in p if x != case["first"]], 1)) <= 9 and near(p)]
        for around in case["around"]:
            for n, p in enumerate(orders):
                own = [[i] for i in range(len(defs))]
                for g in ([[list(range(len(defs)))], own][n % 2:n % 2 + 1] if len(orders) > 1 else [[list(range(len(defs)))], own, [list(range(2)), list(range(2, len(defs)))]]):
                    g = g if isinstance(g[0], list) else [g]
                    files = {**arrange([defs[i] for i in p], g, around), **rest}
                    st.states += 1
                    compare(base, f"schema order {p}, files {g}, {around}", st, out, files, docs, as_glob=n % 3 != 1, aslist=sorted(files, reverse=n % 2 == 0))
                    if n % 4 == 0:
                        compare(obj, f"objects, schema order {p}, files {g}, {around}", st, out, files, {}, plugs=["enums", "inputs", "objects"])
                    if len(out) > 2:
                        return out
    if kind == "sinside":
        text = "\n".join(defs)
        for a, b in inner_cuts(text):
            st.states += 1
            for glob in (True, False):
                refuse(f"schema file ends with ...{a[-25:]!r} (glob {glob})", st, out, {"a.graphql": a, "b.graphql": b, **rest}, docs, as_glob=glob)
    return out[:4]


def near(p):
    moved = [i for i, x in enumerate(p) if i != x]
    return len(moved) <= 3 or list(p) == sorted(p, reverse=True) or list(p[1:]) == sorted(p[1:])


def inner_cuts(text):
    """the cuts between two tokens that leave a half that is not a document of its own"""
    lx = Lexer(Source(text))
    ends = []
    while True:
        t = lx.advance()
        if t.kind == TokenKind.EOF:
            break
        ends.append(t.end)
    for e in ends[:-1]:
        a, b = text[:e], text[e:]
        try:
            parse(a)
            parse(b)
        except GraphQLError:
            yield a, b


def refuse(label, st, out, *a, **k):
    st.evals += 1
    try:
        gen(*a, **k)
    except GenFailed:
        st.outcome("refused")
        return
    except LoadFailed:
        pass
    out.append(("glued", f"{label}: accepted"))
