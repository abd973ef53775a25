"""C01: every response a conforming server can give is parsed, without loss."""
import itertools

from ..docs import ALPHA, SCALARDEF, SMALL, ZOO, documents
from ..roundtrip import positives, with_module
from ..turmsio import client_config

ID = "C01"
LEVEL = "model_checking"
RULE = ("one case = one document (schema ZOO or a one-field schema) and configuration, generated by the real "
        "generator and loaded; a trace is one response of the reference GraphQL server model (choice tree: null / "
        "list length / runtime type / enum value / scalar value) replayed against the generated model: it must be "
        "accepted and dumping it (by alias, JSON) must give the response back. Outcomes are distinct response shapes.")
BOUNDS = {
    "quick": "documents: all of cost<=4 over the full alphabet and <=5 over the small one, all leaf kinds x list/null "
             "wrappers x alias forms x stylers; responses: all with <=2 deviations from the default answer",
    "thorough": "documents: all of cost<=5 over the full alphabet and <=6 over the small one; responses: <=3 deviations",
}
ASSUMPTIONS = ["the reference response model follows the execution section of the GraphQL specification",
               "constructs listed as refused or as findings in DESIGN.md are outside the document alphabet"]

STYLES = {"none": [], "default": ["default"], "snake": ["default", "snake"], "capsnake": ["capitalize", "snake"],
          "append": ["default", "appender"]}


def conf(style="snake", **kw):
    return client_config(style=STYLES[style], scalar_definitions=SCALARDEF, **kw)


WRAP = ["{}", "{}!", "[{}]", "[{}!]", "[{}]!", "[{}!]!", "[[{}]]", "[[{}!]!]!", "[[{}]!]"]
LEAF = ["Int", "Float", "String", "Boolean", "ID", "Date", "Color", "Obj", "Iface", "Uni"]
NAMES = ["a", "fooBar", "from", "class", "FooBar", "foo_bar", "ID", "URL", "None", "x1", "a_", "typename", "type",
         "len", "list", "str", "int", "self", "field", "Optional", "_id", "_", "_1", "dict", "json", "copy", "schema", "model_config",
         "model_dump", "date", "Color", "Field", "BaseModel", "Literal"]


def leaf_sdl(t, name="a"):
    return f'''scalar Date
enum Color {{ RED GREEN }}
type Obj {{ n: Int! s: String }} type Obj2 {{ m: Int! }}
interface I {{ k: Int! }} type Iface1 implements I {{ k: Int! z: String! }} type Iface2 implements I {{ k: Int! }}
union Uni = Obj | Obj2
type Wrap {{ {name}: {t.replace("Iface", "I")} other: Int }}
type Query {{ top: {t.replace("Iface", "I")} wrap: Wrap! }}'''


SUB = {"Obj": "{ n s }", "Iface": "{ k ... on Iface1 { z } }", "Uni": "{ ... on Obj { n } ... on Obj2 { m } }"}


def cases(tier):
    full, small = (4, 5) if tier == "quick" else (5, 6)
    dev = 2 if tier == "quick" else 3
    seen = set()
    for alpha, cost in ((ALPHA, full), (SMALL, small)):
        for c, d in documents(alpha, cost):
            if d not in seen:
                seen.add(d)
                yield {"key": f"doc:{d}", "kind": "zoo", "doc": d, "style": "snake", "dev": dev}
    # order of items and of definitions, fragment names, operation kinds
    for variant, kw in (("rev", dict(reverse=True)), ("before", dict(order="before")),
                        ("tricky", dict(names="tricky")), ("lower", dict(names="lower", reverse=True)),
                        ("alias", dict(alias="myAlias"))):
        for c, d in documents(SMALL, 4 if tier == "quick" else 5, **kw):
            for style in ("snake", "append", "none"):
                yield {"key": f"{variant}:{style}:{d}", "kind": "zoo", "doc": d, "style": style, "dev": 1}
    # every leaf kind under every wrapper
    for leaf in LEAF:
        for w in WRAP:
            t = w.format(leaf)
            for style in ("none", "snake"):
                sub = SUB.get(leaf, "")
                yield {"key": f"leaf:{t}:{style}", "kind": "sdl", "sdl": leaf_sdl(t), "style": style, "dev": dev,
                       "doc": f"query Get {{ top {sub} wrap {{ a {sub} other }} }}"}
    # names: as schema field and as alias
    for n in NAMES:
        for style in STYLES:
            for opt in ("", "!"):
                yield {"key": f"name:{n}{opt}:{style}", "kind": "sdl", "sdl": leaf_sdl("Int" + opt, n), "style": style,
                       "doc": f"query Get {{ wrap {{ {n} }} }}", "dev": 2}
                yield {"key": f"aliasname:{n}{opt}:{style}", "kind": "sdl", "sdl": leaf_sdl("Int" + opt, "a"), "style": style,
                       "doc": f"query Get {{ wrap {{ {n}: a other }} {n}: wrap {{ {n}: a }} }}", "dev": 2}
    # fields named like the type they (or their neighbours) are mapped to
    for n, t in itertools.product(("date", "Date", "color", "Color", "Obj", "WrapA", "GetWrap", "other", "Optional", "List", "datetime"), ("Date", "[Date!]", "Color", "Color!", "Obj", "Uni", "Iface", "Int")):
        for style in ("none", "snake"):
            sub = SUB.get(t, "")
            yield {"key": f"typed:{n}:{t}:{style}", "kind": "sdl", "style": style, "dev": 2,
                   "sdl": leaf_sdl(t, n).replace("other: Int", "before: Date after: Date tint: Color").replace("Color", "color").replace("color:", "Color:" if n == "Color" else "color:")
                   if n == "color" else leaf_sdl(t, n if n != "other" else "a").replace("other: Int", "before: Date other: Date tint: Color"),
                   "doc": (f"query Get {{ wrap {{ before {n} {sub} after tint }} {n}: wrap {{ before }} }}" if n == "color"
                           else f"query Get {{ wrap {{ before {n if n != 'other' else 'a'} {sub} other tint }} {n}: wrap {{ before other }} }}")}
    # operation kinds and several operations / files
    yield {"key": "ops:many", "kind": "zoo", "style": "snake", "dev": dev, "doc": {
        "a.graphql": "query One { me { ...P } } mutation Two($n: String) { rename(name: $n) { ...P id } touch }\n",
        "b/c.graphql".replace("b/", "b_"): "subscription Three { changed { ...P dog { barks } } } query Four { count }",
        "c.graphql": "fragment P on Person { firstName ...Q } fragment Q on Person { age pet { ... on Dog { barks } } }"}}
    for opk, sel in (("query", "count"), ("query", "words"), ("mutation", "touch"), ("mutation", "rename { id }"),
                     ("subscription", "ticked"), ("subscription", "changed { id pet { ... on Fish { fin } } }")):
        yield {"key": f"op:{opk}:{sel}", "kind": "zoo", "style": "snake", "dev": dev, "doc": f"{opk} Get {{ {sel} }}"}


def run(case, st):
    sdl = ZOO if case["kind"] == "zoo" else case["sdl"]
    st.programs += 1
    return with_module(sdl, case["doc"], conf(case["style"]),
                       lambda mod, schema, user: positives(mod, schema, user, st, case["dev"], 4000))
