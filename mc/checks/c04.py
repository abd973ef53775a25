"""C04: the document sent is the user's operation plus exactly the fragments it needs."""
import itertools
import re

from graphql import (FieldNode, FragmentDefinitionNode, FragmentSpreadNode, OperationDefinitionNode, TypeInfo,
                     TypeInfoVisitor, Visitor, get_named_type, is_abstract_type, parse, print_ast, validate, visit)

from ..docs import ALPHA, SMALL, ZOO, documents
from ..roundtrip import operations_of, schema_of, with_module
from .c01 import conf

ID = "C04"
LEVEL = "model_checking"
RULE = ("one case = one document set (operations and fragments over one or more files) and configuration; for every generated "
        "operation the attached text is parsed and compared, definition by definition, with the user's operation and the "
        "transitive closure of its fragment spreads computed independently, modulo the added discriminator; it must be valid "
        "against the schema and select the discriminator at every abstract position. states = selection sets compared; a "
        "trace is one sent document compared with its specification. Outcomes: distinct (operation kind, fragment closure).")
BOUNDS = {
    "quick": "documents: cost<=4 full alphabet, <=5 small alphabet, name/order/alias variants; all argument literal kinds x "
             "directive placements; all fragment dependency graphs on 3 fragments x spread sets x naming families x file layouts",
    "thorough": "documents: cost<=5 full, <=6 small; all dependency graphs on 4 fragments",
}
ASSUMPTIONS = ["graphql-core's parser and validator"]

LITS = {
    "Int": ["1", "-7", "0", "$i"], "Float": ["1.5", "2", "-1e3", "$f"],
    "String": ['"x"', '""', r'"q\"uote"', r'"back\\slash"', r'"new\nline"', '"""block "text" here"""', '"Dög ☃ 你"', '"...NotAFragment"',
               "\"it's '''triple'''\"", r'"\u0041"', '"# no comment"', '"{ } $x @y"', '"%s {0} {{x}}"', r'"\\"', r'"tab\t end\\n"', "$s", "null"],
    "Boolean": ["true", "false", "$b"], "ID": ['"a1"', "5", "$id"],
    "Color": ["RED", "GREEN", "null", "$c"],
    "[Int!]": ["[]", "[1, 2]", "3", "[$i2]", "$l"],
    "In": ["{}", "{a: 1}", '{a: 1, n: {s: "x", l: [1, 2]}}', "{a: $i}", "$in"],
    "Any": ["1", '"x"', "{k: [1, {z: null}]}", "$any"],
}
ARGS = '''enum Color { RED GREEN } scalar Any scalar Date
input In { a: Int n: In s: String l: [Int!] c: Color }
interface Node { id: ID! sub(Int: Int, String: String): String }
type A implements Node { id: ID! sub(Int: Int, String: String): String deep(Int: Int): A }
type B implements Node { id: ID! sub(Int: Int, String: String): String }
union U = A | B
type Query { f(Int: Int, Float: Float, String: String, Boolean: Boolean, ID: ID, Color: Color, Ints: [Int!], In: In, Any: Any): String
  node(Int: Int, String: String): Node a(Int: Int, In: In): A! u(Color: Color): [U!]! }
type Mutation { f(Int: Int, Float: Float, String: String, Boolean: Boolean, ID: ID, Color: Color, Ints: [Int!], In: In, Any: Any): String node: Node }
type Subscription { f(Int: Int, String: String): String node(Int: Int): Node }
'''
VARS = {"$i": "$i: Int", "$i2": "$i2: Int!", "$f": "$f: Float", "$s": "$s: String", "$b": "$b: Boolean", "$id": "$id: ID", "$c": "$c: Color",
        "$l": "$l: [Int!]", "$in": "$in: In", "$any": "$any: Any", "$t": "$t: Boolean!"}
DIRS = ["", "@include(if: true)", "@skip(if: false)", "@include(if: $t)", "@skip(if: $t) @include(if: true)"]
SLOTS = [  # {d0}..: directive slots
    "f {0}", "node {0} {{ id {1} }}", "node {{ ... on A {0} {{ deep {1} {{ id }} }} }}", "u {{ ... on B {0} {{ id {1} }} }}",
    "node {{ ...N {0} }}", "a {{ ...A1 {0} deep {1} {{ ...A1 }} }}", "u {{ ...A1 {0} ...UB {1} }}"]
FR = {"N": "fragment N on Node { id ... on A { deep { id } } }", "A1": "fragment A1 on A { id sub(Int: $i) }", "UB": "fragment UB on B { id }"}


def op(body, kind="query", name="Get", dirs="", extra=()):
    need = [v for k, v in VARS.items() if re.search(re.escape(k) + r"\b", body + "".join(extra))]
    sig = "(" + ", ".join(need) + ")" if need else ""
    return f"{kind} {name}{sig} {dirs} {{ {body} }}"


NAMES3 = [("A1", "A2", "A3"), ("Node", "NodeBase", "NodeBaseDog"), ("on1", "ON", "_x"), ("Get", "GetMe", "Me"), ("type", "class_", "from_"),
          ("a", "aa", "aaa"), ("Person", "person", "PERSON"), ("Dog", "Cat", "fragment")]


def graphs(n):
    """all acyclic dependency graphs respecting one topological order"""
    pairs = [(i, j) for i in range(n) for j in range(i + 1, n)]
    for bits in itertools.product((0, 1), repeat=len(pairs)):
        yield [p for p, b in zip(pairs, bits) if b]


LAYOUT = ["one", "each", "rev", "opfirst"]


def frag_docs(n, tier):
    for gi, g in enumerate(graphs(n)):
        for ni, names in enumerate(NAMES3):
            names = list(names) + ["Extra"] if n > 3 else list(names)
            for used in range(1, 2 ** n):
                use = [i for i in range(n) if used >> i & 1]
                defs = []
                for i in range(n):
                    sp = " ".join(f"...{names[j]}" for (a, j) in g if a == i)
                    fld = ["firstName", "age", "alive", "id"][i]
                    # the deeper ones sit at different depths of the selection
                    body = [f"{fld} {sp}", f"{fld} boss {{ id {sp} }}", f"{fld} team {{ boss {{ {sp} id }} }}"][(i + gi) % 3]
                    defs.append(f"fragment {names[i]} on Person {{ {body} }}")
                spread = " ".join(f"...{names[i]}" for i in use)
                ops = [f"query Get {{ me {{ {spread} }} count }}", f"mutation Set {{ rename {{ id ...{names[use[-1]]} }} }}"]
                layout = LAYOUT[(gi + ni + used) % len(LAYOUT)]
                if layout == "one":
                    d = {"a.graphql": "\n".join(defs + ops)}
                elif layout == "opfirst":
                    d = {"a.graphql": "\n".join(ops + defs[::-1])}
                elif layout == "each":
                    d = {f"f{i}.graphql": x for i, x in enumerate(defs + ops)}
                else:
                    d = {f"f{i}.graphql": x for i, x in enumerate((ops + defs)[::-1])}
                yield f"frag:{gi}:{ni}:{used}", d


def cases(tier):
    quick = tier == "quick"
    full, small = (4, 5) if quick else (5, 6)
    seen = set()
    for alpha, cost in ((ALPHA, full), (SMALL, small)):
        for c, d in documents(alpha, cost):
            if d not in seen:
                seen.add(d)
                yield {"key": f"doc:{d}", "kind": "zoo", "doc": d, "style": ["snake", "none"][len(seen) % 2]}
    for variant, kw in (("rev", dict(reverse=True)), ("before", dict(order="before")), ("tricky", dict(names="tricky")),
                        ("lower", dict(names="lower", reverse=True)), ("alias", dict(alias="myAlias"))):
        for c, d in documents(SMALL, 4 if quick else 5, **kw):
            yield {"key": f"{variant}:{d}", "kind": "zoo", "doc": d, "style": "append"}
    # argument literals: each one in each operation kind, with and without alias, and pairs of them
    args = [(("Ints" if t == "[Int!]" else t), l) for t, ls in LITS.items() for l in ls]
    for kind in ("query", "mutation"):
        for a, l in args:
            for al in ("", "x: "):
                yield {"key": f"arg:{kind}:{al}{a}:{l}", "kind": "args", "style": "snake", "doc": op(f"{al}f({a}: {l})", kind)}
    for (a, l), (b, m) in itertools.combinations(args, 2):
        if a != b and (not quick or (hash_(a + l + b + m) % 4 == 0)):
            yield {"key": f"arg2:{a}:{l}:{b}:{m}", "kind": "args", "style": "none", "doc": op(f"a {{ sub(Int: 2, String: \"z\") }} f({a}: {l}, {b}: {m}) g: f({b}: {m})")}
    for s in LITS["String"]:
        yield {"key": f"nested:{s}", "kind": "args", "style": "snake", "doc":
               op(f"node(String: {s}) {{ id ... on A {{ sub(String: {s}) }} ...NS }}", extra=[s]) + f"\nfragment NS on Node {{ s2: sub(String: {s}) }}"}
    # directives in every placement
    for i, slot in enumerate(SLOTS):
        for ds in itertools.product(DIRS, repeat=2 if "{1}" in slot else 1):
            body = slot.format(*ds)
            fr = [FR[n] for n in FR if f"...{n} " in body + " "]
            for kind in ("query",):
                d = op(body, kind, extra=fr)
                yield {"key": f"dir:{i}:{ds}", "kind": "args", "style": "snake", "doc": "\n".join([d] + fr)}
    # variable defaults and odd layouts
    for dflt in ("$i: Int = 3", "$s: String = \"a\\\"b\"", "$in: In = {a: 1, n: {s: \"x\"}}", "$l: [Int!] = [1, 2]", "$c: Color = RED", "$b: Boolean = false", "$f: Float = 1.5"):
        v = dflt.split(":")[0]
        a = {"$i": "Int", "$s": "String", "$in": "In", "$l": "Ints", "$c": "Color", "$b": "Boolean", "$f": "Float"}[v]
        yield {"key": f"default:{dflt}", "kind": "args", "style": "snake", "doc": f"query Get({dflt}) {{ f({a}: {v}) }}"}
    for i, d in enumerate(ODD):
        for style in ("none", "snake", "append"):
            yield {"key": f"odd:{i}:{style}", "kind": "args", "style": style, "doc": d}
    for n in (3,) if quick else (3, 4):
        for k, d in frag_docs(n, tier):
            yield {"key": f"{n}:{k}", "kind": "zoo", "doc": d, "style": ["snake", "none", "append"][len(k) % 3]}


def hash_(s):
    return sum(ord(c) * (i + 1) for i, c in enumerate(s))


ODD = [
    "# ...NotThere\nquery Get { f } # {{ ...Nope }}\n",
    "query Get { # first\n a { id # second ...X\n } }",
    "query One { f } query Two { g: f } query Three { ...on1: f }".replace("...on1", "on1"),
    "query Get { node { id ... on A { ...A1 } ... on B { id } } u { ...A1 ...B1 } }\nfragment A1 on A { deep { ...A2 } }\nfragment A2 on A { sub }\nfragment B1 on B { sub }\nfragment Unused on A { id }",
    "query A { a { ...A } }\nfragment A on A { id }\nquery B { u { ...A ...B } }\nfragment B on B { id }",
    "query Get { a { id, deep { id, deep { id, deep { ...F } } } } } fragment F on A { id deep { ...G } } fragment G on A { sub }",
    "subscription Get($i: Int) { node(Int: $i) { id ... on A { deep { ...F } } } } fragment F on A { sub(Int: $i) }",
    "query Get { node { ... on A { ...F } } } fragment F on A { ...G deep { ...G } } fragment G on A { ...H } fragment H on A { sub(String: \"...F\") }",
    "query Get($i: Int) @skipme { f(Int: $i) }".replace(" @skipme", ""),
    "\ufeffquery Get { f }",
    "query\nGet\n{\nf\n}\n\n\n",
    "query Get { typename: f a { __typename id } node { __typename id } }",
    "query Get { a { deep { __typename } } }",
    "query Get { u { __typename } v: u { __typename ... on A { id } } }",
    "mutation Get { node { id } first: f(Int: 1) second: f(Int: 2) }",
]


def strip(node):
    class V(Visitor):
        def enter_field(self, n, *_):
            if n.name.value == "__typename" and not n.alias:
                from graphql import REMOVE
                return REMOVE
    return visit(node, V())


def run(case, st):
    sdl = ZOO if case["kind"] == "zoo" else ARGS
    st.programs += 1
    schema = schema_of(sdl)
    cfg = conf(case["style"])
    if case["kind"] == "args":
        cfg["scalar_definitions"] = {"Any": "str", "Date": "str"}
    text = case["doc"] if isinstance(case["doc"], str) else "\n".join(case["doc"].values())
    errs = validate(schema, parse(text), [r for r in __import__("graphql").specified_rules if r.__name__ != "NoUnusedFragmentsRule"])
    if errs:
        raise AssertionError(f"harness document invalid: {errs} {text}")
    if "Unused" in text or case["key"].startswith(("3:", "4:")):
        cfg["omited_document_rules"] = ["no_unused_fragments"]
    return with_module(sdl, case["doc"], cfg, lambda mod, sch, user: judge(mod, sch, user, st))


def judge(mod, schema, user, st):
    problems = []
    ops = operations_of(mod)
    for name, uop in user.ops.items():
        cls = ops.get(name)
        if cls is None:
            problems.append(("missing", f"no class for operation {name}"))
            continue
        text = cls.Meta.document
        st.traces += 1
        try:
            sent = parse(text)
        except Exception as e:
            problems.append(("syntax", f"{name}: sent document does not parse: {e}\n{text}"))
            continue
        errs = validate(schema, sent)
        if errs:
            problems.append(("invalid", f"{name}: sent document is invalid: {errs[0].message}\n{text}"))
            continue
        sops = [d for d in sent.definitions if isinstance(d, OperationDefinitionNode)]
        sfr = [d for d in sent.definitions if isinstance(d, FragmentDefinitionNode)]
        if len(sops) != 1 or len(sops) + len(sfr) != len(sent.definitions):
            problems.append(("definitions", f"{name}: {len(sops)} operations in\n{text}"))
            continue
        want = closure(uop, user.frags)
        have = [d.name.value for d in sfr]
        if sorted(have) != sorted(want):
            problems.append(("fragments", f"{name}: sends fragments {sorted(have)}, uses {sorted(want)}"))
            continue
        st.outcome(uop.operation.value, tuple(sorted(want)))
        for s, u in [(sops[0], uop)] + [(d, user.frags[d.name.value]) for d in sfr]:
            st.states += 1
            st.transitions += 1
            if print_ast(strip(s)) != print_ast(strip(u)):
                problems.append(("changed", f"{name}: user wrote\n{print_ast(u)}\nsent\n{print_ast(s)}"))
        missing = []

        class V(Visitor):
            def __init__(self, ti):
                super().__init__()
                self.ti = ti

            def enter_selection_set(self, n, key, parent, path, anc):
                st.states += 1
                t = self.ti.get_parent_type()
                holder = anc[-1] if not isinstance(anc[-1], (list, tuple)) else anc[-2]
                if isinstance(holder, FieldNode) or isinstance(parent, FieldNode):
                    if t and is_abstract_type(get_named_type(t)) and not has_typename(n, user.frags, sfr):
                        missing.append(print_ast(n))

        ti = TypeInfo(schema)
        visit(sent, TypeInfoVisitor(ti, V(ti)))
        if missing:
            problems.append(("discriminator", f"{name}: no discriminator selected in {missing[0]} of\n{text}"))
    return problems[:4]


def has_typename(selset, frags, sfr):
    return any(isinstance(s, FieldNode) and s.name.value == "__typename" and not s.alias for s in selset.selections) or any(
        isinstance(s, FragmentSpreadNode) and any(d.name.value == s.name.value and has_typename(d.selection_set, frags, sfr) for d in sfr)
        for s in selset.selections) or any(s.kind == "inline_fragment" and False for s in selset.selections)


def closure(node, frags):
    out, todo = [], [node]
    while todo:
        class V(Visitor):
            def enter_fragment_spread(self, n, *_):
                if n.name.value not in out:
                    out.append(n.name.value)
                    todo.append(frags[n.name.value])
        visit(todo.pop(), V())
    return out
