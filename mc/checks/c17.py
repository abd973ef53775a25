"""C17: a generated server skeleton serves the schema it was generated from."""
import itertools

from graphql import (GraphQLEnumType, GraphQLInputObjectType, GraphQLList, GraphQLNonNull, GraphQLObjectType, build_schema, get_named_type, is_required_argument, is_required_input_field, validate_schema)

from ..served import ServeFailed, differences, serve
from ..turmsio import GenFailed, LoadFailed, generate, loaded, plugins, stylers

ID = "C17"
LEVEL = "model_checking"
RULE = ("one case = one schema (or one pair of schema versions merged) under one configuration; a state is one element of the source schema (type, "
        "field, argument, enum value, member) looked up in the schema object the generated classes make up, under both naming configurations of "
        "the server library (automatic camel case on and off); a trace is one operation executed against the skeleton: every root field, with the "
        "required arguments only and with all of them; nothing but the missing value of a skeleton resolver may be reported. Outcomes: distinct "
        "(case group, verdict).")
BOUNDS = {
    "quick": "10 result types x 9 wrappers x 7 places; 8 argument types x 9 wrappers x 3 defaults x 4 places; 40 names x 11 kinds of name x 4 stylings; all pairs of 12 "
             "meeting names x 4 kinds; all hierarchies of 3 interfaces x definition orders; all unions over 3 types; all reference graphs of 3 object types and of 3 "
             "input types in all orders (2 edges per type); 9 root layouts; directives on every location; all 24x24 schema evolutions through the merging stage",
    "thorough": "as quick with all name kinds pairwise, hierarchies of 4 interfaces, all three-edge reference graphs and every case under all stylings",
}
ASSUMPTIONS = ["ID is served as ID when mapped to strawberry.ID (the built-in default for ID is str, which a stable test fixes)",
               "an optional input field without default must be given by the client or the Python caller (the generated annotation without default is fixed by a stable test): operations give every input field"]

WRAP = ["{}", "{}!", "[{}]", "[{}!]", "[{}]!", "[{}!]!", "[[{}]]", "[[{}!]!]!", "[[{}]!]"]
STYLINGS = {"none": [], "default": ["default"], "snake": ["default", "snake"], "capsnake": ["capitalize", "snake"], "append": ["default", "appender"]}
COMMON = '''scalar Day
enum Color { RED GREEN }
interface Iface { id: ID }
type Obj implements Iface { id: ID name: String }
type Other { x: Int }
union Uni = Obj | Other
input In { a: Int! b: String c: Color }
input One @oneOf { a: Int b: String }
'''
ONEOF = "directive @oneOf on INPUT_OBJECT\n"
RESULT = ["Int", "Float", "String", "Boolean", "ID", "Day", "Color", "Iface", "Obj", "Uni"]
ARGT = {"Int": ["3", "null", "-1"], "Float": ["1.5", "null", "2"], "String": ['"a\\"b\\n"', "null", '""'], "Boolean": ["true", "null", "false"], "ID": ['"x"', "null", "7"], "Day": ['"d"', "null", "1"],
        "Color": ["RED", "null", "GREEN"], "In": ["{a: 1, b: null, c: RED}", "null", '{a: 1, b: "x", c: GREEN}'], "One": ["{a: 1}", "null", '{b: "x"}']}
NAMES = ["a", "fooBar", "foo_bar", "FooBar", "_x", "x_", "a__b", "from", "class", "None", "True", "self", "info", "root", "cls", "id", "ID", "str", "int", "list", "List", "Optional", "Union",
         "Annotated", "strawberry", "Enum", "type", "input", "field", "name", "value", "mro", "json", "copy", "dict", "Query", "x1", "a_1_b", "URL", "Location", "NewType", "date", "print", "parent",
         "args", "kwargs", "typename", "match", "Obj", "Color", "AsyncGenerator", "Warning", "object", "_1", "is_type_of", "resolve_type", "query", "Day"]
MEET = ["from", "from_", "fooBar", "foo_bar", "FooBar", "_a", "a", "a_", "str", "str_", "self", "self_"]


def case(group, key, sdl, style="none", **kw):
    return {"key": f"{group}:{key}:{style}", "group": group, "sdl": sdl, "style": style, **kw}


def result_schema(t, where):
    """a schema with a result of type t in a place"""
    q = "type Query { ok: Int }"
    return {
        "query": f"type Query {{ f: {t} }}", "queryarg": f"type Query {{ f(x: Int): {t} }}", "mutation": q + f" type Mutation {{ f: {t} g(x: Int!): {t} }}",
        "subscription": q + f" type Subscription {{ f: {t} g(x: Int!): {t} }}", "object": f"type Query {{ t: T }} type T {{ f: {t} }}", "objectarg": f"type Query {{ t: T }} type T {{ f(a: Int!): {t} }}",
        "iface": f"type Query {{ t: I }} interface I {{ f: {t} g(x: Int): {t} }} type T implements I {{ f: {t} g(x: Int): {t} }}",
    }[where]


def argument_schema(t, where):
    return {
        "query": f"type Query {{ f(x: {t}): Int }}", "second": f"type Query {{ f(r: Int!, x: {t}, z: Int = 2, n: Int): Int }}",
        "object": f"type Query {{ t: T }} type T {{ f(x: {t}, y: Int!): Int }}", "input": f"type Query {{ f(i: New): Int }} input New {{ r: Int! x: {t} z: String }}",
    }[where]


def name_schema(kind, n, m=None):
    """a schema with the name (or two) as a name of that kind"""
    pair = [n] + ([m] if m else [])
    fields = " ".join(f"{x}: Int" for x in pair)
    if kind == "type":
        return "type Query { f: Int " + " ".join(f"g{i}: {x} h{i}(a: Int): [{x}!]" for i, x in enumerate(pair)) + " } " + " ".join(f"type {x} {{ a: Int }}" for x in pair)
    if kind == "iface":
        return "type Query { f: Int " + " ".join(f"g{i}: {x}" for i, x in enumerate(pair)) + " } " + " ".join(f"interface {x} {{ a: Int }}" for x in pair) + " type T implements " + " & ".join(pair) + " { a: Int }"
    if kind == "union":
        return "type T { a: Int } type U { b: Int } type Query { f: Int " + " ".join(f"g{i}: {x} h{i}: [{x}!]!" for i, x in enumerate(pair)) + " } " + " ".join(f"union {x} = T | U" for x in pair)
    if kind == "enum":
        return "type Query { f: Int " + " ".join(f"g{i}: {x} h{i}(a: {x} = RED, b: [{x}!]): {x}" for i, x in enumerate(pair)) + " } " + " ".join(f"enum {x} {{ RED BLUE }}" for x in pair)
    if kind == "value":
        return f"type Query {{ f(a: E = {n}, b: [E!] = [{n}]): E }} enum E {{ {' '.join(pair)} OTHER }}"
    if kind == "inputtype":
        return "type Query { f: Int " + " ".join(f"h{i}(a: {x}, b: [{x}!]): Int" for i, x in enumerate(pair)) + " } " + " ".join(f"input {x} {{ a: Int more: {x} }}" for x in pair)
    if kind == "scalar":
        return "type Query { f: Int " + " ".join(f"h{i}(a: {x}): {x}" for i, x in enumerate(pair)) + " } " + " ".join(f"scalar {x}" for x in pair)
    if kind == "field":
        return f"type Query {{ t: T }} type T {{ before: Int {fields} after: String afterO: [Obj!] afterC: Color }}"
    if kind == "method":
        return "type Query { before: Int " + " ".join(f"{x}(a: Int): Int" for x in pair) + " after: String afterO(x: Color = RED): [Obj!] }"
    if kind == "ifacefield":
        return f"type Query {{ t: I u: T }} interface I {{ {n}: String! }} type T implements I {{ {n}: String! more: Color {m + ': String' if m else ''} last: Obj }}"
    if kind == "arg":
        return "type Query { f(" + " ".join(f"{x}: Int" for x in pair) + ", last: Color = RED, must: Int!): Int }"
    if kind == "inputfield":
        return f"type Query {{ f(i: New): Int }} input New {{ before: Int! {fields} after: String! afterC: Color = GREEN }}"
    raise ValueError(kind)


KINDS = ["type", "iface", "union", "enum", "value", "inputtype", "scalar", "field", "method", "ifacefield", "arg", "inputfield"]
ROOTS = {
    "plain": "type Query { a: Int } type Mutation { a: Int } type Subscription { a: Int }",
    "custom": "schema { query: Q mutation: M subscription: S } type Q { a: Int b(x: Int!): Q } type M { a: Int! } type S { a: Int b(x: Int): M }",
    "swapped": "schema { query: Mutation mutation: Query } type Query { a: Int } type Mutation { b: Int }",
    "unused": "schema { query: Q } type Q { a: Int m: Mutation s: Subscription q: Query } type Mutation { b: Int f(x: Int): Int } type Subscription { c: Int f(x: Int): Int } type Query { d: Int f(x: Int!): Int }",
    "shared": "schema { query: Root mutation: Root } type Root { a: Int }",
    "lower": "schema { query: query } type query { a: Int self: query }",
    "iface": "interface Node { id: ID! } type Query implements Node { id: ID! a: Int q: Query n: Node }",
    "recursive": "type Query { q: Query m: Mutation } type Mutation { q: Query! }",
    "inunion": "union Any = Query | T type T { x: Int } type Query { any: Any }",
}
EXTRAS = {
    "descriptions": '"""a\n"quoted" \\\\ doc\n""" type Query { "d1 \\" \'" f("arg" a: Int): Int "d2" g: T } "t\'s" type T { "x" y: Int } "e" enum E { "v" A } "i" input I { "x" y: Int = 3 "z" z: [Int!] = [1] } "if" interface F { "q" z: Int } "u" union U = T "s" scalar S type W { e: E f(i: I): S u: U i: F } type X implements F { z: Int w: W }',
    "deprecated": 'type Query { f(a: Int): Int @deprecated(reason: "old \\"x\\"") g: T } type T { a: Int @deprecated b: String } enum E { A B @deprecated(reason: "x") } type Mutation { m(e: E, i: I): Int @deprecated } input I { a: Int @deprecated b: Int }',
    "emptydefaults": "type Query { f(a: [Int!] = [], b: [[String]] = [[]], c: [In!]! = [{a: 1, c: null, e: null}], d: In = {a: 2, c: null, e: {a: 3, c: RED, e: null}}): Int } input In { a: Int! b: [Int] = [] c: Color d: [Color!] = [RED], e: In } enum Color { RED }",
    "nesteddefaults": "type Query { f(o: Out = {i: {a: 1, l: [GREEN, RED]}, n: [{a: 2}]}): Int } input Out { i: In = {a: 7} n: [In!] = [{a: 3, l: null}] s: String = \"x\" } input In { a: Int! = 5 l: [Color] = [RED] } enum Color { RED GREEN }",
    "coerced": "type Query { f(a: Float = 1, b: [Int] = 3, c: ID = 5, d: [[Int]] = 1, e: Float = 1e3): Int } input In { a: Float = 1, b: [Int] = 3, c: ID = 5 } type Mutation { m(i: In): Int }",
    "sameunion": "union U = A | B type A { u: U us: [U!] } type B { u: U! f(x: Int): U } type Query { u: U us: [U] a: A }",
    "specified": 'scalar Url @specifiedBy(url: "https://x") type Query { u: Url }',
    "manyifaces": "interface A { a: Int } interface B { b: Int } interface C { c: Int } type T implements A & B & C { a: Int b: Int c: Int } type U implements C & A { a: Int c: Int } type Query { a: A b: B c: C t: T u: U }",
    "covariant": "interface N { self: N any: U! list: [N] } union U = T | V type T implements N { self: T any: T! list: [T!]! } type V implements N { self: V! any: U! list: [N] more(x: Int): N } type Query { n: N }",
    "moreargs": "interface N { f(a: Int): Int } type T implements N { f(a: Int, b: Int = 2): Int! } type Query { n: N t: T }",
    "noargs": "type Query { f: Int } type Mutation { m: T } type T { x: [T!]! y(a: Int): T! }",
}
OMITTED = {"client": ("x: In", ["{ f(x: {a: 1}) }", "mutation { f(x: {a: 1}) }", "query A($x: In = {a: 2}) { f(x: $x) }"]), "listed": ("x: [In!]!", ["{ f(x: [{a: 1}, {a: 2, b: null}]) }"]),
           "default": ("x: In = {a: 1}", ["{ f }", "mutation { f }"]), "given": ("x: In!", ['{ f(x: {a: 1, b: "x"}) }', "mutation { f(x: {a: 1, b: null, d: []}) }"])}
LOCATIONS = ["SCHEMA", "SCALAR", "OBJECT", "FIELD_DEFINITION", "ARGUMENT_DEFINITION", "INTERFACE", "UNION", "ENUM", "ENUM_VALUE", "INPUT_OBJECT", "INPUT_FIELD_DEFINITION",
             "QUERY", "MUTATION", "FIELD", "FRAGMENT_SPREAD", "VARIABLE_DEFINITION", "FIELD | OBJECT", "OBJECT | INTERFACE"]
APPLY = {"SCALAR": ("scalar Day", "scalar Day @{}"), "OBJECT": ("type Obj implements Iface", "type Obj implements Iface @{}"), "FIELD_DEFINITION": ("name: String", "name: String @{}"), "INTERFACE": ("interface Iface", "interface Iface @{}"),
         "ENUM": ("enum Color", "enum Color @{}"), "INPUT_OBJECT": ("input In", "input In @{}"), "OBJECT | INTERFACE": ("interface Iface", "interface Iface @{}"), "ENUM_VALUE": ("RED GREEN", "RED @{} GREEN"),
         "INPUT_FIELD_DEFINITION": ("a: Int! b: String c", "a: Int! @{} b: String c"), "UNION": ("union Uni", "union Uni @{}"), "FIELD | OBJECT": ("type Other", "type Other @{}")}
DIRARGS = {"none": ("", ""), "int": ("(a: Int)", "(a: 3)"), "neg": ("(a: Int! b: Float = 1.5)", "(a: -3)"), "str": ('(a: String = "x")', '(a: "y")'), "list": ("(a: [Int!] = [1], b: [String])", '(a: [2], b: ["x", null])'),
           "enum": ("(a: Color = RED)", "(a: GREEN)"), "bool": ("(from: Boolean! = false)", "(from: true)"), "names": ("(foo_bar: Int, self: Int)", "(foo_bar: 1, self: 2)"), "null": ("(a: Int = null)", "(a: null)")}


def hierarchies(n):
    """all ways n interfaces implement each other (transitively closed, acyclic) and a type implements them"""
    edges = [(a, b) for a in range(n) for b in range(n) if a != b]
    for bits in itertools.product([0, 1], repeat=len(edges)):
        e = {x for x, on in zip(edges, bits) if on}
        if any((b, a) in e for a, b in e) or any((a, d) not in e for a, b in e for c, d in e if b == c):
            continue
        yield e


def hierarchy_schema(n, e, order, impl):
    parts = []
    for i in range(n):
        ups = [f"I{b}" for a, b in sorted(e) if a == i]
        own = " ".join(f"f{b}: Int" for b in sorted({i} | {b for a, b in e if a == i}))
        parts.append(f"interface I{i} {'implements ' + ' & '.join(ups) if ups else ''} {{ {own} }}")
    need = set(impl)
    for i in impl:
        need |= {b for a, b in e if a == i}
    tfields = " ".join(f"f{i}: Int" for i in sorted(need)) or "x: Int"
    parts.append(f"type T {'implements ' + ' & '.join(f'I{i}' for i in sorted(need)) if need else ''} {{ {tfields} }}")
    parts.append("type Query { t: T " + " ".join(f"i{i}: I{i}" for i in range(n)) + " }")
    return "\n".join(parts[i] for i in order)


def cases(tier):
    for c in candidates(tier):
        if c["group"] in ("name", "names"):  # names that the rest of the schema already has, or that GraphQL forbids there
            try:
                if validate_schema(build_schema(c["sdl"])):
                    continue
            except Exception:  # noqa
                continue
        yield c


def candidates(tier):
    thorough = tier == "thorough"
    every = list(STYLINGS) if thorough else ["none"]
    for t, w, p in itertools.product(RESULT, WRAP, ["query", "queryarg", "mutation", "subscription", "object", "objectarg", "iface"]):
        for s in every:
            yield case("result", f"{t}:{w}:{p}", ONEOF + COMMON + result_schema(w.format(t), p), s)
    for (t, vals), w, p in itertools.product(ARGT.items(), WRAP, ["query", "second", "object", "input"]):
        for i, v in enumerate([None] + vals):
            if v == "null" and w.endswith("!"):
                continue
            if v not in (None, "null") and "[" in w:
                v = "[" * w.count("[") + v + "]" * w.count("[")
            for s in every:
                yield case("argument", f"{t}:{w}:{p}:{i}", ONEOF + COMMON + argument_schema(w.format(t) + (f" = {v}" if v else ""), p), s)
    for k, n in itertools.product(KINDS, NAMES):
        if k == "arg" and n == "info":
            continue  # the server library hands the request to a resolver under this name
        for s in STYLINGS if thorough else ["none", "default", "snake", "append"]:
            yield case("name", f"{k}:{n}", ONEOF + COMMON.replace("Day", "Dai") + name_schema(k, n) if n == "Day" else ONEOF + COMMON + name_schema(k, n), s, base=n, mayrefuse=True)
    for k, (a, b) in itertools.product(["field", "method", "ifacefield", "arg", "inputfield", "value"] if not thorough else KINDS, itertools.permutations(MEET, 2)):
        for s in ("none", "snake") if not thorough else STYLINGS:
            yield case("names", f"{k}:{a}:{b}", ONEOF + COMMON + name_schema(k, a, b), s, mayrefuse=k in ("type", "iface", "enum", "inputtype", "union", "scalar"), base=a)
    n = 4 if thorough else 3
    for e in hierarchies(n):
        for order in (itertools.permutations(range(n + 2)) if not thorough else [tuple(range(n + 2)), tuple(reversed(range(n + 2)))]):
            if not thorough and order.index(n + 1) not in (0, n + 1):
                continue
            for impl in ([0], [n - 1], list(range(n))):
                yield case("hierarchy", f"{sorted(e)}:{order}:{impl}", hierarchy_schema(n, e, order, impl))
    members = ["A", "B", "C"]
    subsets = [c for r in (1, 2, 3) for c in itertools.permutations(members, r)]
    for u, v in itertools.product(subsets, [None] + subsets[:6]):
        for order in (0, 1):
            parts = [f"union U = {' | '.join(u)}"] + ([f"union V = {' | '.join(v)}"] if v else []) + ["type A { x: Int u: U }", "type B { y: Int a: [U!] }", "type C { z: Int }",
                     "type Query { u: U us: [U!]! " + ("v: V! " if v else "") + "f(a: Int): U c: C }"]
            yield case("union", f"{u}:{v}:{order}", "\n".join(parts if order else reversed(parts)))
    for kind in ("type", "input"):
        graphs = list(itertools.product([(), (0,), (1,), (2,), (0, 1), (1, 2), (0, 2)] + ([(0, 1, 2)] if thorough else []), repeat=3))
        for g in graphs:
            for oi, order in enumerate(itertools.permutations(range(3))):
                if not thorough and oi not in (0, 3, 5):
                    continue
                parts = [f"{kind} T{i} {{ x: Int {' '.join(f'r{j}: {('T%d' if (i + j) % 2 else '[T%d!]') % j}' for j in g[i])} }}" for i in order]
                q = "type Query { " + " ".join((f"t{i}: T{i}" if kind == "type" else f"t{i}(a: T{i}): Int") for i in range(3)) + " }"
                yield case("references", f"{kind}:{g}:{order}", "\n".join(parts + [q]))
    for k, v in ROOTS.items():
        for s in STYLINGS:
            yield case("roots", k, v, s)
    for k, v in EXTRAS.items():
        for s in STYLINGS:
            yield case("extras", k, v, s)
    for k, (args, ops) in OMITTED.items():
        yield case("omitted", k, f"type Query {{ f({args}): Int }} input In {{ a: Int! b: String c: Color = RED d: [Int!] = [1] }} enum Color {{ RED GREEN }} type Mutation {{ f({args}): Int }}", ops=ops)
    for loc, (an, (decl, use)) in itertools.product(LOCATIONS, DIRARGS.items()):
        for name in ("tag", "from", "my_tag", "str"):
            sdl = COMMON + "type Query { o: Obj i: Iface u: Uni c(i: In, one: One): Color d: Day }"
            for applied in (False, True):
                if applied and loc not in APPLY:
                    continue
                text = sdl.replace(APPLY[loc][0], APPLY[loc][1].format(name + use)) if applied else sdl
                yield case("directive", f"{loc}:{an}:{name}:{applied}", ONEOF + f"directive @{name}{decl} on {loc}\n" + text)
    for k, cfg in {"skip": {"skip_forwards": True}, "bases": {"plug": {"types_bases": ["mc.bases.Plain"], "inputtype_bases": ["mc.bases.Plain2"]}}, "additional": {"additional_bases": {"Obj": ["mc.bases.Plain"], "In": ["mc.bases.Plain"]}},
                   "samebase": {"additional_bases": {"Obj": ["mc.bases.Plain"], "In": ["mc.bases.Plain"]}, "plug": {"types_bases": ["mc.bases.Plain"], "inputtype_bases": ["mc.bases.Plain"]}},
                   "always": {"always_resolve_interfaces": False}, "noscalars": {"plug": {"generate_scalars": False}, "scalar_definitions": {"Day": "datetime.date"}}, "nodirectives": {"plug": {"generate_directives": False}},
                   "order": {"force_plugin_order": True}, "noid": {"scalar_definitions": {}}, "skipunder": {"plug": {"skip_underscore": True}}, "freeze": {"freeze": {"enabled": True}}, "options": {"options": {"enabled": True, "extra": "allow"}},
                   "exclude": {"exclude_typenames": True}}.items():
        sdl = COMMON + "type Query { o(n: Day): Obj i: Iface u: Uni c(i: In, one: One, o: Color = RED): Color d: Day }"
        yield case("config", k, ONEOF + (sdl.replace("id: ID", "id: String") if k == "noid" else sdl), "none", cfg=cfg, **({"ops": ['{ o(n: "2020-01-01") { __typename } }']} if k == "noscalars" else {}))
    from .c16 import VERSIONS

    for a, b in itertools.permutations(VERSIONS, 2):
        if a == "ifaces":
            continue  # a merge keeps the base of an interface that was dropped, which the schema may then contradict
        yield case("merge", f"{a}:{b}", VERSIONS[b], "none", before=VERSIONS[a])
        if thorough:
            yield case("merge", f"{a}:{b}", VERSIONS[b], "snake", before=VERSIONS[a])


def literal(t, depth=0):
    if isinstance(t, GraphQLNonNull):
        return literal(t.of_type, depth)
    if isinstance(t, GraphQLList):
        return "[" + literal(t.of_type, depth) + "]"
    if isinstance(t, GraphQLEnumType):
        return list(t.values)[-1]
    if isinstance(t, GraphQLInputObjectType):
        fields = list(t.fields.items())
        if getattr(t, "is_one_of", False) or (t.ast_node and any(d.name.value == "oneOf" for d in t.ast_node.directives)):
            n, f = fields[-1]
            return "{" + f"{n}: {literal(GraphQLNonNull(f.type), depth + 1) if not isinstance(f.type, GraphQLNonNull) else literal(f.type, depth + 1)}" + "}"
        return "{" + ", ".join(f"{n}: {literal(f.type, depth + 1) if is_required_input_field(f) or (depth < 2 and not isinstance(get_named_type(f.type), GraphQLInputObjectType)) or depth < 1 else 'null'}" for n, f in fields) + "}"
    return {"Int": "1", "Float": "1.5", "Boolean": "true", "ID": '"i"'}.get(str(t), '"s"')


def leaf(t):
    t = get_named_type(t)
    return "" if not hasattr(t, "fields") and not hasattr(t, "types") else " { __typename }"


def operations(schema):
    for op, root in (("query", schema.query_type), ("mutation", schema.mutation_type)):
        for n, f in (root.fields if root else {}).items():
            need = [(k, a) for k, a in f.args.items() if is_required_argument(a)]
            for args in ([need, list(f.args.items())] if f.args else [[]]):
                text = ", ".join(f"{k}: {literal(a.type)}" for k, a in args)
                yield op, f"{op} {{ {n}{'(' + text + ')' if text else ''}{leaf(f.type)} }}"


def config(case, d=None):
    c = dict(case.get("cfg", {}))
    cfg = {"plugins": plugins(("strawberry", c.pop("plug", {}))), "stylers": stylers(*STYLINGS[case["style"]]), "scalar_definitions": {"ID": "strawberry.ID"}}
    cfg.update(c)
    if case["group"] == "config" and "scalar_definitions" in c:
        cfg["scalar_definitions"] = {"ID": "strawberry.ID", **c["scalar_definitions"]}
    return cfg


def run(case, st):
    from . import c16

    cfg = config(case)
    source = build_schema(case["sdl"])
    # a merge keeps a function as it is that implements what became a field without arguments
    kept = {f"{n}.{f}" for n, t in build_schema(case["before"]).type_map.items() if isinstance(t, GraphQLObjectType) for f, d in t.fields.items() if d.args} if case.get("before") else ()
    kept = {k for k in kept if not getattr(getattr(source.type_map.get(k.split(".")[0]), "fields", {}).get(k.split(".")[1]), "args", True)}
    out = []
    try:
        code = generate(case["sdl"], None, cfg)
        if case.get("before"):
            cfg["scalar_definitions"] = dict(cfg["scalar_definitions"], Day="datetime.date")
            with c16.scratch() as d:
                from turms.config import GeneratorConfig
                from turms.processors.merge import MergeProcessor

                c16._stage.update(merge=MergeProcessor(), config=GeneratorConfig(out_dir=d))
                code = c16.merge(generate(case["before"], None, cfg), generate(case["sdl"], None, cfg))
    except GenFailed as e:
        st.outcome(case["group"], "refused", str(e)[:60])
        if case.get("mayrefuse") and "would both be generated as" in str(e):
            return []
        return [("generation", f"{case['sdl'][-200:]!r}: {e}")]
    st.programs += 1
    try:
        with loaded(code) as mod:
            for camel in (True, False):
                try:
                    served = serve(mod, source, camel)
                except ServeFailed as e:
                    out.append(("serve", f"camel case {camel}: {e}"))
                    continue
                optional = {"Day"} if case.get("before") or case["key"].startswith("config:noscalars") else set()
                more = bool(case.get("before"))
                try:
                    plain = served._schema
                    used = reachable(source)
                    optional |= {n for n in source.type_map if n not in used}
                    diffs = differences(source, plain, more, optional)
                except Exception as e:  # noqa
                    diffs = [f"the served schema cannot be read: {type(e).__name__}: {e}"]
                st.states += sum(1 + len(getattr(t, "fields", ())) for t in source.type_map.values())
                st.transitions += 1
                for d in diffs:
                    if any(d.startswith((f"{f} ", f"{f}:")) for f in kept):
                        continue
                    if "Day" in optional and "Date" in d and ("Day" in d or d.startswith("ScalarType Date")):
                        continue
                    out.append(("served", f"camel case {camel}: {d}"))
                if more:
                    continue
                for kind, text in [("", o) for o in case["ops"]] if case.get("ops") else operations(source):
                    st.traces += 1
                    res = served.execute_sync(text)
                    for err in res.errors or ():
                        if not err.message.startswith("Cannot return null for non-nullable field"):
                            out.append(("execute", f"camel case {camel}: {text}: {err.message[:200]}"))
    except LoadFailed as e:
        return [("import", str(e)[:300])]
    st.outcome(case["group"], bool(out))
    return out


def reachable(schema):
    """names that must be served: all object types, and whatever they refer to (a server library only knows what is used)"""
    from graphql import GraphQLInterfaceType, GraphQLObjectType

    seen, todo = set(), [t for t in schema.type_map.values() if isinstance(t, (GraphQLObjectType, GraphQLInterfaceType)) and not t.name.startswith("__")]
    while todo:
        t = get_named_type(todo.pop())
        if t.name in seen:
            continue
        seen.add(t.name)
        for f in getattr(t, "fields", {}).values():
            todo.append(f.type)
            todo += [a.type for a in getattr(f, "args", {}).values()]
        todo += list(getattr(t, "types", ())) + list(getattr(t, "interfaces", ()))
    return seen
