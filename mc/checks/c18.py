"""C18: the object models represent the types of the schema."""
import importlib
import itertools

from graphql import GraphQLInterfaceType, GraphQLObjectType, GraphQLUnionType, build_schema, get_named_type, validate_schema
from pydantic import ValidationError

from ..explore import explore
from ..objects import ObjectMaker
from ..pyd import dump, tojson
from ..roundtrip import mutants, schema_module
from ..turmsio import STYL, plugins, stylers
from .c17 import KINDS, MEET, NAMES, WRAP, hierarchies, hierarchy_schema, name_schema

ID = "C18"
LEVEL = "model_checking"
RULE = ("one case = one schema and one configuration of the objects plugin; a state is one choice point of the reference server that makes up a "
        "whole value of a type (null, omission, list length, possible type, enum value, scalar) explored to a stated number of deviations; a trace is "
        "one value given to the class of its type: conforming values must be accepted and come back unchanged, mutants (null or nothing for non-null, "
        "wrong JSON kind, undeclared enum value) refused, the classes must be related as the types are, and what is found at a position of interface "
        "type must be one of its possible classes. Outcomes: distinct (case group, verdict).")
BOUNDS = {
    "quick": "12 field types x 9 wrappers x 2 places x 7 (stylings, frozen or not) with 2 deviations (all other cases with 1); all unions of two or three member shapes out of 9; 60 names x 8 kinds x 4 stylings; all pairs of "
             "12 meeting names; all hierarchies of 3 interfaces x 24+ orders of definition; all reference graphs of 3 types (2 edges each) x 6 orders; 16 configurations; all orders of 4 plugins",
    "thorough": "one more deviation, hierarchies of 4 interfaces, three-edge graphs, name pairs of every kind, every case under all stylings",
}
ASSUMPTIONS = ["a union or interface value carries no type tag in these models: which of several fitting classes reads it is not judged, only that nothing of it is lost",
               "values below abstract positions are not used for refusals: another member may fit"]

STYLINGS = {"none": [], "default": ["default"], "snake": ["default", "snake"], "capsnake": ["capitalize", "snake"], "append": ["default", "appender"]}
COMMON = '''scalar Date
enum Color { RED GREEN }
interface Iface { id: ID! c: Color }
type Obj implements Iface { id: ID! c: Color name: String }
type Obj2 implements Iface { id: ID! c: Color must: Int! more: [Int!] }
type Other { x: Int }
union Uni = Obj | Other
'''
TYPES = ["Int", "Float", "String", "Boolean", "ID", "Date", "Color", "Iface", "Obj", "Other", "Uni", "T"]
SHAPES = {"a": "x: Int", "b": "x: Int!", "c": "x: String!", "d": "x: Int y: Int", "e": "y: Int!", "f": "x: [Int!]", "g": "x: Color y: String!", "h": "n: A y: [A!]", "i": "x: Float z: Boolean"}
SHAPE_PAIRS = list(itertools.permutations(SHAPES, 2)) + [(s, s) for s in SHAPES]


def case(group, key, sdl, style="none", **kw):
    return {"key": f"{group}:{key}:{style}", "group": group, "sdl": sdl, "style": style, "dev": 2 if group in ("field", "iface", "extras", "config", "union") else 1, **kw}


EXTRAS = {
    "descriptions": 'type Query { t: T } """doc "x" \\\\ y\n""" type T implements I { "d \\" \'" a: Int! "e" b: String @deprecated(reason: "no \\"x\\"") } "i" interface I { "if" a: Int! } "u" union U = T',
    "deprecated": "type Query { t: T } type T { a: Int @deprecated b: Int! @deprecated(reason: \"x\") c: [Int!]! @deprecated }",
    "arguments": "type Query { t(a: Int!): T } type T { f(x: Int!, y: [Int] = [1]): Int! g(from: Int): T }",
    "roots": "schema { query: Q mutation: M subscription: S } type Q { a: Int! b(x: Int!): Q } type M { a: Int! } type S { a: Int b(x: Int): M }",
    "covariant": "interface N { self: N any: U list: [N] x: Int } union U = T | V type T implements N { self: T any: T list: [T!]! x: Int! } type V implements N { self: V any: U list: [N] x: Int more(x: Int): N } type Query { n: N! t: T }",
    "deepunion": "union U = A | B type A { u: U us: [U!] a: Int! } type B { u: U b: String! } type Query { u: U! us: [U]! a: A }",
    "manyifaces": "interface A { a: Int } interface B { b: Int } interface C { c: Int } type T implements A & B & C { a: Int b: Int c: Int } type U implements C & A { a: Int c: Int } type Query { a: A! b: B! c: C! t: T u: U }",
    "nested": "interface A { a: Int! } interface B implements A { a: Int! b: Int! } interface C implements B & A { a: Int! b: Int! c: Int! } type T implements C & B & A { a: Int! b: Int! c: Int! } type S implements A { a: Int! } type Query { a: A! b: [B!]! c: C! }",
    "emptyiface": "interface A { a: Int! } interface B implements A { a: Int! b: Int } type T implements A { a: Int! } type Query { a: A! t: T }",
    "introspected": "type Query { t: T! } type T { name: String! kind: Kind! } enum Kind { A B }",
}
CONFIGS = {
    "bases": {"plug": {"types_bases": ["mc.bases.BRoot"]}}, "two": {"plug": {"types_bases": ["pydantic.BaseModel", "mc.bases.Plain"]}}, "traits": {"additional_bases": {"Obj": ["mc.bases.Plain"], "Iface": ["mc.bases.Plain2"]}},
    "sametraits": {"additional_bases": {"Obj": ["mc.bases.Plain"], "Iface": ["mc.bases.Plain"], "Obj2": ["mc.bases.Plain", "mc.bases.Plain2"]}}, "freeze": {"freeze": {"enabled": True}},
    "freezelist": {"freeze": {"enabled": True, "convert_list_to_tuple": False}}, "freezeinput": {"freeze": {"enabled": True, "types": ["input"]}}, "extra": {"options": {"enabled": True, "extra": "allow"}},
    "forbid": {"options": {"enabled": True, "extra": "forbid"}}, "validate": {"options": {"enabled": True, "validate_assignment": True}}, "order": {"force_plugin_order": True}, "skip": {"skip_forwards": True},
    "nodocs": {"document_field_metadata": False}, "scalars": {"scalar_definitions": {"Date": "datetime.date", "ID": "mc.bases.Id"}}, "resolve": {"always_resolve_interfaces": False}, "under": {"plug": {"skip_underscore": True}},
    "dunder": {"plug": {"skip_double_underscore": False}}, "exclude": {"exclude_typenames": True},
}


def cases(tier):
    for c in candidates(tier):
        if c["group"] in ("name", "names", "union"):
            try:
                if validate_schema(build_schema(c["sdl"])):
                    continue
            except Exception:  # noqa
                continue
        if tier == "thorough":
            c["dev"] += 1
        yield c


def candidates(tier):
    thorough = tier == "thorough"
    for t, w in itertools.product(TYPES, WRAP):
        for s, cfg in itertools.product(STYLINGS, ({}, {"freeze": {"enabled": True}})):
            if cfg and s not in ("none", "capsnake") and not thorough:
                continue
            yield case("field", f"{t}:{w}:{len(cfg)}", COMMON + f"type T {{ f: {w.format(t)} other: Int! }} type Query {{ t: T }}" if w.format(t) not in ("T!",) else
                       COMMON + "type T { f: T2 other: Int! } type T2 { f: T! x: String } type Query { t: T }", s, cfg=cfg)
            yield case("iface", f"{t}:{w}:{len(cfg)}", COMMON + f"interface Z {{ f: {w.format(t)} }} type T implements Z {{ f: {w.format(t)} other: Int! }} type Query {{ t: Z u: [Z!] }}" if w.format(t) not in ("T!",) else
                       COMMON + "interface Z { f: Z } type T implements Z { f: T2 other: Int! } type T2 implements Z { f: T x: String } type Query { t: Z }", s, cfg=cfg)
    for a, b in SHAPE_PAIRS:
        for c in [None] + list(SHAPES if thorough else "beg"):
            if len({a, b, c}) < 2:
                continue
            for w in ("{}", "[{}!]", "{}!"):
                yield case("union", f"{a}:{b}:{c}:{w}", f"enum Color {{ RED GREEN }} type A {{ {SHAPES[a]} }} type B {{ {SHAPES[b]} }} " + (f"type C {{ {SHAPES[c]} }} " if c else "") +
                           f"union U = A | B {'| C' if c else ''} type T {{ u: {w.format('U')} other: Int }} type Query {{ t: T }}")
    for k, n in itertools.product([k for k in KINDS if k not in ("inputtype", "arg", "inputfield", "method")], NAMES):
        for s in STYLINGS if thorough else ["none", "default", "snake", "append"]:
            yield case("name", f"{k}:{n}", COMMON + name_schema(k, n), s, mayrefuse=True, base=n)
    for k, (a, b) in itertools.product(["field", "ifacefield", "value"] if not thorough else ["field", "ifacefield", "value", "type", "iface", "enum", "union", "scalar"], itertools.permutations(MEET, 2)):
        for s in ("none", "snake") if not thorough else STYLINGS:
            yield case("names", f"{k}:{a}:{b}", COMMON + name_schema(k, a, b), s, mayrefuse=True, base=a)
    n = 4 if thorough else 3
    for e in hierarchies(n):
        for order in itertools.permutations(range(n + 2)) if not thorough else itertools.permutations(range(n + 1)):
            if not thorough and order[-1] != n + 1:
                continue
            if thorough:
                order = order + (n + 1,)
            for impl in ([0], [n - 1], list(range(n))):
                yield case("hierarchy", f"{sorted(e)}:{order}:{impl}", hierarchy_schema(n, e, order, impl), cfg={"always_resolve_interfaces": False})
    graphs = list(itertools.product([(), (0,), (1,), (2,), (0, 1), (1, 2), (0, 2)] + ([(0, 1, 2)] if thorough else []), repeat=3))
    for g in graphs:
        for order in itertools.permutations(range(3)):
            parts = [f"type T{i} {{ x: Int {' '.join(f'r{j}: {('T%d' if (i + j) % 2 else '[T%d!]!') % j}' for j in g[i])} }}" for i in order]
            yield case("references", f"{g}:{order}", "\n".join(parts + ["type Query { " + " ".join(f"t{i}: T{i}" for i in range(3)) + " }"]))
    for k, v in EXTRAS.items():
        for s in STYLINGS:
            yield case("extras", k, v, s, cfg={"always_resolve_interfaces": False} if k == "emptyiface" else {})
    for k, v in CONFIGS.items():
        for s in STYLINGS:
            yield case("config", k, COMMON + "type Query { t: T _x: [_Any!] } type T { f: Obj g: [Iface!]! u: [Uni] d: Date a: _Any l: [[Int!]!]! } type _Any { x: Int! _y: String } interface _If { x: Int! } type U implements _If { x: Int! }", s, cfg=v)
    for order in itertools.permutations(["enums", "inputs", "objects"]):
        for s in STYLINGS:
            yield case("order", "-".join(order), COMMON + "type Query { t(i: In): T } type T { f: Obj g: [Iface!]! u: [Uni] d: Date c: Color! } input In { c: Color a: Int! }", s, order=list(order), cfg={"force_plugin_order": False})


def config(case):
    c = dict(case.get("cfg", {}))
    plug = c.pop("plug", {})
    names = case.get("order") or ["enums", "objects"]
    cfg = {"plugins": plugins(*[("objects", plug) if n == "objects" else (n, {"skip_unreferenced": False}) if n in ("enums", "inputs") else n for n in names]),
           "stylers": stylers(*STYLINGS[case["style"]]), "scalar_definitions": {"Date": "datetime.date", **({case["base"]: "str"} if case["key"].split(":")[1] == "scalar" else {})}}
    cfg.update(c)
    return cfg


_stylers = {}


def styled(style, name):
    """class names under which a type may be found: as its stylers name it, or set apart from python's names"""
    if style not in _stylers:
        _stylers[style] = [getattr(importlib.import_module(p.rpartition(".")[0]), p.rpartition(".")[2])() for p in (STYL.get(n, n) for n in STYLINGS[style])]
    for s in _stylers[style]:
        name = s.style_object_name(name)
    return [name, name + "_", name + "__"]


def find(mod, case, name):
    found = [vars(mod)[n] for n in styled(case["style"], name) if n in vars(mod)]
    return next((f for f in found if hasattr(f, "model_fields")), found[-1] if found else None)


def leaf_classes(mod, case, schema, t):
    return {c for o in schema.get_possible_types(t) for c in [find(mod, case, o.name)] if isinstance(c, type)}


def run(case, st):
    def go(mod, schema):
        return judge(case, st, mod, schema)

    out = schema_module(case["sdl"], config(case), go)
    if case.get("mayrefuse") and out and out[0][0] == "generate" and "would both be generated as" in out[0][1]:
        st.outcome(case["group"], "refused")
        return []
    st.outcome(case["group"], bool(out), *sorted({k for k, _ in out}))
    return out


def skipped(case, name):
    plug = case.get("cfg", {}).get("plug", {})
    return name.startswith("__") and plug.get("skip_double_underscore", True) or name.startswith("_") and plug.get("skip_underscore", False)


def judge(case, st, mod, schema):
    st.programs += 1
    out = []
    classes = {}
    for t in schema.type_map.values():
        if not isinstance(t, (GraphQLObjectType, GraphQLInterfaceType)) or t.name.startswith("__"):
            continue
        found = find(mod, case, t.name)
        if skipped(case, t.name):
            if found is not None and isinstance(found, type) and hasattr(found, "model_fields"):
                out.append(("skipped", f"{t.name} is generated although it is configured to be skipped"))
            continue
        if found is None:
            out.append(("missing", f"nothing is generated for {t.name}"))
        elif isinstance(t, GraphQLObjectType):
            if not isinstance(found, type):
                out.append(("missing", f"{t.name} is not a class: {found!r}"))
                continue
            classes[t.name] = found
    for name, cls in classes.items():
        t = schema.type_map[name]
        for i in t.interfaces:
            base = next((vars(mod)[n + "Base"] for n in styled(case["style"], i.name) if n + "Base" in vars(mod)), None)
            st.evals += 1
            if skipped(case, i.name):
                continue
            if base is None or not issubclass(cls, base):
                out.append(("base", f"the class of {name} does not inherit the fields of {i.name}"))
        gone = dropped(case, schema)

        def go(ch):
            m = ObjectMaker(schema, ch)
            return m.object(t), m

        for (wire, m), ch in explore(go, case["dev"], st):
            st.traces += 1
            try:
                obj = cls.model_validate(wire)
                back = dump(obj, exclude_unset=True)
            except ValidationError as e:
                out.append(("reject", f"conforming {name} {wire!r} refused: {str(e)[:300]}"))
                break
            except Exception as e:  # noqa
                out.append(("crash", f"{name} {wire!r}: {type(e).__name__}: {e}"))
                break
            if without(gone, back) != without(gone, tojson(wire)):
                out.append(("lossy", f"{name} {wire!r} read back as {back!r}"))
                break
            if case["group"] == "names" or sum(map(bool, ch.trace)) > 1:
                continue
            abstract = [p for p, kind, *_ in m.slots if kind == "abstract"]
            for p, kind, nullable, ft in m.slots:
                if gone & set(p):
                    continue
                if kind == "abstract" and isinstance(ft, (GraphQLInterfaceType, GraphQLUnionType)):
                    st.evals += 1
                    value = attribute(obj, p)
                    if value is not None and type(value) not in leaf_classes(mod, case, schema, ft):
                        out.append(("type", f"{name}.{p}: {wire!r} is read as {type(value).__name__}"))
                if any(p[: len(a)] == a and p != a for a in abstract):
                    continue
                for what, bad in mutants(wire, p, kind, nullable, ft):
                    st.evals += 1
                    try:
                        cls.model_validate(bad)
                    except ValidationError:
                        continue
                    except Exception as e:  # noqa
                        out.append(("crash", f"{name} {bad!r}: {type(e).__name__}: {e}"))
                        continue
                    out.append(("accept", f"{what}: {name} {bad!r} accepted"))
    return out[:20]


def dropped(case, schema):
    """names of the fields of skipped types (in these schemas no other field has such a name)"""
    if not case.get("cfg", {}).get("plug"):
        return set()
    return {n for u in schema.type_map.values() if hasattr(u, "fields") for n, f in u.fields.items() if skipped(case, get_named_type(getattr(f, "type", f)).name)}


def without(gone, x):
    if isinstance(x, dict):
        return {k: without(gone, w) for k, w in x.items() if k not in gone}
    return [without(gone, w) for w in x] if isinstance(x, list) else x


def attribute(obj, path):
    for p in path:
        if isinstance(p, int):
            obj = obj[p]
        else:
            obj = getattr(obj, next(n for n, f in type(obj).model_fields.items() if (f.alias or n) == p))
    return obj
