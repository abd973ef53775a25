"""C06: input objects are sent exactly as given, and refuse what the schema refuses."""
import itertools

from graphql import GraphQLInputObjectType, GraphQLList, GraphQLNonNull, build_schema
from pydantic import BaseModel, ValidationError

from ..inputs import bad, legal, objects
from ..pyd import tojson
from ..roundtrip import schema_of, with_module
from ..turmsio import client_config
from .c01 import STYLES
from .c05 import DEFAULT, NAMES, TYPES, WRAP, default_of

ID = "C06"
LEVEL = "model_checking"
RULE = ("one case = one set of input types and configuration; a trace is one schema-conforming value of the root input type "
        "(every omitted/null/value pattern per field), built through the generated class both from wire data and from "
        "Python objects (keyword arguments with nested models and enum members), dumped as JSON by alias with unset fields excluded: the "
        "dump must be the value given and be legal for the schema. Every listed single-point corruption must be refused. "
        "Outcomes: distinct (value shape) and refusal labels.")
BOUNDS = {
    "quick": "one field: 11 named types x 9 wrappers x default yes/no x 2 stylers; 35 names x 5 stylers x 3 types; all ordered pairs of 12 field "
             "kinds; recursive / mutually recursive / forward declared graphs of 3 types in all definition orders",
    "thorough": "as quick plus all triples of field kinds and all names x all field kinds",
}
ASSUMPTIONS = ["values are wire-typed (no client-side coercion of a single value into a list)",
               "null for a non-null field with a default is not judged (optional on the client by design)"]

HEAD = "scalar Date scalar DateTime scalar JSON enum Color { RED GREEN from None }\ntype Query { q(i: Root): Int }\n"
AUX = "input In { a: Int! n: In from: String fooBar: [Int!] color: Color d: Date b: Boolean! = true }\ninput Small { x: Int y: Int! = 2 }\n"
KINDS = [("Int", None), ("Int!", None), ("Int", "3"), ("Int!", "3"), ("[Int!]!", None), ("[Small!]", None), ("Small!", None), ("Root", None),
         ("Color!", None), ("Color", "RED"), ("Date", None), ("String", "null")]


def root(fields):
    return "input Root { " + " ".join(f"{n}: {t}" + (f" = {d}" if d is not None else "") for n, t, d in fields) + " }\n"


GRAPHS = {  # sets of mutually dependent types; Root is judged
    "self": ["input Root { a: Root b: [Root!] x: Int! }"],
    "mutual": ["input Root { b: B x: Int }", "input B { r: Root c: C! }", "input C { y: Int! r: [Root] }"],
    "forward": ["input Root { b: B! c: [C!]! }", "input B { c: C! }", "input C { e: E! = A z: Int }", "enum E { A B }"],
    "diamond": ["input Root { l: L r: R! }", "input L { d: D! }", "input R { d: [D] }", "input D { v: String! }"],
    "names": ["input Root { from: from_ Class: class! }", "input from_ { class: Int! }", "input class { from: Int }"],
    "doc": ['"a root"\ninput Root { "it is \\"quoted\\"" a: Int! @deprecated_(x: 1) """block\n"text" """ b: String = "d\\"d" from: [Int!] = [1] }'.replace(" @deprecated_(x: 1)", ""),
            'input Old { a: Int @deprecated(reason: "no \'more\'") b: Int }'],
    "deprecated": ['input Root { a: Int @deprecated(reason: "no \'more\' \\"x\\"") fooBar: Int = 3 @deprecated b: Int! x: [Int!] = [1, 2] @deprecated(reason: "") }'],
}


def case(key, sdl, style="none", **cfg):
    return {"key": key, "sdl": sdl, "style": style, "cfg": cfg}


def cases(tier):
    for t in TYPES:
        for w in WRAP:
            full = w.format(t)
            for d in (None, default_of(full)):
                for style in ("none", "snake"):
                    yield case(f"type:{full}:{d}:{style}", HEAD + AUX + root([("fooBar", full, d)]), style)
    for n in NAMES + ["Root", "root", "date", "Color", "model_config", "model_fields", "Small", "small", "__x"[1:], "value", "name"]:
        for style in STYLES:
            for t, d in (("Int!", None), ("String", None), ("Small", None)) if tier == "quick" else KINDS:
                yield case(f"name:{n}:{t}:{d}:{style}", HEAD + AUX + root([(n, t, d), ("other", "Int", None)]), style)
    for a, b in itertools.product(KINDS, repeat=2):
        yield case(f"pair:{a}:{b}", HEAD + AUX + root([("fooBar", *a), ("class", *b)]), "snake")
    for g, defs in GRAPHS.items():
        for i, perm in enumerate(itertools.permutations(defs)):
            for style in ("none", "snake", "append", "capsnake"):
                for cfg in ({}, {"document_field_metadata": False}, {"freeze": {"enabled": True}}):
                    yield case(f"graph:{g}:{i}:{style}:{sorted(cfg)}", HEAD + "\n".join(perm), style, **cfg)
    for cfg in ({"freeze": {"enabled": True, "convert_list_to_tuple": True}}, {"options": {"enabled": True, "extra": "forbid"}},
                {"options": {"enabled": True, "use_enum_values": True}}, {"options": {"enabled": True, "validate_assignment": True}},
                {"options": {"enabled": True, "allow_population_by_field_name": True}}, {"skip_forwards": True}, {"force_plugin_order": False}):
        for t in ("Int", "[Small!]!", "[[Color!]!]", "In", "Date"):
            yield case(f"cfg:{sorted(cfg.items())}:{t}", HEAD + AUX + root([("fooBar", t, None), ("from", "Int!", None)]), "snake", **cfg)
    if tier == "thorough":
        for c in itertools.product(KINDS, repeat=3):
            yield case(f"triple:{c}", HEAD + AUX + root([("fooBar", *c[0]), ("class", *c[1]), ("x", *c[2])]), "snake")


def run(case, st):
    cfg = client_config(["enums", "inputs"], style=STYLES[case["style"]],
                        scalar_definitions={"Date": "datetime.date", "JSON": "typing.Any"}, **case["cfg"])
    cfg.update(case["cfg"])
    st.programs += 1
    return with_module(case["sdl"], "query Get($i: Root) { q(i: $i) }", cfg, lambda m, s, u: judge(m, s, case, st))


def classes(mod):
    return {k: v for k, v in vars(mod).items() if isinstance(v, type) and issubclass(v, BaseModel) and v is not BaseModel}


def class_for(mod, t):
    """The generated class of an input type: the one with that type's wire fields and (styled) name."""
    want = set(t.fields)
    fits = [v for k, v in classes(mod).items() if {f.alias or n for n, f in v.model_fields.items()} == want]
    named = [v for v in fits if v.__name__.lower().rstrip("_") in (t.name.lower(), t.name.lower() + "input", t.name.lower().rstrip("_"))]
    return (named or fits or [None])[0]


def pythonic(mod, t, wire):
    """The same value as Python objects: nested model instances, enum members."""
    if wire is None:
        return None
    if isinstance(t, GraphQLNonNull):
        return pythonic(mod, t.of_type, wire)
    if isinstance(t, GraphQLList):
        return [pythonic(mod, t.of_type, x) for x in wire]
    if isinstance(t, GraphQLInputObjectType):
        return class_for(mod, t)(**{k: pythonic(mod, t.fields[k].type, v) for k, v in wire.items()})
    if t.name == "Date":
        import datetime
        return datetime.date.fromisoformat(wire)
    return wire


def sent_of(obj):
    return obj.model_dump(by_alias=True, exclude_unset=True, mode="json")


def judge(mod, schema, case, st):
    t = schema.type_map["Root"]
    cls = class_for(mod, t)
    if cls is None:
        return [("missing", f"no class with the fields {list(t.fields)}: {[(k, list(v.model_fields)) for k, v in classes(mod).items()]}")]
    problems = []
    vals = [o for o in objects(t, 2) if legal(t, o)]
    st.states += 1 + len(vals)
    for wire in vals:
        for how in ("wire", "python"):
            st.transitions += 1
            st.traces += 1
            try:
                obj = cls.model_validate(wire) if how == "wire" else pythonic(mod, t, wire)
            except Exception as e:
                problems.append(("reject", f"{how}: legal input {wire!r} refused: {str(e)[:300]}"))
                continue
            sent = sent_of(obj)
            if sent != tojson(wire):
                problems.append(("wire", f"{how}: given {wire!r}, sent {sent!r}"))
            elif not legal(t, sent):
                problems.append(("illegal", f"{how}: sent {sent!r}, which the schema refuses"))
            st.outcome(tuple(sorted((k, type(v).__name__) for k, v in wire.items())))
        if len(problems) > 3:
            return problems
    for label, b in bad(t):
        st.evals += 1
        try:
            obj = cls.model_validate(b)
        except ValidationError:
            st.outcome("refused", label)
            continue
        problems.append(("accept", f"{label}: {b!r} accepted as {sent_of(obj)!r}"))
    return problems[:4]
