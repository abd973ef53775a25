"""C07: one-of inputs and discriminated input unions are sent in their one legal wire form."""
import itertools
import json
import typing

from graphql import GraphQLEnumType, GraphQLInputObjectType, GraphQLList, GraphQLNonNull, GraphQLScalarType
from pydantic import BaseModel, ValidationError

from ..inputs import good, legal, objects
from ..pyd import tojson
from ..roundtrip import operations_of, schema_of, with_module
from ..turmsio import GenFailed, LoadFailed, client_config, generate, loaded
from .c01 import STYLES
from .c06 import class_for, classes

ID = "C07"
LEVEL = "model_checking"
RULE = ("one case = one one-of input (field kinds, names, usage) or one set of discriminated input unions (members, memberships, "
        "discriminator, usage) and configuration; a trace is one legal value: every way to build it in Python (member instance, "
        "wrapper instance, every combination of nested ways, wire data for discriminated unions) is tried, everything the models "
        "accept must serialise (dict, JSON text, nested) to a legal wire form, and at least one way to exactly the given one. "
        "Every illegal declaration must be refused. Outcomes: distinct (value shape) and refusals.")
BOUNDS = {
    "quick": "one-of: all 1- and 2-field sets of 13 field kinds, all 3-field sets of 6, 22 names x 5 stylers, 7 usages; unions: 1-3 members, "
             "all membership assignments to 2 unions, 13 discriminator names x 5 stylers, 3 discriminator field declarations, 7 usages",
    "thorough": "as quick, 3-field sets of all 13 kinds, all names x all kinds",
}
ASSUMPTIONS = ["a one-of whose members are input objects is built from member instances; untagged dictionaries are judged only by the legality of what is sent"]

ONE = "directive @oneOf on INPUT_OBJECT\n"
UNI = "directive @unionElementOf(union: String!, discriminator: String!, key: String!) repeatable on INPUT_OBJECT\n"
HEAD = "scalar Date scalar DateTime scalar JSON enum Color { RED GREEN from None }\n"
AUX = ("input In1 { a: Int! from: String } input In2 { x: Int y: [Color!] } input In3 { r: Root z: String! }\n"
       "input Nest @oneOf { s: String n: Int } input Direct @oneOf { p: In1 q: In2 }\n")
FIELDS = {"int": "Int", "str": "String", "enum": "Color", "ints": "[Int!]", "in1": "In1", "in2": "In2", "in1b": "In1", "in3": "In3", "in1s": "[In1!]",
          "nest": "Nest", "direct": "Direct", "self": "Root", "date": "Date"}
NAMES = ["fooBar", "FooBar", "foo_bar", "from", "class", "None", "type", "x1", "_x", "URL", "copy", "dict", "json", "id", "Root", "In1", "date", "List", "Optional", "Field", "Union", "Literal"]
USE = {"var": "Root!", "opt": "Root", "list": "[Root!]!", "optlist": "[Root]", "nested": "[[Root!]!]", "holder": "Holder!", "holders": "[Holder!]"}
HOLDER = "input Holder { one: Root! opt: Root many: [Root!]! fooBar: [Root] }\n"


def oneof(fields):
    return "input Root @oneOf { " + " ".join(f"{n}: {t}" for n, t in fields) + " }\n"


def case(key, kind, **kw):
    return {"key": key, "kind": kind, **kw}


def cases(tier):
    ks = list(FIELDS)
    three = ks if tier == "thorough" else ["int", "enum", "in1", "in2", "in1b", "nest"]
    sets = [c for n in (1, 2) for c in itertools.combinations(ks, n)] + list(itertools.combinations(three, 3))
    for c in sets:
        for u in ("var", "holder") if len(c) > 1 else USE:
            yield case(f"one:{','.join(c)}:{u}", "one", fields=[(f"f_{k}" if k == "date" else k, FIELDS[k]) for k in c], use=u, style="none")
    for u in USE:
        for c in (("in1", "in2"), ("int", "in1"), ("int",), ("in1",)):
            for style in STYLES:
                for cfg in ({}, {"freeze": {"enabled": True, "convert_list_to_tuple": True}}, {"options": {"enabled": True, "extra": "forbid"}}):
                    yield case(f"use:{u}:{c}:{style}:{sorted(cfg)}", "one", fields=[(k, FIELDS[k]) for k in c], use=u, style=style, cfg=cfg)
    for n in NAMES:
        for style in STYLES:
            for ts in ([["In1", "In2"], ["Int", "In2"], ["[Int!]", "Color"]] if tier == "quick" else [[t, o] for t in FIELDS.values() for o in ("Int", "In2") if t != o]):
                yield case(f"name:{n}:{','.join(ts)}:{style}", "one", fields=[(n, ts[0]), ("other", ts[1])], use="holder", style=style)
    for tname in ("Root_", "root", "_Root", "URLInput", "Class", "class"):
        for style in STYLES:
            for ts in (["In1", "In2"], ["Int", "In2"]):
                yield case(f"tname:{tname}:{','.join(ts)}:{style}", "one", fields=[("a", ts[0]), ("b", ts[1])], use="holder", style=style, tname=tname)
    # two one-of types: their generated helpers must not mix
    for a, b in itertools.permutations(["FooBar", "Foo_Bar", "foo_bar", "FOOBar", "Foobar"], 2):
        yield case(f"twin:{a}:{b}", "twin", names=[a, b])
    for bad in ("a: Int! b: Int", "a: Int = 3 b: Int", "a: In1!", "a: In1 = {a: 1} b: In2", "a: In1 b: In2!", "a: Int = null b: Int"):
        yield case(f"bad:{bad}", "badone", text=bad)
    for extra in ("input RootA { z: Int }", "enum RootA { Z }"):
        yield case(f"clash:{extra}", "clashone", extra=extra)

    for n in (1, 2, 3):
        for mem in itertools.product(("U", "V", "UV"), repeat=n):
            for field in ("none", "enum", "string"):
                for u in ("var", "list", "holder") if n < 3 else ("holder",):
                    yield case(f"uni:{','.join(mem)}:{field}:{u}", "uni", members=[{"in": list(m)} for m in mem], field=field, use=u, disc="kind", style="none")
    for d in ["kind", "type", "fooBar", "FooBar", "foo_bar", "from", "class", "None", "_x", "__typename"[2:], "copy", "json", "id"]:
        for style in STYLES:
            for field in ("none", "enum", "string"):
                yield case(f"disc:{d}:{style}:{field}", "uni", members=[{"in": ["U"]}, {"in": ["U"]}], field=field, use="holder", disc=d, style=style)
    for k in (["A", "B"], ["from", "None"], ["a'b", 'c"d'], ["1", "2"], ["", "x"], ["é", "\\"]):
        yield case(f"keys:{k}", "uni", members=[{"in": ["U"], "key": x} for x in k], field="none", use="holder", disc="kind", style="snake")
    for u in USE:
        for style in STYLES:
            for cfg in ({}, {"freeze": {"enabled": True, "convert_list_to_tuple": True}}, {"options": {"enabled": True, "extra": "forbid"}},
                        {"force_plugin_order": False}, {"skip_forwards": True}):
                for skip in (True, False):
                    yield case(f"uniuse:{u}:{style}:{sorted(cfg)}:{skip}", "uni", members=[{"in": ["U"]}, {"in": ["U"]}], field="enum", use=u, disc="kind", style=style, cfg=cfg, skip=skip)
    yield case("multi-disc", "uni", members=[{"in": ["U", "V"]}, {"in": ["U", "V"]}], field="none", use="holder", disc="kind", disc2="sort", style="none")
    for arg in itertools.product((0, 1), repeat=3):
        if sum(arg) < 3:
            yield case(f"missing:{arg}", "baduni", text="input M1 @unionElementOf(%s) { a: Int }" % ", ".join(
                x for x, on in zip(('union: "U"', 'discriminator: "kind"', 'key: "A"'), arg) if on), loose=True)
    good1 = '@unionElementOf(union: "U", discriminator: "kind", key: "A")'
    for label, text in {
        "disc mismatch": f'input M1 {good1} {{ a: Int }} input M2 @unionElementOf(union: "U", discriminator: "sort", key: "B") {{ a: Int }}',
        "key conflict": f'input M1 {good1} @unionElementOf(union: "V", discriminator: "kind", key: "B") {{ a: Int }}',
        "same key twice": f'input M1 {good1} {{ a: Int }} input M2 {good1} {{ b: Int }}',
    }.items():
        yield case(f"baduni:{label}", "baduni", text=text)


def config(case):
    cfg = case.get("cfg") or {}
    inputs = ("inputs", {"skip_unreferenced": case.get("skip", True), "skip_underscore": False})
    return client_config(["enums", inputs, "fragments", "operations"], style=STYLES[case.get("style", "none")],
                         scalar_definitions={"Date": "datetime.date", "JSON": "typing.Any"}, **cfg)


def run(case, st):
    st.programs += 1
    return globals()["run_" + case["kind"]](case, st)


# ---------------------------------------------------------------- one-of

def run_one(case, st):
    tname = case.get("tname", "Root")
    sub = lambda s: __import__("re").sub(r"\bRoot\b", tname, s)
    sdl = sub(ONE + HEAD + AUX + oneof(case["fields"]) + HOLDER) + "type Query { q(i: %s): Int }" % sub(USE[case["use"]])
    doc = "query Get($i: %s) { q(i: $i) }" % sub(USE[case["use"]])
    return with_module(sdl, doc, config(case), lambda m, s, u: judge_one(m, s, case, st, tname))


def reps(mod, t, wire, ctx):
    """All the Python values that could stand for `wire`: every class that could carry it."""
    if isinstance(t, GraphQLNonNull):
        return reps(mod, t.of_type, wire, ctx)
    if wire is None:
        return [None]
    if isinstance(t, GraphQLList):
        per = [reps(mod, t.of_type, w, ctx) for w in wire]
        return [list(c) for c in itertools.islice(itertools.product(*per), 12)]
    if isinstance(t, GraphQLInputObjectType):
        if t.name in ctx:
            out = []
            (f, v), = wire.items()
            plain = reps(mod, t.fields[f].type, v, ctx)
            for r in plain:
                for c in classes(mod).values():
                    if [x.alias or n for n, x in c.model_fields.items()] == [f]:
                        try:
                            out.append(c(**{f: r}))
                        except ValidationError:
                            pass
            return out + plain + [wire]  # likeliest first
        c = class_for(mod, t)
        if c is None:
            return []
        names = list(wire)
        per = [reps(mod, t.fields[n].type, wire[n], ctx) for n in names]
        out = []
        for combo in itertools.islice(itertools.product(*per), 16):
            try:
                out.append(c(**dict(zip(names, combo))))
            except ValidationError:
                pass
        return out
    if t.name == "Date":
        import datetime
        return [datetime.date.fromisoformat(wire)]
    return [wire]


def dumps_of(o):
    yield "json", o.model_dump(by_alias=True, exclude_unset=True, mode="json")
    yield "text", json.loads(o.model_dump_json(by_alias=True, exclude_unset=True))
    yield "python", tojson(o.model_dump(by_alias=True, exclude_unset=True))
    yield "copy", o.model_copy().model_dump(by_alias=True, exclude_unset=True, mode="json")


def is_oneof(t):
    return isinstance(t, GraphQLInputObjectType) and any(d.name.value == "oneOf" for d in t.ast_node.directives)


def values_of(t, ctx, depth=3):
    """Legal wire values: for every one-of reachable, each of its fields."""
    if isinstance(t, GraphQLNonNull):
        return [v for v in values_of(t.of_type, ctx, depth) if v is not None]
    if isinstance(t, GraphQLList):
        inner = values_of(t.of_type, ctx, depth)
        return [[v] for v in inner] + [inner[:2], []] + [None]
    if isinstance(t, GraphQLInputObjectType) and t.name in ctx:
        if depth <= 0:
            return []
        return [{f: v} for f, d in t.fields.items() for v in values_of(d.type, ctx, depth - 1) if v is not None] + [None]
    if isinstance(t, GraphQLInputObjectType):
        if depth <= 0:
            return [None]
        per = {}
        for n, f in t.fields.items():
            vs = values_of(f.type, ctx, depth - 1)
            if not vs:
                vs = [None]
            per[n] = vs
        base = {n: vs[0] for n, vs in per.items() if isinstance(t.fields[n].type, GraphQLNonNull)}
        if any(v is None for v in base.values()):
            return [None]
        out = [base]
        for n, vs in per.items():
            out += [{**base, n: v} for v in vs if {**base, n: v} not in out]
        return out + [None]
    return good(t, 1, False)


def judge_one(mod, schema, case, st, tname):
    cls = operations_of(mod).get("Get")
    if cls is None:
        return [("missing", "no class for operation Get")]
    ctx = {n for n, t in schema.type_map.items() if is_oneof(t)}
    t = schema.query_type.fields["q"].args["i"].type
    problems = []
    for wire in values_of(t, ctx):
        ok, tried = False, 0
        for r in reps(mod, t, wire, ctx):
            tried += 1
            st.traces += 1
            try:
                o = cls.Arguments(i=r)
            except ValidationError:
                continue
            good_forms = 0
            for how, sent in dumps_of(o):
                st.transitions += 1
                problem = illegal(t, sent.get("i", None), ctx)
                if "i" not in sent or problem:
                    problems.append(("illegal", f"built from {r!r}, {how} sends {sent!r}: {problem}"))
                good_forms += sent == {"i": wire}
            if good_forms == 4:
                ok = True
        st.states += 1
        if not ok:
            problems.append(("unbuildable", f"none of {tried} ways to build {wire!r} is accepted and sent as such"))
        else:
            st.outcome("ok", shape(wire))
        if len(problems) > 3:
            return problems
    # no way to send none or several
    one = schema.type_map[tname]
    singles = [w for w in values_of(one, ctx, 2) if w]
    several = [{**a, **b} for a, b in itertools.combinations(singles, 2) if set(a) != set(b)][:6]
    for w in [{}, {f: None for f in one.fields}] + several + [{"noSuchField": 1}, 5, "text", []]:
        for r in [w] + built(mod, w):
            wr = wrap_at(t, r, tname)
            st.evals += 1
            try:
                o = cls.Arguments(i=wr)
            except ValidationError:
                st.outcome("refused", type(w).__name__)
                continue
            for how, sent in dumps_of(o):
                p = illegal(t, sent.get("i"), ctx)
                if p:
                    problems.append(("illegal", f"{wr!r} is accepted and {how} sends {sent!r}: {p}"))
    # neither can any of the classes of this input be built empty or with several fields
    return problems[:5]


def built(mod, w):
    out = []
    if isinstance(w, dict):
        for c in classes(mod).values():
            if len(c.model_fields) == 1:
                try:
                    out.append(c.model_validate(w))
                except ValidationError:
                    pass
    return out


def wrap_at(t, r, tname):
    """Puts r where the one-of type sits in t."""
    if isinstance(t, GraphQLNonNull):
        return wrap_at(t.of_type, r, tname)
    if isinstance(t, GraphQLList):
        return [wrap_at(t.of_type, r, tname)]
    if t.name == "Holder":
        return {"one": r, "many": []}
    return r


def illegal(t, wire, ctx):
    """Own walk: one-of objects carry exactly one non-null field."""
    if isinstance(t, GraphQLNonNull):
        return "null for a required value" if wire is None else illegal(t.of_type, wire, ctx)
    if wire is None:
        return None
    if isinstance(t, GraphQLList):
        if not isinstance(wire, list):
            return f"{wire!r} for a list"
        return next((p for p in (illegal(t.of_type, w, ctx) for w in wire) if p), None)
    if isinstance(t, GraphQLInputObjectType):
        if not isinstance(wire, dict):
            return f"{wire!r} for {t.name}"
        extra = set(wire) - set(t.fields)
        if extra:
            return f"unknown fields {sorted(extra)} for {t.name}"
        if t.name in ctx and (len(wire) != 1 or None in wire.values()):
            return f"one-of {t.name} with fields {wire!r}"
        for n, f in t.fields.items():
            if n in wire:
                p = illegal(f.type, wire[n], ctx)
                if p:
                    return p
            elif isinstance(f.type, GraphQLNonNull):
                return f"missing {n}"
        return None
    if isinstance(t, (GraphQLScalarType, GraphQLEnumType)):
        return None if legal(t, wire) or t.name in ("Date", "JSON", "DateTime") else f"{wire!r} for {t.name}"


def shape(x):
    if isinstance(x, dict):
        return tuple((k, shape(v)) for k, v in sorted(x.items()))
    if isinstance(x, list):
        return ("L",) + tuple(shape(v) for v in x)
    return None if x is None else type(x).__name__


def run_twin(case, st):
    a, b = case["names"]
    sdl = (ONE + f"input In1 {{ a: Int! }} input In2 {{ x: Int! }} input {a} @oneOf {{ p: In1 q: In2 }} input {b} @oneOf {{ q: In1 p: In2 }}\n"
           f"type Query {{ q(i: {a}, j: {b}): Int }}")
    doc = f"query Get($i: {a}, $j: {b}) {{ q(i: $i, j: $j) }}"

    def judge(mod, schema, user):
        cls = operations_of(mod)["Get"]
        out = []
        i1, i2 = class_for(mod, schema.type_map["In1"])(a=1), class_for(mod, schema.type_map["In2"])(x=2)
        for x, y, want in ((i1, i1, {"i": {"p": {"a": 1}}, "j": {"q": {"a": 1}}}), (i2, i2, {"i": {"q": {"x": 2}}, "j": {"p": {"x": 2}}}),
                           (i1, i2, {"i": {"p": {"a": 1}}, "j": {"p": {"x": 2}}})):
            st.traces += 1
            for how, sent in dumps_of(cls.Arguments(i=x, j=y)):
                st.transitions += 1
                if sent != want:
                    out.append(("mixed", f"{how} sends {sent!r}, not {want!r}"))
        st.outcome("twin")
        return out

    p = with_module(sdl, doc, config({}), judge)
    return p


def run_badone(case, st):
    sdl = ONE + HEAD + AUX + f"input Root @oneOf {{ {case['text']} }}\ntype Query {{ q(i: Root): Int }}"
    return refused(sdl, "query Get($i: Root) { q(i: $i) }", config({}), st)


def run_clashone(case, st):
    """A wrapper class whose name is taken: refused, or still correct."""
    sdl = (ONE + HEAD + AUX + oneof([("a", "Int"), ("b", "In2")]) + case["extra"] + HOLDER.replace("}", " other: RootA }") + "type Query { q(i: Holder!): Int }")
    st.evals += 1
    try:
        generate(sdl, "query Get($i: Holder!) { q(i: $i) }", config({}))
    except GenFailed:
        st.outcome("refused")
        return []
    return with_module(sdl, "query Get($i: Holder!) { q(i: $i) }", config({}), lambda m, s, u: judge_one(m, s, case, st, "Root"))


def refused(sdl, doc, cfg, st):
    st.evals += 1
    try:
        generate(sdl, doc, cfg)
    except GenFailed as e:
        st.outcome("refused", str(e)[:60])
        return []
    return [("accepted", "an inconsistent declaration is generated without an error")]


# ---------------------------------------------------------------- discriminated unions

def uni_sdl(case):
    disc = {"U": case["disc"], "V": case.get("disc2", case["disc"])}
    parts = [UNI, HEAD, "enum Kind { A B C } enum OnlyHere { P Q } input Deep { o: OnlyHere! d: [Deep!] }"]
    keys = []
    for i, m in enumerate(case["members"]):
        key = m.get("key", "ABC"[i])
        keys.append(key)
        dirs = " ".join(f'@unionElementOf(union: "{u}", discriminator: "{disc[u]}", key: {json.dumps(key)})' for u in (m["in"] if isinstance(m["in"], list) else list(m["in"])))
        f = {"none": "", "enum": f"{case['disc']}: Kind! = {'ABC'[i]} ", "string": f"{case['disc']}: String! "}[case["field"]]
        parts.append(f"input M{i} {dirs} {{ {f}a: Int! bazQux: String deep: Deep x{i}: [Int!] }}")
    names = sorted({u for m in case["members"] for u in m["in"]})
    for u in names:
        parts.append(f"input {u} {{ dummy: Int }}")
    u0 = names[0]
    rest = "".join(f" o{u}: {u}" for u in names[1:])
    parts.append(f"input Holder {{ one: {u0}! opt: {u0} many: [{u0}!]! fooBar: [{u0}]{rest} }}")
    parts.append("type Query { q(i: %s): Int }" % USE[case["use"]].replace("Root", u0))
    return "\n".join(parts), u0, names, disc, keys


def run_uni(case, st):
    sdl, u0, names, disc, keys = uni_sdl(case)
    doc = "query Get($i: %s) { q(i: $i) }" % USE[case["use"]].replace("Root", u0)
    cfg = config(case)
    return with_module(sdl, doc, cfg, lambda m, s, u: judge_uni(m, s, case, st, u0, names, disc, keys))


def judge_uni(mod, schema, case, st, u0, names, disc, keys):
    cls = operations_of(mod)["Get"]
    t = schema.query_type.fields["q"].args["i"].type
    problems = []
    gen = classes(mod)

    def member_class(i, need):
        for c in gen.values():
            wires = {f.alias or n for n, f in c.model_fields.items()}
            if f"x{i}" in wires:
                return c
        if need:
            problems.append(("missing", f"no class for member M{i}"))

    targets = []
    for i, m in enumerate(case["members"]):
        ms = m["in"]
        active = ms if case["use"].startswith("holder") or not case.get("skip", True) else [u for u in ms if u == u0]
        for u in ms:
            if u == u0:
                targets.append(("one", u, i))
            elif case["use"].startswith("holder"):
                targets.append(("o" + u, u, i))
    for where, u, i in targets:
        c = member_class(i, True)
        if c is None:
            continue
        active = [x for x in case["members"][i]["in"] if case["use"].startswith("holder") or not case.get("skip", True) or x == u0]
        dfields = {disc[x]: keys[i] for x in active}
        body = [{"a": 1}, {"a": 1, "bazQux": None}, {"a": 2, "bazQux": "s", "deep": {"o": "P", "d": [{"o": "Q"}]}, f"x{i}": [1]}]
        for b in body:
            want = {**b, **dfields}
            ways = {}
            for label, fn in {"kwargs": lambda: c(**b), "dict": lambda: c.model_validate(b), "dict+disc": lambda: c.model_validate(want),
                              "json": lambda: c.model_validate_json(json.dumps(want)), "wire": lambda: dict(want)}.items():
                try:
                    ways[label] = fn()
                except ValidationError as e:
                    problems.append(("reject", f"M{i} by {label} from {b!r}: {str(e)[:200]}"))
            for label, r in ways.items():
                if isinstance(r, BaseModel):
                    for how, sent in dumps_of(r):
                        st.transitions += 1
                        if sent != want:
                            problems.append(("sent", f"M{i} built by {label}: {how} sends {sent!r}, not {want!r}"))
                filler = ways["kwargs"] if "kwargs" in ways else r
                arg, exp = place(t, r, want, where, u0, case, member_class, keys, disc, filler)
                if arg is None:
                    continue
                st.traces += 1
                tries = {"args": lambda: cls.Arguments(i=arg)}
                if label == "wire":
                    tries["parsed"] = lambda: cls.Arguments.model_validate_json(json.dumps({"i": exp}))
                for tl, fn in tries.items():
                    try:
                        o = fn()
                    except ValidationError as e:
                        problems.append(("reject", f"{u} refuses M{i} given by {label}/{tl}: {str(e)[:300]}"))
                        continue
                    for how, sent in dumps_of(o):
                        st.transitions += 1
                        if sent != {"i": exp}:
                            problems.append(("sent", f"{u} with M{i} by {label}/{tl}: {how} sends {sent!r}, not {exp!r}"))
                    st.outcome(where, i, label, shape(b))
            if len(problems) > 3:
                return problems[:5]
        # what must be refused
        wrongs = {"no discriminator": {"a": 1}, "unknown key": {**{"a": 1}, **{d: "NOPE" for d in dfields}}, "missing required": dict(dfields),
                  "wrong type": {**dfields, "a": "text"}, "null discriminator": {"a": 1, **{d: None for d in dfields}}}
        for label, w in wrongs.items():
            arg, exp = place(t, w, w, where, u0, case, member_class, keys, disc, w)
            if arg is None:
                continue
            st.evals += 1
            try:
                o = cls.Arguments(i=arg)
            except ValidationError:
                st.outcome("refused", label)
                continue
            problems.append(("accepted", f"{u}: {label} {w!r} accepted, sends {o.model_dump(by_alias=True, exclude_unset=True, mode='json')!r}"))
        for d in dfields:
            st.evals += 1
            try:
                o = c(**{"a": 1, d: "NOPE"})
                problems.append(("accepted", f"M{i} with another discriminator value accepted: {o!r}"))
            except ValidationError:
                pass
        # a class outside a union is refused in it
        for j, m in enumerate(case["members"]):
            if u not in m["in"]:
                o = member_class(j, False)
                if o is None:
                    continue
                try:
                    inst = o(a=1)
                except ValidationError:
                    continue
                arg, exp = place(t, inst, {}, where, u0, case, member_class, keys, disc, inst)
                st.evals += 1
                try:
                    cls.Arguments(i=arg)
                except ValidationError:
                    continue
                problems.append(("accepted", f"{u} accepts M{j}, which is not its member"))
    if not targets:
        problems.append(("missing", "no targets"))
    return problems[:5]


def place(t, r, want, where, u0, case, member_class, keys, disc, filler):
    """(argument, expected wire) with r at the place `where` of the root type t."""
    if isinstance(t, GraphQLNonNull):
        return place(t.of_type, r, want, where, u0, case, member_class, keys, disc, filler)
    if isinstance(t, GraphQLList):
        a, e = place(t.of_type, r, want, where, u0, case, member_class, keys, disc, filler)
        return ([a], [e]) if a is not None else (None, None)
    if t.name == "Holder":
        if where == "one":
            return {"one": r, "many": [r, r], "fooBar": [None, r]}, {"one": want, "many": [want, want], "fooBar": [None, want]}
        j = next(i for i, m in enumerate(case["members"]) if u0 in m["in"])
        fw = {"a": 9, **{disc[x]: keys[j] for x in case["members"][j]["in"]}}
        return {"one": fw, "many": [], where: r}, {"one": fw, "many": [], where: want}
    return (r, want) if where == "one" else (None, None)


def run_baduni(case, st):
    head = UNI.replace("!", "") if case.get("loose") else UNI
    sdl = head + case["text"] + "\ninput U { d: Int } input V { d: Int } input Holder { u: U v: V }\ntype Query { q(i: Holder): Int }"
    return refused(sdl, "query Get($i: Holder) { q(i: $i) }", config({}), st)
