"""C12: enums round-trip every declared value and nothing else."""
import enum
import itertools
import json

from graphql import EnumTypeDefinitionNode, parse
from pydantic import BaseModel, ValidationError

from ..pyd import dump
from ..roundtrip import operations_of
from ..turmsio import GenFailed, LoadFailed, client_config, generate, loaded
from .c01 import STYLES

ID = "C12"
LEVEL = "model_checking"
RULE = ("one case = one or two enum types (value names x type names x stylers x model options x plugins) used in results, variables, "
        "input fields and object models; a trace is one value in one position: a declared one must come in, compare equal to the "
        "member of that value and go out as exactly that text, whether given as text or as the member; an undeclared one (other "
        "case, escaped spelling, member of the other enum, number, padded) must be refused in every position. Outcomes: distinct "
        "(position, verdict).")
BOUNDS = {
    "quick": "every one of 52 value names x 5 stylers, every ordered pair of 16 risky value names; 34 type names x 5 stylers; 20 pairs of "
             "type names x 5 stylers; 6 option sets x 4 plugin sets; the two introspection enums; all positions x all values per case",
    "thorough": "as quick, with every pair of the 52 value names, every pair of type names and every triple of the risky names",
}

VALUES = ["from", "None", "True", "False", "class", "async", "await", "match", "type", "print", "self", "name", "value", "names", "mro", "_", "_a", "_a_", "a_", "_missing_",
          "_ignore_", "_order_", "_value_", "_name_", "title", "lower", "upper", "encode", "format", "count", "index", "join", "split", "strip", "str", "int", "object", "Enum", "E",
          "_E__x", "A", "a", "AB", "ab", "a_b", "aB", "x1", "NULL", "null_", "id", "ID", "members", "model_dump", "auto", "nonlocal", "member", "property"]
RISKY = ["from", "from_", "from__", "None", "none", "None_", "NONE", "_a_", "_a__", "mro", "mro_", "MRO", "name", "value", "title", "Title"]
TYPES = ["E", "color", "Color", "COLOR", "_E", "E_", "None", "True", "class", "from", "str", "Enum", "enum", "int", "bool", "list", "List", "Optional", "Literal", "Field", "BaseModel",
         "ConfigDict", "Any", "Annotated", "Union", "Type", "type", "fooBar", "foo_bar", "FooBar", "In", "Out", "Arguments", "Meta", "dict", "tuple", "date", "I", "object", "property"]
PAIRS = [("color", "Color"), ("COLOR", "color"), ("fooBar", "foo_bar"), ("fooBar", "FooBar"), ("from", "from_"), ("None", "None_"), ("str", "str_"), ("Enum", "Enum_"), ("_E", "E"), ("E_", "E")]
OPTS = {"plain": {}, "values": {"options": {"enabled": True, "use_enum_values": True, "types": ["input", "fragment", "object", "query", "mutation", "subscription"]}},
        "assign": {"options": {"enabled": True, "validate_assignment": True, "types": ["input", "fragment", "object", "query", "mutation", "subscription"]}},
        "forbid": {"options": {"enabled": True, "extra": "forbid", "types": ["input", "fragment", "object", "query", "mutation", "subscription"]}},
        "freeze": {"freeze": {"enabled": True, "types": ["input", "fragment", "object", "query", "mutation", "subscription"]}}, "skip": {"skip_forwards": True}}
PLUGS = {"client": ["enums", "inputs", "fragments", "operations"], "all": [("enums", {"skip_unreferenced": False}), "inputs", "objects", "fragments", "operations", "funcs"],
         "objects": ["enums", "objects"], "noskip": [("enums", {"skip_unreferenced": False}), ("inputs", {"skip_unreferenced": False}), "fragments", "operations"],
         "factory": ["enums", "inputs", "input_funcs", "fragments", "operations", "funcs"]}


def case(key, enums, style="none", opts="plain", plugs="client", notes=False):
    return {"key": key, "enums": enums, "style": style, "opts": opts, "plugs": plugs, "notes": notes}


def cases(tier):
    thorough = tier == "thorough"
    for v, s in itertools.product(VALUES, STYLES):
        yield case(f"value:{v}:{s}", {"E": [v, "Other"]}, s)
    for a, b in itertools.permutations(RISKY, 2):
        yield case(f"values:{a}:{b}", {"E": [a, b]})
    if thorough:
        for a, b in itertools.combinations(VALUES, 2):
            if not (a in RISKY and b in RISKY):
                yield case(f"values:{a}:{b}", {"E": [a, b]})
        for t in itertools.combinations(RISKY, 3):
            yield case(f"values3:{t}", {"E": list(t)})
    for t, s in itertools.product(TYPES, STYLES):
        for p in ("client", "all"):
            yield case(f"type:{t}:{s}:{p}", {t: ["RED", "from", "green"]}, s, plugs=p)
    pairs = [(a, b) for a, b in itertools.permutations(TYPES, 2)] if thorough else []
    for (a, b), s in itertools.product(list(dict.fromkeys(PAIRS + [(b, a) for a, b in PAIRS] + pairs)), STYLES):
        yield case(f"types:{a}:{b}:{s}", {a: ["RED", "from"], b: ["red", "From", "RED"]}, s)
    for o, p in itertools.product(OPTS, PLUGS):
        for s in ("none", "snake"):
            yield case(f"opts:{o}:{p}:{s}", {"Color": ["RED", "from", "_a_"], "mood": ["from", "happy"]}, s, o, p, True)
    yield {"key": "introspection", "introspection": True}
    for o in OPTS:
        yield {"key": f"introspection:{o}", "introspection": True, "opts": o}


def text(enums, notes):
    def values(vs):
        if not notes:
            return " ".join(vs)
        return " ".join(f'"about {v}" {v}' + (' @deprecated(reason: "old")' if i == 1 else " @deprecated" if i == 2 else "") for i, v in enumerate(vs))

    out, q, outs, ops = [], [], [], []
    for i, (t, vs) in enumerate(enums.items()):
        d = vs[0]
        out.append(('"""the type"""\n' if notes else "") + f"enum {t} {{ {values(vs)} }}")
        out.append(f"input Put{i} {{ must: {t}! opt: {t} items: [{t}!] grid: [[{t}]!] dflt: {t} = {d} sure: {t}! = {d} more: [{t}!]! = [{d}] deep: Put{i} }}")
        out.append(f"type Thing{i} {{ must: {t}! opt: {t} items: [{t}!]! grid: [[{t}]!] deep: Thing{i} }}")
        q.append(f"take{i}(a: {t}!, b: {t} = {d}, c: [{t}!], d: [[{t}]!], i: Put{i}, j: {t} = {d}): {t} get{i}: Thing{i}! must{i}: {t}! items{i}: [{t}!]!")
        ops.append(f"query Get{i} {{ get{i} {{ must opt items grid deep {{ ...Frag{i} }} }} must{i} items{i} }}\nfragment Frag{i} on Thing{i} {{ must opt }}")
        ops.append(f"query Send{i}($a: {t}!, $b: {t} = {d}, $c: [{t}!], $d: [[{t}]!], $i: Put{i}, $j: {t}) {{ take{i}(a: $a, b: $b, c: $c, d: $d, i: $i, j: $j) }}")
    out.append("type Query { " + " ".join(q) + " }")
    return "\n".join(out), "\n".join(ops)


def run(case, st):
    if case.get("introspection"):
        return run_introspection(case, st)
    sdl, docs = text(case["enums"], case["notes"])
    cfg = client_config(PLUGS[case["plugs"]], STYLES[case["style"]], **OPTS[case["opts"]])
    st.programs += 1
    try:
        code = generate(sdl, None if case["plugs"] == "objects" else docs, cfg)
    except GenFailed as e:
        if len(case["enums"]) == 2 and len({t.replace("_", "").lower() for t in case["enums"]}) == 1 and all(t in str(e) for t in case["enums"]):
            st.outcome("refused to give two types one name")
            return []
        return [("generate", f"generation failed: {str(e)[:300]}")]
    try:
        with loaded(code) as mod:
            return list(itertools.islice(judge(case, mod, st), 4))
    except LoadFailed as e:
        return [("load", f"module does not import: {e}")]


def judge(case, mod, st):
    classes = [c for c in vars(mod).values() if isinstance(c, type) and issubclass(c, enum.Enum) and c.__module__ == mod.__name__]
    if len(set(classes)) != len(case["enums"]):
        yield "classes", f"{len(set(classes))} enum classes for {list(case['enums'])}: {classes}"
        return
    ops = operations_of(mod)
    for i, (t, vs) in enumerate(case["enums"].items()):
        mine = [c for c in classes if sorted(str(m.value) for m in c) == sorted(vs)]
        if len(mine) != 1 or len(mine[0].__members__) != len(vs):
            yield "members", f"no enum class has exactly the values {vs} of {t}: {[[m.value for m in c] for c in classes]}"
            continue
        E = mine[0]
        others = [c for c in classes if c is not E]
        for v in vs:
            st.states += 1
            m = E(v)
            if type(m.value) is not str or m.value != v or m != v or json.dumps(m) != json.dumps(v):
                yield "member", f"{t}.{v}: member {m!r} is not exactly the text"
        outside = [x for x in dict.fromkeys([*(v.lower() for v in vs), *(v.upper() for v in vs), *(v.title() for v in vs), *(v + "_" for v in vs), *(v.strip("_") for v in vs),
                                             *(m.name for m in E), *(str(m) for m in E), *(f"{v} " for v in vs), *(v for o in others for v in [m.value for m in o]),
                                             "", "null", "mro", "__class__", "NOPE"]) if x not in vs]
        bad = [*outside, 0, 1, True, 1.5, [vs[0]], {"value": vs[0]}, *(m for o in others for m in o if m.value not in vs)]
        if case["plugs"] in ("objects", "all"):
            yield from objects(mod, E, vs, bad, i, st)
        if case["plugs"] != "objects":
            if f"Get{i}" not in ops or f"Send{i}" not in ops:
                yield "missing", f"operations {list(ops)}"
                continue
            yield from results(ops[f"Get{i}"], E, vs, bad, i, st)
            yield from arguments(ops[f"Send{i}"].Arguments, E, vs, bad, st)


def leaves(model, data):
    """The values of a read model that correspond to the enum texts of the data, in order."""
    if isinstance(model, BaseModel):
        by = {f.alias or n: n for n, f in type(model).model_fields.items()}
        for k, x in data.items():
            if k in by:
                yield from leaves(getattr(model, by[k]), x)
    elif isinstance(data, list):
        for m, x in zip(model, data):
            yield from leaves(m, x)
    elif isinstance(data, str):
        yield model, data


def read(cls, datas, bads, E, st, what, kind):
    for pos, data in datas:
        st.traces += 1
        st.transitions += 1
        try:
            obj = cls.model_validate(data)
        except ValidationError as e:
            yield "reject", f"{what}: {data!r} refused: {str(e)[:300]}"
            continue
        want = json.loads(json.dumps(data, default=lambda m: m.value))
        got = dump(obj) if kind == "result" else dump(obj, exclude_unset=True)
        if got != want:
            yield "lossy", f"{what}: {data!r} became {got!r}"
        for m, x in leaves(obj, want):
            if m != x or (isinstance(m, enum.Enum) and m is not E(x)):
                yield "value", f"{what}: {x!r} became {m!r}"
        st.outcome(what, pos, "ok")
    for pos, data in bads:
        st.traces += 1
        st.transitions += 1
        try:
            obj = cls.model_validate(data)
        except ValidationError:
            st.outcome(what, pos, "refused")
            continue
        yield "accept", f"{what}: undeclared value accepted: {data!r} as {dump(obj)!r}"


def thing(v, w, typed, i):
    name = {} if typed else {"__typename": f"Thing{i}"}
    return {**name, "must": v, "opt": w, "items": [v, w, v], "grid": [[w, None], []], "deep": {**name, "must": w, "opt": None, **({"items": [], "grid": None, "deep": None} if typed else {})}}


def at(base, path, x):
    if not path:
        return x
    out = dict(base) if isinstance(base, dict) else list(base)
    out[path[0]] = at(base[path[0]], path[1:], x)
    return out


THING = [("must",), ("opt",), ("items", 1), ("grid", 0, 0), ("deep", "must"), ("deep", "opt")]


def results(cls, E, vs, bad, i, st):
    def whole(v, w):
        return {f"get{i}": thing(v, w, False, i), f"must{i}": v, f"items{i}": [w, v]}

    good = [("all", whole(v, w)) for v in vs for w in vs]
    base = whole(vs[0], vs[0])
    paths = [(f"get{i}", *p) for p in THING] + [(f"must{i}",), (f"items{i}", 0)]
    yield from read(cls, good, [(p, at(base, p, x)) for p in paths for x in bad], E, st, "result", "result")


def objects(mod, E, vs, bad, i, st):
    found = [c for n, c in vars(mod).items() if isinstance(c, type) and issubclass(c, BaseModel) and c.__name__ == f"Thing{i}" or n == f"Thing{i}"]
    if not found:
        yield "missing", f"no object model Thing{i}"
        return
    base = thing(vs[0], vs[0], True, i)
    yield from read(found[0], [("all", thing(v, w, True, i)) for v in vs for w in vs], [(p, at(base, p, x)) for p in THING for x in bad], E, st, "object", "result")


PUT = {"must": 0, "opt": 0, "items": [0], "grid": [[0]], "dflt": 0, "sure": 0, "more": [0], "deep": {"must": 0}}
SEND = {"a": 0, "b": 0, "c": [0], "d": [[0]], "i": PUT, "j": 0}
SPOTS = [("a",), ("b",), ("c", 0), ("d", 0, 0), ("j",), ("i", "must"), ("i", "opt"), ("i", "items", 0), ("i", "grid", 0, 0), ("i", "dflt"), ("i", "sure"), ("i", "more", 0), ("i", "deep", "must")]


def fill(x, v):
    return {k: fill(y, v) for k, y in x.items()} if isinstance(x, dict) else [fill(y, v) for y in x] if isinstance(x, list) else v


def arguments(cls, E, vs, bad, st):
    good = [("text", fill(SEND, v)) for v in vs] + [("member", fill(SEND, E(v))) for v in vs]
    base = fill(SEND, vs[0])
    good += [(p, at(base, p, x)) for p in SPOTS for v in vs for x in (v, E(v))]
    good += [(p, at(base, p, None)) for p in (("j",), ("i", "opt"), ("c",), ("d",), ("d", 0, 0), ("i",), ("i", "deep"))]
    yield from read(cls, good, [(p, at(base, p, x)) for p in SPOTS for x in bad], E, st, "variable", "input")


KINDS = ["SCALAR", "OBJECT", "INTERFACE", "UNION", "ENUM", "INPUT_OBJECT", "LIST", "NON_NULL"]
PLACES = ["QUERY", "MUTATION", "SUBSCRIPTION", "FIELD", "FRAGMENT_DEFINITION", "FRAGMENT_SPREAD", "INLINE_FRAGMENT", "VARIABLE_DEFINITION", "SCHEMA", "SCALAR", "OBJECT", "FIELD_DEFINITION",
          "ARGUMENT_DEFINITION", "INTERFACE", "UNION", "ENUM", "ENUM_VALUE", "INPUT_OBJECT", "INPUT_FIELD_DEFINITION"]


def run_introspection(case, st):
    st.programs += 1
    docs = "query Look { __schema { types { kind name } directives { name locations } } __type(name: \"Query\") { kind ofType { kind } } }"
    cfg = client_config(["enums", "inputs", "fragments", "operations"], **OPTS[case.get("opts", "plain")])
    problems = []
    try:
        code = generate("type Query { a: Int }", docs, cfg)
        with loaded(code) as mod:
            cls = operations_of(mod)["Look"]
            E = None

            def data(k, p):
                ty = {"__typename": "__Type", "kind": k}
                return {"__schema": {"__typename": "__Schema", "types": [{**ty, "name": "x"}], "directives": [{"__typename": "__Directive", "name": "d", "locations": [p]}]},
                        "__type": {**ty, "ofType": ty}}

            for k, p in itertools.product(KINDS, PLACES):
                st.states += 1
                st.traces += 1
                st.transitions += 1
                try:
                    got = dump(cls.model_validate(data(k, p)))
                except ValidationError as e:
                    problems.append(("reject", f"introspection result with {k}, {p} refused: {str(e)[:200]}"))
                    continue
                st.outcome(k)
                if got != data(k, p):
                    problems.append(("lossy", f"{data(k, p)} became {got}"))
            for k, p in (("NOPE", "QUERY"), ("SCALAR", "nope"), ("scalar", "QUERY"), ("QUERY", "QUERY"), ("SCALAR", "LIST")):
                try:
                    cls.model_validate(data(k, p))
                    problems.append(("accept", f"introspection result with {k}, {p} accepted"))
                except ValidationError:
                    st.outcome("refused")
    except (GenFailed, LoadFailed) as e:
        problems.append(("generate", str(e)[:300]))
    return problems[:3]
