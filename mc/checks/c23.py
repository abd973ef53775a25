"""C23: scalars map to the configured Python types in every position, or generation fails naming the scalar."""
import datetime
import inspect
import itertools
import json
import re
import typing
import uuid
from decimal import Decimal

from pydantic import BaseModel

from .. import types_a, types_b
from ..turmsio import GenFailed, LoadFailed, generate, loaded, plugins, stylers

ID = "C23"
LEVEL = "model_checking"
RULE = ("one case = one mapping of the scalars with one styling and plugin set; a state is one mapping; an evaluation is one position (field of a result, fragment, input or object, variable, function parameter, under every wrapper) whose annotation "
        "is compared with the mapped type; a trace is one value parsed from and dumped to its wire form through the generated classes. Outcomes: (type, position kind) and refusals.")
BOUNDS = {
    "quick": "all pairs of 30 types for two scalars, every type for each of 7 built-in scalars, all mappings missing one of them in each of 14 positions, 3 plugin sets, 3 stylings, coercible scalars (global and per plugin) for every type",
    "thorough": "all pairs with all plugin sets and stylings; all triples of 12 types for three scalars",
}
ASSUMPTIONS = ["the server skeleton defines its scalars itself and is not judged here (C17)", "types are told apart by identity after importing the generated module", "the wire form of a value is the one pydantic gives for the type"]
CASE_TIMEOUT = 300

A, B = "mc.types_a.", "mc.types_b."
STD = {"str": str, "int": int, "float": float, "bool": bool, "dict": dict, "list": list, "datetime.datetime": datetime.datetime, "datetime.date": datetime.date, "uuid.UUID": uuid.UUID, "decimal.Decimal": Decimal, "typing.Any": typing.Any, "typing.Dict": dict, "builtins.str": str}
NAMED = [A + n for n in ("Slug", "Color", "In", "A", "F", "T", "Field", "Enum", "BaseModel", "Optional", "List", "Union", "datetime", "Arguments", "One", "a", "Slug_", "UNSET")] + [B + "Slug", B + "Color", B + "Optional"]
TYPES = [t for t in STD if t not in ("typing.Dict", "builtins.str", "list")] + NAMED
DEFAULTS = {"ID": str, "String": str, "Int": int, "Float": float, "Boolean": bool, "DateTime": datetime.datetime}
VALUES = {str: ("x", "x"), int: (3, 3), float: (1.5, 1.5), bool: (True, True), dict: ({"k": 1}, {"k": 1}), list: ([1], [1]), datetime.datetime: ("2020-01-02T03:04:05Z", datetime.datetime(2020, 1, 2, 3, 4, 5, tzinfo=datetime.timezone.utc)), datetime.date: ("2020-01-02", datetime.date(2020, 1, 2)),
          uuid.UUID: ("12345678-1234-5678-1234-567812345678", uuid.UUID("12345678-1234-5678-1234-567812345678")), Decimal: ("1.50", Decimal("1.50")), typing.Any: ({"any": [1]}, {"any": [1]})}

SCALARS = ["One", "Two"]
BUILTIN = ["ID", "String", "Int", "Float", "Boolean", "DateTime"]
USED = SCALARS + BUILTIN
low = str.lower


def fields(kind):
    """every scalar under every wrapper; the names say which scalar it is"""
    w = {"": "{}", "Nn": "{}!", "List": "[{}!]", "Matrix": "[[{}]!]!"}
    return " ".join(f"{low(s)}{k}: {t.format(s)}" for s in USED for k, t in w.items() if kind != "args" or k != "Matrix")


SDL = f"""
scalar One
scalar Two
scalar DateTime
enum Color {{ RED }}
type Query {{ t: T n: Node u: U [ARGS] }}
interface Node {{ {fields('')} }}
type T implements Node {{ {fields('')} color: Color t: T }}
type O implements Node {{ {fields('')} }}
union U = T | O
input In {{ {fields('')} color: Color }}
input Small {{ one: One twoList: [Two!] }}
""".replace("[ARGS]", "q(" + fields("args").replace("!]", "#").replace("!", "").replace("#", "!]") + ", i: In, s: Small): Int")
SEL = " ".join(f"{low(s)}{k}" for s in USED for k in ("", "Nn", "List", "Matrix"))
VARS = " ".join(f"${low(s)}{k}: {t.format(s)}" for s in USED for k, t in {"": "{}", "Nn": "{}!", "List": "[{}!]"}.items())
PASS = " ".join(f"{low(s)}{k}: ${low(s)}{k}" for s in USED for k in ("", "Nn", "List"))
DOC = f"""query A({VARS} $i: In $s: Small) {{ q({PASS} i: $i s: $s) t {{ ...F t {{ {SEL} color }} }} n {{ __typename ... on T {{ {SEL} }} ... on O {{ {SEL} }} }} u {{ ... on T {{ {SEL} }} ... on O {{ one }} }} }}
fragment F on T {{ {SEL} }}"""

CLIENT = (("enums", {"skip_unreferenced": False}), ("inputs", {"skip_unreferenced": False}), "fragments", "operations")
FUNCS = ("funcs", {"definitions": [{"type": "query", "use": "mc.proxies.query"}, {"type": "query", "use": "mc.proxies.aquery", "is_async": True}], "prepend_sync": "do_", "prepend_async": "ado_"})
SETS = {"client": CLIENT, "funcs": CLIENT + (FUNCS, ("input_funcs", {})), "objects": (("enums", {"skip_unreferenced": False}), ("inputs", {"skip_unreferenced": False}), "objects")}
STYLES = {"plain": (), "snake": ("capitalize", "snake"), "append": ("appender",)}


def cases(tier):
    deep = tier == "thorough"
    for a, b in itertools.product(TYPES, repeat=2):
        for p, s in itertools.product(SETS, STYLES) if deep else [(("client", "funcs", "objects")[(TYPES.index(a) + TYPES.index(b)) % 3], ("plain", "snake", "append")[TYPES.index(a) % 3])]:
            yield {"key": f"pair:{a}:{b}:{p}:{s}", "map": {"One": a, "Two": b}, "set": p, "style": s}
    for b in BUILTIN:
        for t in TYPES + ["typing.Dict", "builtins.str"]:
            for p in SETS:
                yield {"key": f"builtin:{b}:{t}:{p}", "map": {"One": "str", "Two": "int", b: t}, "set": p, "style": "snake"}
    for p in SETS:
        for s in STYLES:
            yield {"key": f"same:{p}:{s}", "map": {"One": A + "Slug", "Two": A + "Slug"}, "set": p, "style": s}
            yield {"key": f"unused:{p}:{s}", "map": {"One": "str", "Two": "int", "Nothing": "nowhere.at.All", "Json": A + "T"}, "set": p, "style": s}
    for t in TYPES:
        for where in ("global", "funcs", "input_funcs", "both"):
            for scalar in ("One", "ID"):
                yield {"key": f"coercible:{t}:{where}:{scalar}", "map": {"One": "uuid.UUID", "Two": "int"}, "set": "funcs", "style": "snake", "coerce": [scalar, t, where]}
    for missing in ("One", "Two"):
        for pos in POSITIONS:
            yield {"key": f"missing:{missing}:{pos}", "missing": [missing, pos]}
    if deep:
        some = [A + n for n in ("Slug", "Color", "T", "Optional", "datetime", "Enum")] + [B + n for n in ("Slug", "Color")] + ["str", "datetime.datetime", "datetime.date", "typing.Any"]
        for a, b, c in itertools.product(some, repeat=3):
            yield {"key": f"triple:{a}:{b}:{c}", "map": {"One": a, "Two": b, "ID": c}, "set": "funcs", "style": "snake"}


def resolve(path):
    if path in STD:
        return STD[path]
    m, n = path.rsplit(".", 1)
    return getattr({"mc.types_a": types_a, "mc.types_b": types_b}[m], n)


def expected_types(mapping):
    return {**DEFAULTS, **{k: resolve(v) for k, v in mapping.items() if k in USED}}


def leaves(a):
    """the types at the ends of an annotation"""
    o, args = typing.get_origin(a), typing.get_args(a)
    if o is typing.Annotated:
        return leaves(args[0])
    if o is dict:
        return {dict}
    if o is list and not args:
        return {list}
    if o in (typing.Union, list, tuple, typing.Iterable) or getattr(o, "__name__", "") in ("UnionType", "Iterable", "Sequence"):
        return set().union(*(leaves(x) for x in args if x is not type(None) and x is not Ellipsis))
    if a is typing.Dict:
        return {dict}
    return {a}


def scalar_of(alias):
    for s in sorted(USED, key=len, reverse=True):
        if alias in (low(s), low(s) + "Nn", low(s) + "List", low(s) + "Matrix"):
            return s, alias[len(s):]


def classes(mod):
    """(class, where) of every generated model"""
    seen, todo = {}, [v for v in vars(mod).values() if inspect.isclass(v) and v.__module__ == mod.__name__]
    while todo:
        c = todo.pop()
        if c in seen:
            continue
        seen[c] = c.__qualname__
        todo += [v for v in vars(c).values() if inspect.isclass(v) and v.__module__ == mod.__name__]
    return [(c, n) for c, n in seen.items() if issubclass(c, BaseModel)]


def wire(raw, k):
    return {"": raw, "Nn": raw, "List": [raw, raw], "Matrix": [[raw, None], []]}[k]


def run(case, st):
    if "missing" in case:
        return missing(case, st)
    out = []
    st.states += 1
    mapping = case["map"]
    config = {"plugins": plugins(*SETS[case["set"]]), "stylers": stylers(*STYLES[case["style"]]), "scalar_definitions": mapping}
    coerced = {}
    if case.get("coerce"):
        scalar, t, where = case["coerce"]
        if where in ("global", "both"):
            config["coercible_scalars"] = {scalar: t}
            coerced = {"funcs": t, "input_funcs": t}
        for p in config["plugins"]:
            n = p["type"].split(".")[-2]
            if n == where:
                p["coercible_scalars"] = {scalar: t}
                coerced[n] = t
            elif where == "both" and n in ("funcs", "input_funcs"):
                p["coercible_scalars"] = {scalar: A + "Slug"}
                coerced[n] = A + "Slug"
    try:
        code = generate(SDL, DOC, config)
    except GenFailed as e:
        return [("refused", f"{mapping}: {str(e)[:300]}")]
    types = expected_types(mapping)
    try:
        with loaded(code) as mod:
            check(case, st, mod, types, coerced, out)
    except LoadFailed as e:
        out.append(("import", f"{mapping} {case.get('coerce', '')}: {str(e)[:300]}"))
    return out


def check(case, st, mod, types, coerced, out):
    counts = {}
    for cls, where in classes(mod):
        hits = {}
        for name, f in cls.model_fields.items():
            alias = f.alias or f.serialization_alias or name
            s = scalar_of(alias)
            if s is None:
                continue
            st.evals += 1
            counts[where.split(".")[0]] = counts.get(where.split(".")[0], 0) + 1
            got = {x for x in leaves(f.annotation) if getattr(x, "__name__", "") != "UnsetType"}
            if got != {types[s[0]]}:
                out.append(("type", f"{where}.{name}: a {s[0]} is annotated with {sorted(map(str, got))} instead of {types[s[0]]}"))
            hits[alias] = s
            st.outcome(str(types[s[0]])[:40], "model")
        if not hits or len(out) > 6:
            continue
        # one value of each type, in its wire form and back
        data = {}
        for name, f in cls.model_fields.items():
            alias = f.alias or f.serialization_alias or name
            if alias in hits:
                t = types[hits[alias][0]]
                raw, value = VALUES.get(t, ("m", None))
                data[alias] = (wire(raw, hits[alias][1]), wire(value if value is not None else t("m"), hits[alias][1]))
        full = {k: v[0] for k, v in data.items()}
        if any(f.alias == "__typename" for f in cls.model_fields.values()):
            tn = next(n for n, f in cls.model_fields.items() if f.alias == "__typename")
            full["__typename"] = typing.get_args(cls.model_fields[tn].annotation)[0] if typing.get_args(cls.model_fields[tn].annotation) else "T"
        for name, f in cls.model_fields.items():
            a = f.alias or name
            if a not in full and f.is_required():
                full = None
                break
        if full is None:
            continue
        st.traces += 1
        try:
            m = cls.model_validate(full)
            dumped = json.loads(m.model_dump_json(by_alias=True))
            attrs = {(f.alias or f.serialization_alias or n): getattr(m, n) for n, f in cls.model_fields.items()}
        except Exception as e:  # noqa
            out.append(("value", f"{where}: {type(e).__name__} {str(e)[:200]}"))
            continue
        for alias, (raw, value) in data.items():
            if not same(attrs[alias], value):
                out.append(("value", f"{where} {alias}: {raw!r} is parsed to {attrs[alias]!r} instead of {value!r}"))
            if dumped[alias] != raw:
                out.append(("value", f"{where} {alias}: {raw!r} is dumped as {dumped[alias]!r}"))
    want = {"objects": 3, "client": 3, "funcs": 3}[case["set"]]
    if len(counts) < want:
        out.append(("harness", f"positions only found in {counts}"))
    if case["set"] == "funcs":
        n = 0
        for name, f in list(vars(mod).items()):
            if not inspect.isfunction(f) or f.__module__ != mod.__name__:
                continue
            hints = typing.get_type_hints(f, vars(mod), include_extras=True)
            own = "funcs" if name.startswith(("do", "ado")) else "input_funcs"
            for p, a in hints.items():
                s = scalar_of(camel(p)) if p != "return" else None
                if s is None:
                    continue
                n += 1
                st.evals += 1
                want = types[s[0]]
                if case.get("coerce") and case["coerce"][0] == s[0] and own in coerced:
                    want = resolve(coerced[own])
                got = {x for x in leaves(a) if getattr(x, "__name__", "") != "UnsetType"}
                if got != {want}:
                    out.append(("parameter", f"{name}({p}): a {s[0]} is annotated with {sorted(map(str, got))} instead of {want}"))
                st.outcome(str(want)[:40], own)
        if n < 60:
            out.append(("harness", f"only {n} parameters found"))


def camel(p):
    parts = p.rstrip("_").split("_")
    return parts[0] + "".join(x[:1].upper() + x[1:] for x in parts[1:])


def same(a, b):
    if isinstance(b, list) and isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


# a scalar used in one position only: (schema, document, plugins)
Q = "scalar One scalar Two type Query { a: Int %s } "
POSITIONS = {
    "result": ("x: S", "", "{ x }", "client"), "list": ("x: [[S!]]!", "", "{ x }", "client"), "nested": ("t: T", "type T { s: S }", "{ t { s } }", "client"), "fragment": ("t: T", "type T { s: S }", "{ t { ...F } } fragment F on T { s }", "client"), "inline": ("n: N", "interface N { i: Int } type T implements N { i: Int s: S }", "{ n { ... on T { s } } }", "client"),
    "union": ("u: U", "type T { s: S } type O { i: Int } union U = T | O", "{ u { ... on T { s } } }", "client"), "variable": ("x(s: S): Int", "", "($s: S) { x(s: $s) }", "client"), "listvariable": ("x(s: [S!]!): Int", "", "($s: [S!]!) { x(s: $s) }", "client"), "input": ("x(i: I): Int", "input I { s: S }", "($i: I) { x(i: $i) }", "client"),
    "deepinput": ("x(i: I): Int", "input I { j: [J!] } input J { s: [S] }", "($i: I) { x(i: $i) }", "client"), "function": ("x(s: S): Int", "", "($s: S) { x(s: $s) }", "funcs"), "object": ("t: T", "type T { s: S }", "{ a }", "objects"), "interface": ("n: N", "interface N { s: S } type T implements N { s: S }", "{ a }", "objects"),
    "nowhere": ("x: S", "type T { s: S } input I { s: S }", "{ a }", "reached"), "alias": ("x: S", "", "{ k: x }", "client"),
}
REACHED = {**SETS, "reached": ("enums", "inputs", "fragments", "operations")}


def missing(case, st):
    name, pos = case["missing"]
    other = "Two" if name == "One" else "One"
    q, types, doc, plugs = POSITIONS[pos]
    out = []
    for style in STYLES:
        for extra in ({}, {other: "str"}, {other: A + "Slug", "ID": "int"}, {name.lower(): "str"}, {name + "s": "str"}):
            for where in (name, other):
                sdl = re.sub(r"\bS\b", where, Q % q + types)
                text = "query A" + re.sub(r"\bS\b", where, doc)
                st.traces += 1
                st.states += 1
                used = pos != "nowhere"
                ok = where in extra or not used
                try:
                    code = generate(sdl, text, {"plugins": plugins(*REACHED[plugs]), "stylers": stylers(*STYLES[style]), "scalar_definitions": extra})
                    st.outcome(pos, "generated")
                    if not ok:
                        out.append(("unmapped", f"{where} at {pos} with {extra}: generated although nothing maps it"))
                    else:
                        with loaded(code):
                            pass
                except GenFailed as e:
                    st.outcome(pos, "refused")
                    if ok:
                        out.append(("refused", f"{where} at {pos} with {extra}: {str(e)[:200]}"))
                    elif where not in str(e):
                        out.append(("unnamed", f"{where} at {pos}: the error does not name it: {str(e)[:200]}"))
                except LoadFailed as e:
                    out.append(("import", f"{where} at {pos} with {extra}: {str(e)[:200]}"))
    return out
