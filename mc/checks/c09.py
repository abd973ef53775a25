"""C09: input factories and expanded inputs build the same input as the model."""
import inspect
import itertools

from graphql import GraphQLInputObjectType, GraphQLNonNull, build_schema
from pydantic import BaseModel, ValidationError

from .. import proxies
from ..inputs import OMIT, legal, objects, required
from ..pyd import tojson
from ..roundtrip import operations_of, schema_of, with_module
from ..turmsio import client_config
from .c01 import STYLES
from .c05 import NAMES, TYPES, WRAP, default_of
from .c06 import AUX, GRAPHS, HEAD, KINDS, class_for, classes, pythonic, root
from .c08 import functions, probe

ID = "C09"
LEVEL = "model_checking"
RULE = ("one case = one set of input types and configuration; a trace is one schema-conforming value (every omitted/null/value "
        "pattern of the fields), built once with the generated factory (wire values and Python objects) or sent through an "
        "operation function whose input is expanded into parameters, and compared with the given wire value and with the model built "
        "directly; signatures must demand exactly the required fields. Outcomes: distinct (kind, presence pattern).")
BOUNDS = {
    "quick": "11 named types x 9 wrappers x default or not; 48 names x 5 stylers x 3 types; all pairs of 12 field kinds; recursive type graphs in "
             "all orders; 14 type names x 5 stylers; one-of and union inputs; 8 configurations; every variable form (In!, In, [In!]!, In! = default, Int!) listed for expansion",
    "thorough": "as quick plus all triples of field kinds and all names x all field kinds",
}
ASSUMPTIONS = ["null for a non-null field with a default is not judged"]


def case(key, sdl, style="none", mode="both", **kw):
    return {"key": key, "sdl": sdl, "style": style, "mode": mode, **kw}


TNAMES = ["Root_", "root", "class", "Class", "None", "URLInput", "In_", "data", "Data", "from", "UNSET", "Optional", "List", "get"]


def cases(tier):
    for t in TYPES:
        for w in WRAP:
            full = w.format(t)
            for d in (None, default_of(full)):
                yield case(f"type:{full}:{d}", HEAD + AUX + root([("fooBar", full, d)]), "snake")
    for n in dict.fromkeys(NAMES + ["Root", "root", "date", "Color", "Small", "small", "_x", "value", "name", "UNSET", "query", "aquery", "Get", "i", "_i", "event", "Date"]):
        for style in STYLES:
            for t, d in (("Int!", None), ("String", None), ("Small", None)) if tier == "quick" else KINDS:
                yield case(f"name:{n}:{t}:{d}:{style}", HEAD + AUX + root([(n, t, d), ("other", "Int", None)]), style)
    for a, b in itertools.product(KINDS, repeat=2):
        yield case(f"pair:{a}:{b}", HEAD + AUX + root([("fooBar", *a), ("class", *b)]), "snake")
    for g, defs in GRAPHS.items():
        for i, perm in enumerate(itertools.permutations(defs)):
            for style in ("none", "snake", "append", "capsnake"):
                yield case(f"graph:{g}:{i}:{style}", HEAD + "\n".join(perm), style)
    for t in TNAMES:
        for style in STYLES:
            yield case(f"tname:{t}:{style}", HEAD + AUX + root([("fooBar", "Int!", None), ("x", "Small", None)]).replace("Root", t), style, tname=t)
    for cn, (cfg, plug) in {
        "freeze": ({"freeze": {"enabled": True}}, {}), "tuple": ({"freeze": {"enabled": True, "convert_list_to_tuple": True}}, {}),
        "forbid": ({"options": {"enabled": True, "extra": "forbid"}}, {}), "prepend": ({}, {"prepend": "make_"}), "nodoc": ({}, {"extract_documentation": False}),
        "skip": ({}, {"skip_unreferenced": False}), "coerce": ({"coercible_scalars": {"Int": "builtins.str"}, "coercible_inputs": {"Small": "builtins.str"}}, {}),
        "enumvalues": ({"options": {"enabled": True, "use_enum_values": True}}, {}),
    }.items():
        for fields in ([("fooBar", "Int!", None), ("from", "[Small!]", None), ("c", "Color", "RED")], [("n", "In", None), ("d", "[Date!]!", None)]):
            for style in ("none", "snake"):
                yield case(f"cfg:{cn}:{fields[0][0]}:{style}", HEAD + AUX + root(fields), style, cfg=cfg, plug=plug)
    # what may be listed for expansion
    for form in ("Root!", "Root", "[Root!]!", "Root! = {fooBar: 1}", "Root = {fooBar: 1}", "Int!", "Color!"):
        for style in ("none", "snake"):
            yield case(f"form:{form}:{style}", HEAD + AUX + root([("fooBar", "Int!", None), ("x", "Small", None)]), style, mode="expand", form=form)
    for others in (["Int!"], ["Int"], ["Int!", "String"], ["Small!", "[Int!]!"]):
        for confs in ({}, {"global_args": [{"key": "ctx", "type": "mc.proxies.Ctx"}], "global_kwargs": [{"key": "opt", "type": "mc.proxies.Ctx"}]}):
            yield case(f"with:{others}:{sorted(confs)}", HEAD + AUX + root([("fooBar", "Int!", None), ("x", "Small", None), ("y", "Int!", "4")]), "snake", mode="expand", others=others, conf=confs)
    one = "directive @oneOf on INPUT_OBJECT\n"
    uni = "directive @unionElementOf(union: String!, discriminator: String!, key: String!) repeatable on INPUT_OBJECT\n"
    for label, text in {"oneof direct": one + "input Alt @oneOf { a: In b: Small }", "oneof wrapper": one + "input Alt @oneOf { a: Int b: Small }",
                        "oneof mixed": one + "input Alt @oneOf { a: [In!] b: Color }"}.items():
        yield case(f"alias:{label}", HEAD + AUX + text + "\n" + root([("alt", "Alt", None), ("x", "Int!", None)]), "none", alias="Alt")
    for field in ("", "kind: Kind! ", "kind: Kind! = A ", "kind: String! "):
        yield case(f"member:{field}", uni + HEAD + f'enum Kind {{ A B }} input M1 @unionElementOf(union: "U", discriminator: "kind", key: "A") {{ {field}fooBar: Int! b: String }}\n'
                   f'input M2 @unionElementOf(union: "U", discriminator: "kind", key: "B") {{ {field}q: [Int!] }} input U {{ d: Int }}\n' + root([("u", "U", None), ("x", "Int!", None)]),
                   "snake", alias="U", members={"M1": "A", "M2": "B"})
    if tier == "thorough":
        for c in itertools.product(KINDS, repeat=3):
            yield case(f"triple:{c}", HEAD + AUX + root([("fooBar", *c[0]), ("class", *c[1]), ("x", *c[2])]), "snake")


def run(case, st):
    out = []
    cfg = case.get("cfg") or {}
    common = dict(style=STYLES[case["style"]], scalar_definitions={"Date": "datetime.date", "JSON": "typing.Any"}, **cfg)
    t = case.get("tname", "Root")
    sdl = case["sdl"].replace("q(i: Root)", f"q(i: {t})").replace("type Query { q(i: %s): Int }" % t, "")
    if case["mode"] == "both":
        st.programs += 1
        s = sdl + "\ntype Query { q(i: %s): Int }" % t
        out += with_module(s, "query Get($i: %s) { q(i: $i) }" % t, client_config(["enums", "inputs", ("input_funcs", case.get("plug") or {})], **common),
                           lambda m, sc, u: judge_factories(m, sc, case, st))
    if not out and not case.get("alias"):
        form = case.get("form") or t + "!"
        others = case.get("others") or []
        base = form.split(" =")[0]
        s = sdl + "\ntype Query { q(i: %s%s): Int }" % (base, "".join(f" o{k}: {x}" for k, x in enumerate(others)))
        doc = "query Get(%s$i: %s%s) { q(i: $i%s) }" % ("$o0: %s, " % others[0] if others else "", form,
                                                       "".join(f", $o{k}: {x}" for k, x in enumerate(others) if k), "".join(f", o{k}: $o{k}" for k in range(len(others))))
        conf = {"definitions": proxies.definitions(), "expand_input_types": ["i"], **(case.get("conf") or {})}
        st.programs += 1
        out += with_module(s, doc, client_config(["enums", "inputs", "operations", ("funcs", conf)], **common), lambda m, sc, u: judge_expanded(m, sc, u, case, st, t, others))
    return out


def norm(n):
    return n.replace("_", "").lower()


def mapping(fn, t, skip=()):
    """{GraphQL field: parameter} by name, modulo case and underscores"""
    params = [p for p in inspect.signature(fn).parameters if p not in skip]
    out = {}
    for f in t.fields:
        fits = [p for p in params if norm(p) == norm(f) and p not in out.values()]
        if len(fits) != 1:
            fits = [p for p in params if p == f] or fits
        if fits:
            out[f] = fits[0]
    return out, [p for p in params if p not in out.values()]


def is_alias(t):
    return any(d.name.value == "oneOf" for d in t.ast_node.directives)


def judge_factories(mod, schema, case, st):
    problems = []
    members = case.get("members") or {}
    fns = dict(functions(mod))
    inputs = [t for n, t in schema.type_map.items() if isinstance(t, GraphQLInputObjectType)]
    by_class = {}
    for n, fn in fns.items():
        ret = fn.__annotations__.get("return")
        by_class.setdefault(ret if isinstance(ret, type) else str(ret), []).append(fn)
    done = 0
    for t in inputs:
        if t.name == case.get("alias"):
            continue
        cls = class_for(mod, t) if t.name not in members else next((c for c in classes(mod).values() if c.__name__.lower().startswith(t.name.lower())), None)
        if cls is None:
            continue
        fs = by_class.pop(cls, [])
        if len(fs) != 1:
            problems.append(("factory", f"{len(fs)} factories for input {t.name}: {fs}"))
            continue
        fn, = fs
        done += 1
        m, rest = mapping(fn, t)
        if rest or set(m) != set(t.fields):
            problems.append(("signature", f"{fn.__name__}{inspect.signature(fn)} for fields {list(t.fields)}"))
            continue
        sig = inspect.signature(fn).parameters
        demanded = {p for p, v in sig.items() if v.default is inspect.Parameter.empty}
        want = {m[f] for f, v in t.fields.items() if required(v.type, v.default_value)}
        if demanded != want:
            problems.append(("signature", f"{fn.__name__} demands {sorted(demanded)}, the schema {sorted(want)}"))
        for wire in objects(t, 2):
            st.states += 1
            if any(wire.get(k) is not None and getattr(v.type, "name", "") == case.get("alias") for k, v in t.fields.items()):
                continue  # what a one-of or union accepts is judged by C07
            if t.name in members:
                wire = {k: (members[t.name] if k == "kind" else v) for k, v in wire.items()}
            full = {**({"kind": members[t.name]} if t.name in members else {}), **wire}
            if any(v is None and isinstance(t.fields[k].type, GraphQLNonNull) for k, v in wire.items()):
                continue
            ways = {"wire": wire}
            if t.name not in members and not case.get("alias"):
                ways["python"] = {k: pythonic(mod, t.fields[k].type, v) for k, v in wire.items()}
            direct = cls.model_validate(wire)
            for label, given in ways.items():
                st.traces += 1
                st.transitions += 1
                try:
                    o = fn(**{m[k]: v for k, v in given.items()})
                except Exception as e:
                    problems.append(("reject", f"{fn.__name__}({given!r}): {type(e).__name__}: {str(e)[:200]}"))
                    continue
                sent = o.model_dump(by_alias=True, exclude_unset=True, mode="json")
                if type(o) is not cls or sent != tojson(full) or o != direct or sent != direct.model_dump(by_alias=True, exclude_unset=True, mode="json"):
                    problems.append(("wire", f"{fn.__name__}({given!r}) is {o!r}, sends {sent!r}"))
                st.outcome("factory", t.name, tuple(sorted((k, v is None) for k, v in wire.items())))
            if len(problems) > 3:
                return problems
        for p in demanded:
            st.evals += 1
            try:
                fn(**{q: 1 for q in demanded if q != p})
                problems.append(("accepted", f"{fn.__name__} without {p}"))
            except TypeError:
                st.outcome("refused")
    if not done:
        problems.append(("missing", f"no factories, only {sorted(fns)}"))
    for left in by_class.values():
        for fn in left:  # a factory of anything that has no model: it must at least work for something
            ok = False
            t = schema.type_map.get(case.get("alias") or "")
            for wire in [{f: w} for f, d in t.fields.items() for w in (values_for(d.type))] if t is not None else []:
                try:
                    m, _ = mapping(fn, t)
                    fn(**{m[k]: v for k, v in wire.items()})
                    ok = True
                except Exception as e:
                    why = f"{type(e).__name__}: {e}"
            if not ok:
                problems.append(("useless", f"{fn.__name__}{inspect.signature(fn)} cannot build anything: {why if t is not None else ''}"))
    return problems[:4]


def values_for(t):
    from ..inputs import good
    return [v for v in good(t, 1, False) if v is not None][:2]


def judge_expanded(mod, schema, user, case, st, tname, others):
    problems = []
    cls = operations_of(mod)["Get"]
    proxies.ANSWER[0] = lambda op: [type("A", (), {"q": 1})()]
    fns = functions(mod)
    form = case.get("form") or tname + "!"
    expandable = form == tname + "!"
    t = schema.type_map[tname]
    conf = case.get("conf") or {}
    extras = [a["key"] for a in conf.get("global_args", [])]
    ekw = [a["key"] for a in conf.get("global_kwargs", [])]
    if len(fns) != 2:
        return [("functions", f"{sorted(fns)}")]
    for name, fn in fns.items():
        oparams = {f"o{k}": x for k, x in enumerate(others)}
        skip = set(extras) | set(ekw) | set(oparams)
        sig = inspect.signature(fn).parameters
        if not expandable and len([p for p in sig if p not in skip]) == 1:
            # one parameter for the whole variable
            p, = [p for p in sig if p not in skip]
            need = form.endswith("!")
            if (sig[p].default is inspect.Parameter.empty) != need:
                problems.append(("signature", f"{name}{inspect.signature(fn)} for $i: {form}"))
            mark = object()
            _, calls = proxies.call(fn, (), {p: mark})
            st.traces += 1
            if calls[0][1][-1] != {"i": mark}:
                problems.append(("forward", f"{name} hands {calls[0][1]!r}"))
            if not need:
                _, calls = proxies.call(fn, (), {})
                if calls[0][1][-1] != {}:
                    problems.append(("forward", f"{name}() hands {calls[0][1]!r}"))
            st.outcome("whole", form)
            continue
        m, rest = mapping(fn, t, skip)
        if rest or set(m) != set(t.fields):
            problems.append(("signature", f"{name}{inspect.signature(fn)} for fields {list(t.fields)}"))
            continue
        demanded = {p for p, v in sig.items() if v.default is inspect.Parameter.empty}
        want = set(extras) | {m[f] for f, v in t.fields.items() if required(v.type, v.default_value)} | {o for o, x in oparams.items() if x.endswith("!")}
        if demanded != want:
            problems.append(("signature", f"{name} demands {sorted(demanded)}, should be {sorted(want)}"))
        for wire in objects(t, 2):
            if any(v is None and isinstance(t.fields[k].type, GraphQLNonNull) for k, v in wire.items()):
                continue
            st.states += 1
            for label, given in {"wire": wire, "python": {k: pythonic(mod, t.fields[k].type, v) for k, v in wire.items()}}.items():
                for full in ((True, False) if others else (True,)):
                    ov = {o: others_value(x) for o, x in oparams.items() if full or x.endswith("!")}
                    ctx = {e: object() for e in extras}
                    st.traces += 1
                    st.transitions += 1
                    try:
                        _, calls = proxies.call(fn, (), {**{m[k]: v for k, v in given.items()}, **ov, **ctx})
                        args = calls[0][1]
                        sent = cls.Arguments(**args[-1]).model_dump(by_alias=True, exclude_unset=True, mode="json")
                    except Exception as e:
                        problems.append(("reject", f"{name}({given!r}): {type(e).__name__}: {str(e)[:200]}"))
                        continue
                    if sent != {"i": tojson(wire), **ov} or args[-2] is not cls or list(args[:-2]) != list(ctx.values()):
                        problems.append(("wire", f"{name}({given!r}) sends {sent!r}"))
                    st.outcome("expanded", tuple(sorted((k, v is None) for k, v in wire.items())))
            if len(problems) > 3:
                return problems
        for p in demanded:
            st.evals += 1
            try:
                proxies.call(fn, (), {q: None for q in demanded if q != p})
                problems.append(("accepted", f"{name} without {p}"))
            except TypeError:
                st.outcome("refused")
    return problems[:4]


def others_value(x):
    return {"Int!": 7, "Int": 8, "String": "o", "Small!": {"x": 1}, "[Int!]!": [1, 2]}[x]
