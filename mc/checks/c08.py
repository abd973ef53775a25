"""C08: operation functions forward exactly the arguments they were given."""
import inspect
import itertools
import typing

from graphql import GraphQLNonNull, type_from_ast
from graphql.execution.values import get_variable_values
from pydantic import TypeAdapter, ValidationError

from .. import proxies
from ..docs import ALPHA, SCALARDEF, SMALL, ZOO, documents
from ..explore import explore
from ..inputs import OMIT, good
from ..roundtrip import operations_of, with_module
from ..server import Doc, Responder
from ..turmsio import client_config
from .c01 import LEAF, SUB, WRAP as LEAFWRAP, leaf_sdl
from .c01 import NAMES as LEAFNAMES
from .c01 import STYLES
from .c05 import DEFAULT, KINDS, NAMES, TYPES, WRAP, default_of, doc_for, sdl_for

ID = "C08"
LEVEL = "model_checking"
RULE = ("one case = operations of all three kinds with 0-3 variables or one selection, plus a function configuration; a trace is "
        "one call of a generated function (every omitted/null/value pattern, positional and by keyword, with and without the "
        "configured extras) against a recording proxy. Checked: the operation class, exactly the given variables under their "
        "GraphQL names (same objects), the extras, the result (unwrapped where configured), refused calls. Outcomes: distinct "
        "(flavour, presence pattern).")
BOUNDS = {
    "quick": "11 types x 9 wrappers x default or not, 46 names x 5 stylers, all pairs of 14 variable kinds, 24 configurations of extras and "
             "prefixes x 6 flavours (3 operation kinds x sync/async), 23 operation names, all small documents of cost<=4 and all leaf kinds for the result",
    "thorough": "as quick plus all triples of variable kinds, full-alphabet documents of cost<=4",
}
ASSUMPTIONS = ["two parameters whose styled names coincide are C13's recorded limitation and are not generated here"]

MORE = ["variables", "event", "UNSET", "UnsetType", "Get", "Get_", "get", "query", "aquery", "subscribe", "Dict", "Any", "Union", "print", "mc", "proxies"]


def case(key, kind, **kw):
    return {"key": key, "kind": kind, **kw}


def cases(tier):
    for t in TYPES:
        for w in WRAP:
            full = w.format(t)
            for d in (None, default_of(full)):
                yield case(f"type:{full}:{d}", "vars", vars=[("fooBar", full, d)], style="snake")
    for n in dict.fromkeys(NAMES + MORE):
        for style in STYLES:
            for t, d in (("Int!", None), ("String", None), ("In", "{a: 1}")):
                yield case(f"name:{n}:{t}:{style}", "vars", vars=[(n, t, d), ("other", "Int!", None)], style=style)
    for a, b in itertools.product(KINDS, repeat=2):
        yield case(f"pair:{a}:{b}", "vars", vars=[("fooBar", *a), ("class", *b)], style="snake")
    EA, EK = {"key": "ctx", "type": "mc.proxies.Ctx"}, {"key": "opt", "type": "mc.proxies.Ctx"}
    confs = {
        "none": {},
        "gargs": {"global_args": [EA]},
        "gkw": {"global_kwargs": [EK]},
        "gkwd": {"global_kwargs": [{**EK, "type": "str", "default": "dflt"}]} if False else {"global_kwargs": [{**EK, "default": "dflt"}]},
        "kwint": {"global_kwargs": [{**EK, "default": 0}]},
        "kwfalse": {"global_kwargs": [{**EK, "default": False}]},
        "all": {"global_args": [EA], "global_kwargs": [EK], "def": {"extra_args": [{**EA, "key": "second"}], "extra_kwargs": [{**EK, "key": "more", "default": 5}]}},
        "def": {"def": {"extra_args": [EA], "extra_kwargs": [EK]}},
        "prefix": {"prepend_sync": "s_", "prepend_async": "async_"},
        "swap": {"prepend_sync": "a", "prepend_async": ""},
        "nocollapse": {"collapse_lonely": False},
        "nodoc": {"extract_documentation": False},
        "coerce": {"coercible_scalars": {"Int": "builtins.str"}, "coercible_inputs": {"In": "builtins.str"}},
        "clash": {"global_args": [{**EA, "key": "variables"}], "global_kwargs": [{**EK, "key": "event"}]},
    }
    varsets = {"no": [], "req": [("fooBar", "Int!", None)], "mix": [("fooBar", "In", "{a: 1}"), ("class", "[Int!]!", None), ("x", "String", None), ("y", "In!", None)]}
    for cn, c in confs.items():
        for vn, vs in varsets.items():
            for style in ("none", "snake", "append"):
                yield case(f"conf:{cn}:{vn}:{style}", "vars", vars=vs, style=style, conf=c)
    for name in ["get", "Get", "GET", "getFoo", "GetFoo", "get_foo", "Import", "Class", "None", "async", "Await", "X", "x", "GetHTTPResponse", "variables", "Query", "print",
                 "Optional", "UNSET", "List", "str", "Int", "In"]:
        for style in STYLES:
            for pre in ({}, {"prepend_async": "", "prepend_sync": "s"}):
                yield case(f"op:{name}:{style}:{sorted(pre)}", "vars", vars=[("fooBar", "Int!", None), ("b", "In", None)], style=style, conf=pre, op=name)
    for a, b in (("GetFoo", "Getfoo"), ("GetFoo", "AGetFoo"), ("Get", "Getter")):
        yield case(f"ops:{a}:{b}", "two", ops=[a, b])
    # results
    seen = set()
    for alpha, cost in ((SMALL, 4),) if tier == "quick" else ((SMALL, 5), (ALPHA, 4)):
        for c, d in documents(alpha, cost):
            if d not in seen:
                seen.add(d)
                for col in (True, False) if c < 4 else (True,):
                    yield case(f"doc:{col}:{d}", "result", sdl=None, doc=d, style="snake", collapse=col)
    for leaf in LEAF:
        for w in LEAFWRAP:
            t = w.format(leaf)
            for style in ("none", "snake"):
                for col in (True, False):
                    yield case(f"leaf:{t}:{style}:{col}", "result", sdl=leaf_sdl(t), doc=f"query Get {{ top {SUB.get(leaf, '')} }}", style=style, collapse=col)
    for n in LEAFNAMES:
        for style in STYLES:
            for sel in (f"{n}: wrap {{ a }}", f"{n}: top", f"{n}: wrap {{ ...F }}"):
                frag = " fragment F on Wrap { a }" if "...F" in sel else ""
                yield case(f"alias:{n}:{sel}:{style}", "result", sdl=leaf_sdl("Int", "a"), doc=f"query Get {{ {sel} }}{frag}", style=style, collapse=True)
    for d in ("query Get { me { id } count }", "query Get { me { ...P } } fragment P on Person { id }", "query Get { node(id: 1) { ...N } } fragment N on Node { id }",
              "query Get { pet { ...U } } fragment U on Pet { ... on Dog { barks } ... on Cat { meows } }", "query Get { x: me { ...P ...Q } } fragment P on Person { id } fragment Q on Person { class }",
              "query Get { pets { ... on Dog { ...D } } } fragment D on Dog { barks }", "query Get { me { dog { barks } } }", "query Get { me { __typename id } }",
              "query Get { nodes { __typename ...N } } fragment N on Node { id ... on Dog { barks } }", "query Get { dog { ...N } } fragment N on Node { id ... on Dog { barks } }",
              "query Get { me { ... P } } fragment P on Person { dog { ...D } } fragment D on Dog { barks }", "query Get { animal { ...D legs } } fragment D on Dog { barks }",
              "mutation Get { rename(id: 1) { id } }", "mutation Get { touch }", "subscription Get { ticked }", "subscription Get { changed { id } }",
              "subscription Get { x: changed { ...P } } fragment P on Person { id class }", "query Get { dog { ...A } } fragment A on Animal { legs }"):
        for style in STYLES:
            for col in (True, False):
                yield case(f"shape:{d}:{style}:{col}", "result", sdl=None, doc=d, style=style, collapse=col)
    if tier == "thorough":
        for c in itertools.product(KINDS, repeat=3):
            yield case(f"triple:{c}", "vars", vars=[("fooBar", *c[0]), ("class", *c[1]), ("x", *c[2])], style="snake")


def config(case, conf=None):
    conf = dict(conf or {})
    definition = conf.pop("def", {})
    if "collapse" in case:
        conf["collapse_lonely"] = case["collapse"]
    conf["definitions"] = proxies.definitions(**definition)
    return client_config(["enums", "inputs", "fragments", "operations", ("funcs", conf)], style=STYLES[case["style"]],
                         scalar_definitions={"Date": "datetime.date", "JSON": "typing.Any"})


def run(case, st):
    st.programs += 1
    return globals()["run_" + case["kind"]](case, st)


def functions(mod):
    return {k: v for k, v in vars(mod).items() if inspect.isfunction(v) and v.__module__ == mod.__name__ and not k.startswith("_")}


class Mark:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return f"<{self.n}>"


KIND = {"query": ("query", "aquery"), "mutation": ("mutate", "amutate"), "subscription": ("subscribe", "asubscribe")}


def probe(fn):
    """Calls fn with a mark for every parameter: (proxy, operation class, {variable: parameter}, extra positional, extra keywords)"""
    params = list(inspect.signature(fn).parameters)
    marks = {p: Mark(p) for p in params}
    _, calls = proxies.call(fn, (), marks)
    if len(calls) != 1:
        raise AssertionError(f"{fn.__name__} makes {len(calls)} calls")
    who, args, kwargs = calls[0]
    where = next(i for i, a in enumerate(args) if isinstance(a, type))
    if len(args) != where + 2:
        raise AssertionError(f"{fn.__name__} passes {args!r}")
    return who, args[where], {k: v.n if isinstance(v, Mark) else v for k, v in args[-1].items()}, [a.n for a in args[:where]], {k: v.n for k, v in kwargs.items()}


def run_vars(case, st):
    vars = [tuple(v) for v in case["vars"]]
    sdl = sdl_for(vars)
    name = case.get("op", "Get")
    args = ("(" + ", ".join(f"p{i}: ${n}" for i, (n, _, _) in enumerate(vars)) + ")") if vars else ""
    out = []
    if not vars:
        sdl = sdl.replace("{ q(): Int }", "{ q: Int }")
    for kind in ("query", "mutation", "subscription"):
        doc = doc_for(vars, kind, name) if vars else f"{kind} {name} {{ q }}"
        st.programs += 1
        out += with_module(sdl, doc, config(case, case.get("conf")), lambda m, s, u: judge_vars(m, s, u, kind, name, vars, case, st))
        if out:
            break
    return out[:4]


def judge_vars(mod, schema, user, kind, name, vars, case, st):
    conf = case.get("conf") or {}
    cls = operations_of(mod).get(name)
    if cls is None:
        return [("missing", f"no class for {name}")]
    fns = functions(mod)
    if len(fns) != 2:
        return [("functions", f"{sorted(fns)} generated for one {kind}, wanted a sync and an async function")]
    extra_args = [x["key"] for x in conf.get("global_args", []) + conf.get("def", {}).get("extra_args", [])]
    kw = conf.get("global_kwargs", []) + conf.get("def", {}).get("extra_kwargs", [])
    op = user.ops[name]
    types = {v.variable.name.value: type_from_ast(schema, v.type) for v in op.variable_definitions}
    problems, flavours = [], set()
    result = object()
    answer = type("Answer", (), {"__getattr__": lambda s, n: (s, n)})
    proxies.ANSWER[0] = lambda op: [answer(), answer()]
    for fname, fn in fns.items():
        try:
            who, got_cls, where, pos, kws = probe(fn)
        except Exception as e:
            problems.append(("call", f"{fname} with all arguments: {type(e).__name__}: {e}"))
            continue
        flavours.add(who)
        if got_cls is not cls:
            problems.append(("class", f"{fname} passes {got_cls!r}"))
        if set(where) != set(types):
            problems.append(("variables", f"{fname} passes variables {sorted(where)}, the operation has {sorted(types)}"))
            continue
        if pos != extra_args or kws != {k["key"]: k["key"] for k in kw}:
            problems.append(("extras", f"{fname} passes extras {pos} {kws}"))
        sig = inspect.signature(fn).parameters
        required = {p for p, v in sig.items() if v.default is inspect.Parameter.empty}
        want = set(extra_args) | {where[n] for n, t, d in vars if isinstance(types[n], GraphQLNonNull) and d is None}
        if required != want:
            problems.append(("signature", f"{fname} demands {sorted(required)}, should be {sorted(want)}"))
        defaults = {k["key"]: k.get("default") for k in kw}
        # every pattern of omitted / null / value
        opts = []
        for n, t, d in vars:
            g = good(types[n], 1, False)
            nn = [x for x in g if x is not None][:1]
            opts.append(([] if isinstance(types[n], GraphQLNonNull) and d is None else [OMIT]) + nn + ([None] if not isinstance(types[n], GraphQLNonNull) else []))
        ekw = [()] + [tuple(c) for c in [[k["key"]] for k in kw]]
        for combo in itertools.product(*opts):
            given = {n: v for (n, _, _), v in zip(vars, combo) if v is not OMIT}
            for extra_given in ekw:
                ctx = {a: Mark(a) for a in extra_args}
                over = {k: Mark(k) for k in extra_given}
                st.traces += 1
                st.transitions += 1
                _, calls = proxies.call(fn, (), {**ctx, **{where[n]: v for n, v in given.items()}, **over})
                w, a, k = calls[0]
                sent = a[-1]
                if len(calls) != 1 or w != who or a[-2] is not cls or list(a[:-2]) != list(ctx.values()) or k != {**defaults, **over}:
                    problems.append(("extras", f"{fname}({given!r}): proxy {w} got {a!r} {k!r}"))
                if sent != given or any(sent[n] is not given[n] for n in given):
                    problems.append(("forward", f"{fname}({given!r}) hands the proxy {sent!r}"))
                else:
                    obj = cls.Arguments(**sent) if hasattr(cls, "Arguments") else None
                    wire = obj.model_dump(by_alias=True, exclude_unset=True, mode="json") if obj is not None else {}
                    a, b = (get_variable_values(schema, op.variable_definitions, x) for x in (given, wire))
                    if a != b:
                        problems.append(("coerce", f"{fname}({given!r}) sends {wire!r}: server reads {b!r}, not {a!r}"))
                st.outcome(who, tuple(sorted((n, v is None) for n, v in given.items())))
            # positional call: required ones in the order of the signature
            st.transitions += 1
        order = [p for p in sig if p in required]
        if list(sig)[: len(order)] != order:
            problems.append(("signature", f"{fname}{inspect.signature(fn)}"))
        marks = [Mark(p) for p in order]
        _, calls = proxies.call(fn, marks, {})
        seen = {v.n: v for v in list(calls[0][1][:-2]) + list(calls[0][1][-1].values())}
        if set(seen) != required or any(seen[m.n] is not m for m in marks):
            problems.append(("positional", f"{fname} positional {order}: proxy got {calls[0][1]!r}"))
        for p in required:
            st.evals += 1
            try:
                proxies.call(fn, (), {q: Mark(q) for q in required if q != p})
                problems.append(("accepted", f"{fname} can be called without {p}"))
            except TypeError:
                st.outcome("refused")
        if len(problems) > 3:
            break
    if not problems and flavours != set(KIND[kind]):
        problems.append(("flavours", f"functions call {sorted(flavours)}, configured are {KIND[kind]}"))
    return problems


def run_two(case, st):
    a, b = case["ops"]
    sdl = sdl_for([("x", "Int!", None)])
    doc = doc_for([("x", "Int!", None)], "query", a) + "\n" + doc_for([("y", "Int!", None)], "mutation", b)

    def judge(mod, schema, user):
        proxies.ANSWER[0] = lambda op: [type("A", (), {"q": 1})()]
        got = {}
        for n, fn in functions(mod).items():
            who, cls, where, *_ = probe(fn)
            got[who] = (cls, set(where))
            st.traces += 1
            st.outcome(who)
        ops = operations_of(mod)
        want = {"query": (ops[a], {"x"}), "aquery": (ops[a], {"x"}), "mutate": (ops[b], {"y"}), "amutate": (ops[b], {"y"})}
        return [] if got == want else [("functions", f"functions {got!r}, wanted {want!r}")]

    st.states += 1
    return with_module(sdl, doc, config({"style": "none"}), judge)


def run_result(case, st):
    sdl = case["sdl"] or ZOO
    st.states += 1
    return with_module(sdl, case["doc"], config(case), lambda m, s, u: judge_result(m, s, u, case, st))


def judge_result(mod, schema, user, case, st):
    problems = []
    (name, uop), = user.ops.items()
    cls = operations_of(mod).get(name)
    if cls is None:
        return [("missing", f"no class for {name}")]
    sent = Doc(schema, cls.Meta.document)
    op = sent.ops[name]
    roots = uop.selection_set.selections
    collapse = case["collapse"] and len(roots) == 1
    key = (roots[0].alias or roots[0].name).value
    fields = {f.alias or n: n for n, f in cls.model_fields.items()}
    fns = functions(mod)
    if len(fns) != 2:
        return [("functions", f"{sorted(fns)}")]
    for resp, ch in explore(lambda ch: Responder(schema, sent, ch).respond(op), 1, st):
        obj = cls.model_validate(resp)
        second = cls.model_validate(resp)
        proxies.ANSWER[0] = lambda c: [obj, second] if c is cls else []
        for fname, fn in fns.items():
            args = {p: None for p, v in inspect.signature(fn).parameters.items() if v.default is inspect.Parameter.empty}
            out, calls = proxies.call(fn, (), args)
            many = calls[0][0] in KIND["subscription"]
            want = [getattr(o, fields[key]) if collapse else o for o in ([obj, second] if many else [obj])]
            st.transitions += 1
            if len(out) != len(want) or any(x is not y for x, y in zip(out, want)):
                problems.append(("result", f"{fname} returns {out!r}, wanted {want!r}"))
                continue
            try:
                hint = typing.get_type_hints(fn, vars(mod)).get("return")
                if many:
                    hint, = typing.get_args(hint)
                TypeAdapter(hint).validate_python(out[0], strict=False)
            except (ValidationError, NameError, TypeError, ValueError) as e:
                problems.append(("annotation", f"{fname} is annotated {inspect.signature(fn).return_annotation!r} but returns {out[0]!r}: {str(e)[:200]}"))
            st.outcome(fname, type(out[0]).__name__)
        if len(problems) > 2:
            break
    return problems
