"""C05: operation variables are sent by their GraphQL name and only when provided."""
import itertools

from graphql import GraphQLNonNull, TypeInfo, Undefined, type_from_ast
from graphql.execution.values import get_variable_values
from pydantic import ValidationError

from ..inputs import OMIT, bad, good
from ..pyd import tojson
from ..roundtrip import operations_of, schema_of, with_module
from .c01 import STYLES
from ..turmsio import client_config

ID = "C05"
LEVEL = "model_checking"
RULE = ("one case = one operation with 1-3 variables (type x wrapper x default x name) and configuration; a trace is one "
        "assignment omitted/null/value to every variable, built through the generated argument model and dumped (JSON, by "
        "alias, what was set): legal assignments must be accepted, sent exactly, and coerce on the reference server to the "
        "same values; illegal ones (missing or null required variable, wrongly typed value) must be refused. Outcomes: "
        "distinct (type, presence pattern).")
BOUNDS = {
    "quick": "9 named types x 9 wrappers x default yes/no; 32 names x 5 stylers; all pairs of 14 variable kinds; all assignments per case",
    "thorough": "as quick, plus all triples of variable kinds and all names x all types of variable kinds",
}
ASSUMPTIONS = ["null for a non-null variable with a default is not judged: the generated field is optional by design"]

SDL = '''scalar Date scalar DateTime scalar JSON enum Color { RED GREEN from None }
input In { a: Int! n: In from: String fooBar: [Int!] color: Color d: Date b: Boolean! = true }
input Small { x: Int y: Int! = 2 }
type Query { q: Int } type Mutation { q: Int } type Subscription { q: Int }'''
TYPES = ["Int", "Float", "String", "Boolean", "ID", "Date", "DateTime", "JSON", "Color", "In", "Small"]
WRAP = ["{}", "{}!", "[{}]", "[{}!]", "[{}]!", "[{}!]!", "[[{}]]", "[[{}!]!]!", "[[{}]!]"]
DEFAULT = {"Int": "3", "Float": "1.5", "String": '"d\\"q"', "Boolean": "false", "ID": '"x"', "Date": '"2020-01-01"', "DateTime": '"2020-01-01T00:00:00Z"',
           "JSON": '{k: [1, null]}', "Color": "RED", "In": "{a: 1, n: {a: 2, from: \"z\"}}", "Small": "{}"}
NAMES = ["a", "fooBar", "FooBar", "foo_bar", "foo_Bar", "URL", "from", "class", "None", "True", "import", "lambda", "async", "self", "cls", "variables", "data",
         "type", "id", "ID", "int", "str", "list", "Optional", "List", "Field", "document", "x1", "a_", "typename", "kwargs", "Arguments", "dict", "json", "copy"]
KINDS = [("Int", None), ("Int!", None), ("Int", "3"), ("Int!", "3"), ("[Int!]", None), ("[In!]!", None), ("In", None), ("In", "{a: 1}"),
         ("Color!", None), ("Color", "RED"), ("Date", None), ("[Date]!", None), ("String", "null"), ("JSON", None)]


def default_of(w):
    t = w.replace("[", "").replace("]", "").replace("!", "")
    d = DEFAULT[t]
    return "[" * w.count("[") + d + "]" * w.count("[")


def decl(vars):
    return "(" + ", ".join(f"${n}: {t}" + (f" = {d}" if d is not None else "") for n, t, d in vars) + ")"


def sdl_for(vars):
    args = ", ".join(f"p{i}: {t}" for i, (n, t, d) in enumerate(vars))
    return SDL.replace("{ q: Int }", "{ q(%s): Int }" % args)


def doc_for(vars, kind="query", name="Get"):
    return f"{kind} {name}{decl(vars)} {{ q({', '.join(f'p{i}: ${n}' for i, (n, _, _) in enumerate(vars))}) }}"


def case(key, vars, style, kind="query", **cfg):
    return {"key": key, "vars": vars, "style": style, "op": kind, "cfg": cfg}


def cases(tier):
    for t in TYPES:
        for w in WRAP:
            full = w.format(t)
            for d in (None, default_of(full)):
                for style in ("none", "snake"):
                    for kind in ("query", "mutation", "subscription"):
                        if kind != "query" and (w not in ("{}", "[{}!]!") or style == "none"):
                            continue
                        yield case(f"type:{full}:{d}:{style}:{kind}", [("fooBar", full, d)], style, kind)
    for n in NAMES:
        for style in STYLES:
            for t, d in (("Int!", None), ("String", None), ("In", "{a: 1}")) if tier == "quick" else KINDS:
                for pop in (False, True):
                    yield case(f"name:{n}:{t}:{d}:{style}:{pop}", [(n, t, d), ("other", "Int", None)], style, pop=pop)
    for (a, b) in itertools.product(KINDS, repeat=2):
        yield case(f"pair:{a}:{b}", [("fooBar", *a), ("class", *b)], "snake")
    for v in (("arguments_bases",), ):
        yield case("bases", [("fooBar", "Int!", None), ("b", "In", None)], "none", bases=True)
    for a, b in itertools.permutations(["fooBar", "foo_bar", "FooBar", "from", "from_"], 2):
        yield case(f"collide:{a}:{b}", [(a, "Int!", None), (b, "Int", None)], "none")
    if tier == "thorough":
        for c in itertools.product(KINDS, repeat=3):
            yield case(f"triple:{c}", [("fooBar", *c[0]), ("class", *c[1]), ("x", *c[2])], "snake")


def run(case, st):
    vars = [tuple(v) for v in case["vars"]]
    opcfg = {}
    if case["cfg"].get("pop"):
        opcfg["arguments_allow_population_by_field_name"] = True
    if case["cfg"].get("bases"):
        opcfg["arguments_bases"] = ["pydantic.BaseModel"]
    cfg = client_config(["enums", "inputs", "fragments", ("operations", opcfg)], style=STYLES[case["style"]],
                        scalar_definitions={"Date": "datetime.date", "JSON": "typing.Any"})
    st.programs += 1
    return with_module(sdl_for(vars), doc_for(vars, case["op"]), cfg, lambda m, s, u: judge(m, s, u, vars, case, st))


def options(t, d, multi):
    g = good(t)
    if multi:
        nn = [x for x in g if x is not None]
        g = nn[:2] + ([None] if None in g else [])
    req = isinstance(t, GraphQLNonNull) and d is None
    return ([] if req else [OMIT]) + g


def judge(mod, schema, user, vars, case, st):
    cls = operations_of(mod).get("Get")
    if cls is None or not hasattr(cls, "Arguments"):
        return [("missing", "no argument model")]
    A = cls.Arguments
    op = user.ops["Get"]
    types = [type_from_ast(schema, v.type) for v in op.variable_definitions]
    problems = []
    multi = len(vars) > 1
    opts = [options(t, d, multi) for t, (n, _, d) in zip(types, vars)]
    st.states += 1
    for combo in itertools.product(*opts):
        given = {n: v for (n, _, _), v in zip(vars, combo) if v is not OMIT}
        st.states += 1
        st.transitions += 1
        st.traces += 1
        problems += legal_case(A, schema, op, given, st)
        if case["cfg"].get("pop"):
            names = {(f.alias or n): n for n, f in A.model_fields.items()}
            problems += legal_case(A, schema, op, given, st, build={names.get(k, k): v for k, v in given.items()})
        if len(problems) > 3:
            return problems
    base = {n: next(x for x in o if x is not OMIT) for (n, _, _), o in zip(vars, opts)}
    for (n, _, d), t in zip(vars, types):
        muts = [(l, {**base, n: b}) for l, b in bad(t) if not (b is None and d is not None)]
        if isinstance(t, GraphQLNonNull) and d is None:
            muts.append(("missing required variable", {k: v for k, v in base.items() if k != n}))
        for label, m in muts:
            st.evals += 1
            try:
                o = A(**m)
            except ValidationError:
                st.outcome("refused", label)
                continue
            problems.append(("accept", f"{label} for ${n}: {t} accepted: {m!r} as {sent_of(o)!r}"))
    return problems[:4]


def sent_of(obj):
    return obj.model_dump(by_alias=True, exclude_unset=True, mode="json")


def legal_case(A, schema, op, given, st, build=None):
    try:
        obj = A(**(given if build is None else build))
    except (ValidationError, TypeError) as e:
        return [("reject", f"legal variables {given!r} refused: {str(e)[:300]}")]
    sent = sent_of(obj)
    if tojson(given) != sent:
        return [("wire", f"given {given!r}, sent {sent!r}")]
    want = get_variable_values(schema, op.variable_definitions, given)
    got = get_variable_values(schema, op.variable_definitions, sent)
    if isinstance(want, list):
        raise AssertionError(f"harness gave illegal variables {given} {want}")
    if got != want:
        return [("coerce", f"given {given!r}; server reads {got!r}, not {want!r}")]
    st.outcome(tuple(sorted((k, v is None) for k, v in given.items())))
    return []
