"""C13: styling renames Python names only, never what goes over the wire."""
import inspect
import itertools
import typing

from pydantic import BaseModel

from .. import proxies
from ..inputs import OMIT, good
from ..pyd import dump, tojson
from ..roundtrip import negatives, operations_of, positives, schema_of
from ..server import Doc
from ..turmsio import GenFailed, LoadFailed, client_config, generate, loaded
from .c08 import probe

ID = "C13"
LEVEL = "model_checking"
RULE = ("one case = one sequence of stylers on one project, or one pair of names the stylers may bring together, in one place. A state is "
        "one pair of corresponding classes of the styled and the unstyled module (same wire names, annotations, defaults and documents "
        "in the same order, one class for one class); a trace is one response or variable assignment that both must treat alike. Outcomes: "
        "distinct classes and verdicts.")
BOUNDS = {
    "quick": "all sequences of up to 2 of 9 stylers (4 shipped, 5 user-defined), 3 projects; 22 pairs of meeting names x 19 places x 7 styler sequences",
    "thorough": "all sequences of up to 3 of 9 stylers, 3 projects; the pairs and places with every sequence of up to 2",
}
STYLERS = ["default", "capitalize", "snake", "appender", "mc.stylers.Shout", "mc.stylers.Whisper", "mc.stylers.Prefix", "mc.stylers.Under", "mc.stylers.Camel"]

SDL = '''directive @oneOf on INPUT_OBJECT scalar Date
"""an enum""" enum color { RED from greenIsh None }
enum URLKind { HTTP https }
input filterIn { fooBar: Int! = 3 URLPath: String from: color = RED kind: [URLKind!] nested: filterIn class: Date x1Y2: [[Int]] _under: Int aB: Int }
input OtherInput { must: filterIn! opt: String }
input pickOne @oneOf { byId: ID byFooBar: filterIn from: Int }
interface nodeLike { nodeId: ID! displayName: String }
interface Sub implements nodeLike { nodeId: ID! displayName: String subField: Int! }
type userThing implements nodeLike { nodeId: ID! displayName: String fooBar: Int! URLPath: String class: color from: Int createdAt: Date friend: userThing likes: [anyThing!]! self: userThing! }
type Organisation implements nodeLike & Sub { nodeId: ID! displayName: String subField: Int! memberCount: Int! members(firstN: Int, kind: URLKind = HTTP): [userThing!] }
union anyThing = userThing | Organisation
type Query { getUser(userId: ID!, withFilter: filterIn): userThing allNodes(after: color): [nodeLike!]! search(q: String!, one: pickOne): [anyThing] httpURL: String }
type Mutation { updateUser(input: OtherInput!): userThing! do(from: Int): Int }
type Subscription { userChanged(id: ID): userThing }'''
DOCS = '''query getUser($userId: ID!, $withFilter: filterIn, $from: Int = 3) { getUser(userId: $userId, withFilter: $withFilter) { ...userBits fooBar aliasedName: displayName friend { from class self { ...userBits } } likes { ... on userThing { nodeId } ... on Organisation { memberCount members(firstN: $from) { nodeId } } } } }
fragment userBits on userThing { nodeId URLPath createdAt pal: friend { fooBar } }
query AllNodes($after: color) { allNodes(after: $after) { nodeId displayName ... on userThing { fooBar ...userBits } ... on Organisation { ...org memberCount } } httpURL }
fragment org on Organisation { memberCount subField members { nodeId from } }
fragment anyNode on nodeLike { nodeId ... on userThing { from } }
query searchAll($q: String!, $one: pickOne) { search(q: $q, one: $one) { ... on userThing { fooBar } ... on Organisation { subField } } nodes: allNodes { ...anyNode } }
mutation updateUser($input: OtherInput!) { updateUser(input: $input) { ...userBits } }
mutation DoIt($from: Int) { do(from: $from) }
subscription onUser($id: ID) { userChanged(id: $id) { nodeId class } }'''
FUNCS = ("funcs", {"definitions": proxies.definitions(), "prepend_async": "a_", "prepend_sync": ""})
PROJECTS = {"client": ["enums", ("inputs", {"skip_underscore": False}), "fragments", "operations", FUNCS],
            "factory": [("enums", {"skip_unreferenced": False}), ("inputs", {"skip_unreferenced": False}), "input_funcs", "fragments", "operations", FUNCS],
            "objects": [("enums", {"skip_unreferenced": False}), ("inputs", {"skip_unreferenced": False}), "objects"]}

MEET = [("fooBar", "foo_bar"), ("foo_bar", "fooBar"), ("FooBar", "fooBar"), ("fooBar", "FooBar"), ("foo_Bar", "fooBar"), ("from", "from_"), ("from_", "from"), ("class", "class_"), ("a", "A"), ("A", "a"),
        ("ID", "id"), ("_a", "a_"), ("a_", "_a"), ("a", "_a"), ("typename", "typename_"), ("copy", "copy_"), ("URL", "url"), ("xY", "x_y"), ("json", "json_"), ("x_a", "a"), ("None", "none"), ("From", "from")]
PLACES = ["field", "root", "fragment", "alias", "interface", "inline", "union", "spread", "leaf", "input", "oneof", "variables", "enums", "inputs", "enuminput", "objects", "operations", "fragments", "nested"]
MEETSTYLES = [(), ("snake",), ("default",), ("capitalize", "snake"), ("mc.stylers.Shout",), ("mc.stylers.Whisper",), ("mc.stylers.Prefix", "default")]


def cases(tier):
    n = 2 if tier == "quick" else 3
    for k in range(1, n + 1):
        for seq in itertools.product(STYLERS, repeat=k):
            for p in PROJECTS:
                yield {"key": f"seq:{p}:{'+'.join(seq)}", "kind": "seq", "project": p, "style": seq}
    styles = MEETSTYLES if tier == "quick" else MEETSTYLES + [s for k in (1, 2) for s in itertools.product(STYLERS, repeat=k) if s not in MEETSTYLES]
    for (a, b), place, style in itertools.product(MEET, PLACES, styles):
        if place in ("inputs", "enums", "enuminput", "objects") and "ID" in (a, b):
            continue  # ID is a scalar already
        if place in ("interface", "inline") and "typename" in (a, b):
            continue  # a recorded limitation of interfaces (C03), with or without stylers
        yield {"key": f"meet:{place}:{a}:{b}:{'+'.join(style)}", "kind": "meet", "place": place, "names": [a, b], "style": style}


def run(case, st):
    st.programs += 1
    return list(itertools.islice(globals()["run_" + case["kind"]](case, st), 4))


# ---- whole projects: styled and unstyled modules correspond class for class

def build(plugs, style, sdl=SDL, docs=DOCS):
    return generate(sdl, docs, client_config(plugs, style, scalar_definitions={"Date": "datetime.date"}, create_catchall=False))


def run_seq(case, st):
    docs = None if case["project"] == "objects" else DOCS
    try:
        with loaded(build(PROJECTS[case["project"]], (), docs=docs)) as plain, loaded(build(PROJECTS[case["project"]], case["style"], docs=docs)) as styled:
            yield from correspond(plain, styled, st)
            if docs:
                schema = schema_of(SDL)
                yield from positives(styled, schema, Doc(schema, DOCS), st, 1, 60)
                yield from negatives(styled, schema, Doc(schema, DOCS), st, 0)
    except GenFailed as e:
        # user-defined stylers may well give two types one name: that is refused, and never silent
        if "would both be generated as" in str(e):
            yield "refused", f"{case['style']}: {e}"
        else:
            yield "generate", str(e)[:300]
    except LoadFailed as e:
        yield "load", str(e)[:300]


def functions(mod):
    return {k: v for k, v in vars(mod).items() if inspect.isfunction(v) and v.__module__ == mod.__name__}


def own(mod):
    return [v for v in vars(mod).values() if isinstance(v, type) and v.__module__ == mod.__name__]


def correspond(plain, styled, st):
    a, b = operations_of(plain), operations_of(styled)
    if set(a) != set(b):
        yield "operations", f"{sorted(a)} without and {sorted(b)} with stylers"
        return
    ca, cb = own(plain), own(styled)
    if len(set(ca)) != len(set(cb)):
        yield "classes", f"{len(set(ca))} classes without and {len(set(cb))} with stylers"
        return
    pairs, todo, out = {}, [], []

    def pair(x, y, where):
        if pairs.get(x, y) is not y or (y in pairs.values() and x not in pairs):
            out.append(("classes", f"{where}: {x.__name__} corresponds to {y.__name__} and {pairs.get(x)}"))
        elif x not in pairs:
            pairs[x] = y
            todo.append((x, y))

    for n in a:
        pair(a[n], b[n], n)
    # what no operation reaches corresponds by position
    for x, y in zip(ca, cb):
        if x.__name__ not in ("Meta",) and x not in pairs and y not in pairs.values():
            todo.append((x, y)) if False else None
    while todo or True:
        while todo and not out:
            x, y = todo.pop()
            st.states += 1
            st.transitions += 1
            out += compare(x, y, plain, styled, pair)
            st.outcome(x.__name__)
        rest = [x for x in ca if x not in pairs]
        other = [y for y in cb if y not in pairs.values()]
        if out or not rest:
            break
        pair(rest[0], other[0], "by position")
    yield from out
    fa, fb = functions(plain), functions(styled)
    if len(fa) != len(fb):
        yield "functions", f"{sorted(fa)} without and {sorted(fb)} with stylers"
    elif not out:
        proxies.ANSWER[0] = None
        calls = []
        for fns, key in ((fa, lambda c: pairs[c]), (fb, lambda c: c)):
            found = {}
            for f in fns.values():
                if not any(p for p in f.__annotations__) or "return" not in f.__annotations__:
                    continue
                try:
                    answer = type("Answer", (), {"__getattr__": lambda s, n: n})
                    proxies.ANSWER[0] = lambda op: [answer(), answer()]
                    who, cls, where, *_ = probe(f)
                except (IndexError, StopIteration, AssertionError, TypeError, ValueError, KeyError):
                    continue  # input factories do not call a proxy
                found[who, key(cls)] = set(where)
                st.traces += 1
            calls.append(found)
        if calls[0] != calls[1]:
            yield "functions", f"{calls[0]} without and {calls[1]} with stylers"


def compare(x, y, plain, styled, pair):
    where = f"{x.__name__}/{y.__name__}"
    if hasattr(x, "__members__"):
        if [m.value for m in x] != [m.value for m in y]:
            yield "enum", f"{where}: {list(x)} and {list(y)}"
        return
    if not issubclass(x, BaseModel):
        xs, ys = ({k: v for k, v in vars(c).items() if isinstance(v, (str, int, dict, list)) and not k.startswith("__")} for c in (x, y))
        if xs != ys:
            yield "attributes", f"{where}: {xs} and {ys}"
        return
    if {k: v for k, v in x.model_config.items()} != {k: v for k, v in y.model_config.items()}:
        yield "config", f"{where}: {x.model_config} and {y.model_config}"
    fx = [(f.alias or n, f) for n, f in x.model_fields.items()]
    fy = [(f.alias or n, f) for n, f in y.model_fields.items()]
    if [n for n, _ in fx] != [n for n, _ in fy]:
        yield "fields", f"{where}: {[n for n, _ in fx]} and {[n for n, _ in fy]}"
        return
    for (n, f), (_, g) in zip(fx, fy):
        if not same(f.annotation, g.annotation, lambda p, q: pair(p, q, f"{where}.{n}")) or f.is_required() != g.is_required() or repr(f.default) != repr(g.default):
            yield "field", f"{where}.{n}: {f!r} and {g!r}"
    for inner in ("Meta", "Arguments"):
        p, q = x.__dict__.get(inner), y.__dict__.get(inner)
        if (p is None) != (q is None):
            yield "inner", f"{where}: {inner}"
        elif p is not None:
            pair(p, q, f"{where}.{inner}")
    for p, q in zip([c for c in x.__mro__[1:] if c.__module__ == plain.__name__], [c for c in y.__mro__[1:] if c.__module__ == styled.__name__]):
        pair(p, q, f"{where} bases")


def same(p, q, pair):
    if isinstance(p, type) and isinstance(q, type) and typing.get_origin(p) is None:
        if p.__module__.startswith("turmsmc_gen") and q.__module__.startswith("turmsmc_gen"):
            pair(p, q)
            return True
        return p is q
    if typing.get_origin(p) is not typing.get_origin(q):
        return False
    if typing.get_origin(p) is None:
        return p == q or repr(p) == repr(q)
    ap, aq = typing.get_args(p), typing.get_args(q)
    return len(ap) == len(aq) and all(same(m, n, pair) for m, n in zip(ap, aq))


# ---- names that meet

def project(place, a, b):
    """-> (sdl, docs, plugins, [(operation or class, responses)], [(operation, variables)])"""
    base = "directive @oneOf on INPUT_OBJECT scalar Date "
    T = f"type T implements I {{ {a}: Int! {b}: String! t: T u: U i: I }} type S implements I {{ {a}: Int! {b}: String! o: Int }} interface I {{ {a}: Int! {b}: String! }} union U = T | S "
    both = f"{a} {b}"
    val = {a: 1, b: "two"}
    tv = {"__typename": "T", **val}
    Q = "type Query { t: T i: I u: U n: Int } "
    if place == "field":
        return base + T + Q, f"query Go {{ t {{ {both} t {{ {both} }} }} }}", [{"t": {**tv, "t": tv}}], []
    if place == "alias":
        return base + T + Q, f"query Go {{ t {{ {a}: {b} {b}: t {{ {a} }} }} }}", [{"t": {"__typename": "T", a: "x", b: {"__typename": "T", a: 1}}}], []
    if place == "root":
        return base + f"type Query {{ {a}: Int! {b}: String! }}", f"query Go {{ {both} }}", [val], []
    if place == "fragment":
        return base + T + Q, f"query Go {{ t {{ ...F }} }} fragment F on T {{ {both} }}", [{"t": tv}], []
    if place == "spread":
        return base + T + Q, f"query Go {{ t {{ {a} ...F }} }} fragment F on T {{ {b} }}", [{"t": tv}], []
    if place == "interface":
        return base + T + Q, f"query Go {{ i {{ {both} }} }}", [{"i": tv}, {"i": {**tv, "__typename": "S"}}], []
    if place == "inline":
        return base + T + Q, f"query Go {{ i {{ {a} ... on T {{ {b} }} }} }}", [{"i": tv}, {"i": {"__typename": "S", a: 1}}], []
    if place == "union":
        return base + T + Q, f"query Go {{ u {{ ... on T {{ {both} }} ... on S {{ o {b} }} }} }}", [{"u": tv}, {"u": {"__typename": "S", "o": 1, b: "y"}}], []
    if place == "leaf":  # the classes of nested selections are named after the fields
        return base + f"type X {{ p: Int! }} type Y {{ q: String! }} type T {{ {a}: X! {b}: Y! }} type Query {{ t: T }}", f"query Go {{ t {{ {a} {{ p }} {b} {{ q }} }} }}", \
            [{"t": {"__typename": "T", a: {"__typename": "X", "p": 1}, b: {"__typename": "Y", "q": "z"}}}], []
    if place == "nested":  # Get > fooBar > x and Get > foo > barX
        return base + "type X { p: Int! y: X } type Y { q: String! } type T { x: X! } type W { barX: Y! bar: T! } type Query { " + f"{a}: T! {b}: W! }}", f"query Go {{ {a} {{ x {{ p }} }} {b} {{ barX {{ q }} bar {{ x {{ p y {{ p }} }} }} }} }}", \
            [{a: {"__typename": "T", "x": {"__typename": "X", "p": 1}}, b: {"__typename": "W", "barX": {"__typename": "Y", "q": "z"}, "bar": {"__typename": "T", "x": {"__typename": "X", "p": 1, "y": {"__typename": "X", "p": 2}}}}}], []
    if place == "input":
        return base + f"input In {{ {a}: Int! {b}: String! n: In }} type Query {{ q(i: In): Int }}", "query Go($i: In) { q(i: $i) }", [], [{"i": val}, {"i": {**val, "n": val}}]
    if place == "oneof":
        return base + f"input In @oneOf {{ {a}: Int {b}: String }} type Query {{ q(i: In): Int }}", "query Go($i: In) { q(i: $i) }", [], [{"i": {a: 1}}, {"i": {b: "x"}}]
    if place == "variables":
        return base + "type Query { q(a: Int!, b: String): Int }", f"query Go(${a}: Int!, ${b}: String) {{ q(a: ${a}, b: ${b}) }}", [], [val, {a: 1}, {a: 1, b: None}]
    if place == "enums":
        return base + f"enum {a} {{ X Y }} enum {b} {{ Y Z }} type Query {{ q(i: {a}, j: {b}): Int }}", f"query Go($i: {a}, $j: {b}) {{ q(i: $i, j: $j) }}", [], [{"i": "X", "j": "Z"}]
    if place == "inputs":
        return base + f"input {a} {{ x: Int! }} input {b} {{ y: Int! }} type Query {{ q(i: {a}, j: {b}): Int }}", f"query Go($i: {a}, $j: {b}) {{ q(i: $i, j: $j) }}", [], [{"i": {"x": 1}, "j": {"y": 2}}]
    if place == "enuminput":
        return base + f"enum {a} {{ X Y }} input {b} {{ y: Int! }} type Query {{ q(i: {a}, j: {b}): Int }}", f"query Go($i: {a}, $j: {b}) {{ q(i: $i, j: $j) }}", [], [{"i": "X", "j": {"y": 2}}]
    if place == "fragments":
        return base + "type T { x: Int! y: Int! } type Query { t: T s: T }", f"query Go {{ t {{ ...{a} }} s {{ ...{b} }} }} fragment {a} on T {{ x }} fragment {b} on T {{ y }}", \
            [{"t": {"__typename": "T", "x": 1}, "s": {"__typename": "T", "y": 2}}], []


def run_meet(case, st):
    a, b = case["names"]
    place = case["place"]
    if place == "objects":
        yield from meet_objects(case, st)
        return
    if place == "operations":
        yield from meet_operations(case, st)
        return
    sdl, docs, responses, variables = project(place, a, b)
    try:
        code = build(["enums", ("inputs", {"skip_underscore": False}), "fragments", "operations", FUNCS], case["style"], sdl, docs)
        with loaded(code) as mod:
            cls = operations_of(mod)["Go"]
            for r in responses:
                st.states += 1
                st.traces += 1
                st.transitions += 1
                got = dump(cls.model_validate(r))
                if got != r:
                    yield "lossy", f"{r} became {got}"
            for v in variables:
                st.states += 1
                st.traces += 1
                st.transitions += 1
                got = dump(cls.Arguments.model_validate(v), exclude_unset=True)
                if got != v:
                    yield "lossy", f"variables {v} became {got}"
            for f in functions(mod).values():
                st.transitions += 1
                answer = type("Answer", (), {"__getattr__": lambda s, n: n})
                proxies.ANSWER[0] = lambda op: [answer(), answer()]
                where = probe(f)[2]
                want = {x for v in variables for x in v}
                if set(where) != want or len(set(where.values())) != len(want):
                    yield "function", f"{f.__name__} forwards {where}, the variables are {sorted(want)}"
            st.outcome(place, "kept")
    except GenFailed as e:
        yield from refused(e, place, st)
    except LoadFailed as e:
        yield "load", f"{e}"


def refused(e, place, st):
    """Stylers that bring two names together may be refused, if the error says so."""
    if "would both be" in str(e) or (place == "oneof" and "already taken by another type" in str(e)):
        st.outcome(place, "refused")
    else:
        yield "generate", str(e)[:300]


def meet_objects(case, st):
    a, b = case["names"]
    sdl = f"type {a} {{ x: Int! o: {b} {a}: Int! {b}: String! }} type {b} {{ y: Int! o: {a} }} type Query {{ a: {a} b: {b} }}"
    try:
        with loaded(build([("enums", {"skip_unreferenced": False}), "inputs", ("objects", {"skip_underscore": False})], case["style"], sdl, None)) as mod:
            shapes = {}
            for c in own(mod):
                if issubclass(c, BaseModel):
                    shapes[frozenset(f.alias or n for n, f in c.model_fields.items()) - {"__typename"}] = c
            for want, data in (({"x", "o", a, b}, {"x": 1, a: 1, b: "s", "o": {"y": 1, "o": None}}), ({"y", "o"}, {"y": 1, "o": {"x": 2, "o": None, a: 1, b: "s"}})):
                st.states += 1
                st.traces += 1
                st.transitions += 1
                if frozenset(want) not in shapes:
                    yield "missing", f"no model with the fields {sorted(want)}: {[sorted(s) for s in shapes]}"
                    continue
                got = dump(shapes[frozenset(want)].model_validate(data), exclude_unset=True)
                if got != data:
                    yield "lossy", f"{data} became {got}"
            st.outcome("objects", "kept")
    except GenFailed as e:
        yield from refused(e, "objects", st)
    except LoadFailed as e:
        yield "load", f"{e}"


def meet_operations(case, st):
    a, b = case["names"]
    sdl = "type Query { x: Int! y: Int! } type Mutation { x: Int! y: Int! }"
    for docs in (f"query {a} {{ x }} query {b} {{ y }}", f"query {a} {{ x }} mutation {b} {{ y }}"):
        try:
            with loaded(build(["enums", ("inputs", {"skip_underscore": False}), "fragments", "operations", FUNCS], case["style"], sdl, docs)) as mod:
                ops = operations_of(mod)
                st.states += 1
                st.traces += 1
                st.transitions += 1
                if set(ops) != {a, b} or len(functions(mod)) != 4:
                    yield "missing", f"operations {sorted(ops)} and functions {sorted(functions(mod))} for {docs}"
                else:
                    for n, r in ((a, {"x": 1}), (b, {"y": 2})):
                        if dump(ops[n].model_validate(r)) != r:
                            yield "lossy", f"{n}: {r}"
                    if {probe(f)[1].Meta.document for f in functions(mod).values()} != {o.Meta.document for o in ops.values()}:
                        yield "function", f"{sorted(functions(mod))}"
                st.outcome("operations", "kept")
        except GenFailed as e:
            yield from refused(e, "operations", st)
        except LoadFailed as e:
            yield "load", f"{e}"
