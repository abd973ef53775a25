"""C03: interface and union results become exactly the concrete type's model."""
import itertools
import typing

from graphql import GraphQLInterfaceType, build_schema, get_named_type, parse, validate
from pydantic import ValidationError

from ..docs import SCALARDEF, ZOO, ZOO_SCHEMA, supported
from ..explore import explore
from ..pyd import dump, tojson
from ..roundtrip import operations_of, with_module
from ..server import Doc, Responder, put
from .c01 import conf

ID = "C03"
LEVEL = "model_checking"
RULE = ("one case = one selection (ordered sequence of fields, inline fragments, object/interface/union fragments) on an "
        "abstract type in one position and configuration; a trace is one server response; at every abstract position the "
        "parsed object must be of a class dedicated to the runtime type, whose wire field names are exactly what the "
        "reference field collection gives for that type, with the same values; unknown runtime types must fall into a "
        "class with the shared fields (catch-all on) or be refused. Outcomes: distinct (runtime type, field set, class kind).")
BOUNDS = {
    "quick": "Node/Animal/Pet x all ordered selections of <=2 items (3 for Pet) x 9 positions (all for <=1 item, rotating for longer) x catch-all on/off; <=2 response deviations",
    "thorough": "all ordered selections of <=3 items x all positions x catch-all on/off; <=3 response deviations",
}
ASSUMPTIONS = ["an unknown type under an interface implements that interface and the interfaces it implements"]

FRAG = {  # fragment pool: name -> (type, body)
    "NodeF": ("Node", "name owner { id }"), "NodeG": ("Node", "id ... on Dog { color } ... on Fish { fin }"),
    "NodeS": ("Node", "...NodeF"), "AnimalF": ("Animal", "legs ... on Cat { meows }"),
    "DogF": ("Dog", "barks"), "DogG": ("Dog", "barks ...NodeF"), "CatF": ("Cat", "mood"), "FishF": ("Fish", "fin"),
    "PetF": ("Pet", "... on Dog { barks name } ... on Fish { fin }"),
}
ITEMS = {
    "Node": ["id", "name", "owner { id }", "nick: name", "... on Dog { barks }", "... on Cat { meows rival { id } }", "... on Fish { ...NodeF fin }",
             "...NodeF", "...NodeG", "...NodeS", "...DogF", "...DogG", "...AnimalF", "...FishF", "__typename"],
    "Animal": ["id", "legs", "owner { id }", "... on Dog { barks ...NodeF }", "... on Cat { meows }", "...NodeF", "...AnimalF", "...DogF", "...NodeG"],
    "Pet": ["__typename", "... on Dog { barks }", "... on Cat { meows mood }", "... on Fish { fin ...NodeF }", "...DogF", "...DogG", "...CatF",
            "...FishF", "...PetF", "...NodeF", "...AnimalF"],
}
POSITIONS = {
    "Node": ["query Get { node { %s } }", "query Get { nodes { %s } }", "query Get { me { node { %s } } }", "query Get { me { nodes { %s } } }",
             "query Get { me { ...P } } fragment P on Person { node { %s } }",
             "query Get { pet { ... on Cat { rival { %s } } } }", "query Get { animal { ... on Cat { rival { %s } } id } }",
             "query Get { a: node { %s } b: node { id } }", "subscription Get { changed { nodes { %s } } }"],
    "Animal": ["query Get { animal { %s } }", "query Get { me { animal { %s } } }", "query Get { dog { bestFriend { %s } } }",
               "query Get { node { ... on Dog { bestFriend { %s } } } }"],
    "Pet": ["query Get { pet { %s } }", "query Get { pets { %s } }", "query Get { me { pets { %s } } }", "query Get { me { pet { %s } } }",
            "query Get { dog { friend { %s } } }", "query Get { node { ... on Dog { friend { %s } } } }",
            "query Get { me { ...P } } fragment P on Person { pet { %s } }", "mutation Get { rename { pets { %s } } }"],
}


def text(pos, items):
    body = pos % " ".join(items)
    defs, todo = {}, [body]
    while todo:
        t = todo.pop()
        for n, (on, b) in FRAG.items():
            if f"...{n} " in t.replace("}", " }").replace("\n", " ") + " " and n not in defs:
                defs[n] = f"fragment {n} on {on} {{ {b} }}"
                todo.append(defs[n])
    return "\n".join([defs[n] for n in FRAG if n in defs] + [body])


def cases(tier):
    L = 2 if tier == "quick" else 3
    dev = 2 if tier == "quick" else 3
    seen = set()
    for T, items in ITEMS.items():
        n = -1
        for k in range(1, (L if T != "Pet" else 3) + 1):
            for combo in itertools.permutations(items, k):
                n += 1
                ps = POSITIONS[T]
                for j, pos in enumerate(ps):
                    if tier == "quick" and k > 1 and j != n % len(ps):
                        continue
                    d = text(pos, combo)
                    if d in seen or supported(ZOO_SCHEMA, d) or validate(ZOO_SCHEMA, parse(d)):
                        continue
                    seen.add(d)
                    for ca in (True, False):
                        if tier == "quick" and k > 1 and ca != bool((n // len(ps)) % 2):
                            continue
                        yield {"key": f"{ca}:{d}", "doc": d, "catchall": ca, "dev": dev if k < 3 else 1,
                               "style": ["snake", "none", "append", "capsnake"][n % 4]}
    # response keys that read like the Python names of the generator's own members
    for key in ("typename", "Meta", "model_config", "CatchAll", "Literal"):
        for ca in (True, False):
            for T, pos in (("Node", "query Get { node { %s } }"), ("Pet", "query Get { pet { ... on Dog { %s } ... on Cat { mood } } }"),
                           ("dog", "query Get { dog { %s } }")):
                yield {"key": f"probe:{key}:{T}:{ca}", "doc": pos % f"{key}: name", "catchall": ca, "dev": 1, "style": "snake"}


class Unknown(Responder):
    """As Responder; additionally records, per abstract position, what it selected."""

    def __init__(self, *a):
        super().__init__(*a)
        self.at = []

    def nonnull(self, t, subs, path, nullable):
        r = super().nonnull(t, subs, path, nullable)
        from graphql import is_abstract_type
        if is_abstract_type(t):
            self.at.append((path, t, subs))
        return r


def py_at(obj, path):
    for p in path:
        if isinstance(p, int):
            obj = obj[p]
        else:
            obj = getattr(obj, attr_of(type(obj), p))
    return obj


def attr_of(cls, wire):
    for n, f in cls.model_fields.items():
        if (f.alias or n) == wire:
            return n
    raise KeyError(wire)


def wire_names(cls):
    return {f.alias or n for n, f in cls.model_fields.items()}


def run(case, st):
    st.programs += 1
    cfg = conf(case["style"], create_catchall=case["catchall"])
    return with_module(ZOO, case["doc"], cfg, lambda *a: judge(case, st, *a))


def judge(case, st, mod, schema, user):
    problems = []
    cls = operations_of(mod).get("Get")
    if cls is None:
        return [("missing", "no class for the operation")]
    sent = Doc(schema, cls.Meta.document)
    class_of = {}

    def go(ch):
        r = Unknown(schema, sent, ch)
        return r.respond(sent.ops["Get"]), r

    done = set()
    for (resp, r), ch in explore(go, case["dev"], st, 3000):
        try:
            obj = cls.model_validate(resp)
        except ValidationError as e:
            return [("reject", f"valid response rejected {resp!r}: {str(e)[:300]}")]
        if dump(obj) != tojson(resp):
            problems.append(("lossy", f"{resp!r} read back as {dump(obj)!r}"))
        for path, t, subs in r.at:
            data = resp
            for p in path:
                data = data[p]
            rt = schema.type_map[data["__typename"]]
            o = py_at(obj, path)
            c = type(o)
            # what the USER selected for that type, plus the discriminator
            fields = {}
            for s in subs:
                sent.collect(rt, s, fields, set())
            want = set(fields) | {"__typename"}
            if wire_names(c) != want:
                problems.append(("fields", f"{rt.name} at {path} is read into {c.__name__} with fields {sorted(wire_names(c))}, selected: {sorted(want)}"))
            ann = c.model_fields[attr_of(c, "__typename")].annotation
            if typing.get_args(ann) != (rt.name,):
                problems.append(("class", f"{rt.name} at {path} is read into {c.__name__}, which is not dedicated to that type ({ann})"))
            if class_of.setdefault(c, rt.name) != rt.name:
                problems.append(("class", f"{c.__name__} is used for {class_of[c]} and {rt.name}"))
            st.outcome(rt.name, tuple(sorted(want)), "known")
            # unknown runtime type in that place
            k = (tuple(x if isinstance(x, str) else 0 for x in path), tuple(sorted(want)))
            if k in done:
                continue
            done.add(k)
            st.evals += 1
            problems += unknown(case, cls, sent, schema, resp, path, t, subs, st)
        if problems:
            break
    return problems[:4]


def shared(sent, schema, t, subs):
    """response keys an unknown implementation of t is asked for"""
    out = {}

    def applies(cond):
        c = schema.type_map[cond]
        return c is t or (isinstance(c, GraphQLInterfaceType) and schema.is_sub_type(c, t))

    def walk(selset):
        for s in selset.selections:
            if s.kind == "field":
                out.setdefault(s.alias.value if s.alias else s.name.value, s)
            elif s.kind == "inline_fragment":
                if applies(s.type_condition.name.value):
                    walk(s.selection_set)
            else:
                f = sent.frags[s.name.value]
                if applies(f.type_condition.name.value):
                    walk(f.selection_set)

    for s in subs:
        walk(s)
    return out


def unknown(case, cls, sent, schema, resp, path, t, subs, st):
    data = {}
    if isinstance(t, GraphQLInterfaceType):
        for k, node in shared(sent, schema, t, subs).items():
            if node.name.value == "__typename":
                data[k] = "Martian"
            else:
                from ..explore import Chooser
                sub = [node.selection_set] if node.selection_set else []
                data[k] = Responder(schema, sent, Chooser()).value(t.fields[node.name.value].type, sub, ())
    data["__typename"] = "Martian"
    bad = put(resp, path, data)
    # the catch-all is a feature of interfaces; below another catch-all the outer one may answer
    expect_ok = case["catchall"] and isinstance(t, GraphQLInterfaceType)
    try:
        obj = cls.model_validate(bad)
    except ValidationError as e:
        st.outcome("unknown", str(t), "refused")
        if expect_ok:
            return [("catchall", f"unknown type at {path} refused although the catch-all is on: {bad!r}: {str(e)[:300]}")]
        return []
    if not expect_ok:
        if case["catchall"] and nested_in_interface(sent, schema, resp, path):
            return []
        return [("unknown", f"unknown type at {path} accepted: {bad!r} as {dump(obj)!r}")]
    if dump(obj) != tojson(bad):
        return [("catchall", f"unknown type at {path} loses data: {bad!r} read back as {dump(obj)!r}")]
    c = type(py_at(obj, path))
    if wire_names(c) != set(data):
        return [("catchall", f"the catch-all at {path} has fields {sorted(wire_names(c))}, expected {sorted(data)}")]
    st.outcome("unknown", str(t), tuple(sorted(data)))
    return []


def nested_in_interface(sent, schema, resp, path):
    """Is some proper prefix of path an object read through an interface (whose catch-all may take over)?"""
    cur = resp
    for p in path[:-1]:
        cur = cur[p]
        if isinstance(cur, dict) and "__typename" in cur:
            return True
    return False
