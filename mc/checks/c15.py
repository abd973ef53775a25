"""C15: configured bases and traits are inherited by every class of their type."""
import itertools

from graphql import (FieldNode, FragmentSpreadNode, GraphQLInputObjectType, GraphQLInterfaceType, GraphQLList, GraphQLNonNull,
                     GraphQLObjectType, GraphQLUnionType, InlineFragmentNode, parse, validate)
from pydantic import BaseModel, ValidationError

from .. import bases
from ..docs import SCALARDEF, ZOO, ZOO_SCHEMA, supported
from ..explore import explore
from ..inputs import legal, objects
from ..objects import ObjectMaker
from ..pyd import dump, tojson
from ..roundtrip import operations_of, schema_module, schema_of, with_module
from ..server import Doc, put
from ..turmsio import PLUG, client_config
from .c01 import STYLES
from .c06 import class_for
from .c14 import DOCS as PLACES, INPUTS, OBJS, OQUERY, QUERY, Walk, at, get, one, types_in

ID = "C15"
LEVEL = "model_checking"
RULE = ("one case = one document (or set of input or object types) under one assignment of base classes (global, per kind, per GraphQL type); a "
        "trace is one response (or value, or response with an unknown concrete type); the class of every object read must have every base configured for "
        "its kind, its GraphQL type, the interface of its place and the fragments spread there among its ancestors, and no configured base that belongs to "
        "none of those. The module must import. Outcomes: distinct (place kind, type, configured ancestors).")
BOUNDS = {
    "quick": "26 places a class can come from x every list of <=2 traits (plain class, subclass of another trait, model, the global base itself) for each type that occurs, plus rotating "
             "second types; all ordered selections of <=3 of 6 fragments (object, interface, sub-interface, spreading one another) in 4 places x 6 trait assignments; "
             "global / interface / operation / fragment / arguments / input / object bases in all combinations",
    "thorough": "as quick with all pairs of types and all trait assignments",
}
ASSUMPTIONS = ["trait lists whose orders contradict one another are the user's mistake (python cannot linearise them)",
               "a type's own interfaces' traits may or may not reach a selection that does not go through the interface"]

TRAITS = ["Loud", "Furry", "Sub", "Vocal", "BRoot"]
B = "mc.bases."

FRAGS = {
    "D": "fragment D on Dog { barks }", "E": "fragment E on Dog { color ...D }",
    "N": "fragment N on Node { id }", "M": "fragment M on Node { name ...N ... on Dog { ...D } }",
    "A": "fragment A on Animal { legs ...N }", "P": "fragment P on Dog { legs ...M }",
}
HOSTS = {"dog": "query Get { dog { %s } }", "node": "query Get { node { %s } }", "animal": "query Get { animal { %s } }",
         "pet": "query Get { pet { ... on Dog { %s } ... on Fish { fin } } }", "both": "query Get { node { ... on Dog { %s } id } }"}
ASSIGN = [{"Dog": ["Loud"], "Node": ["Furry"]}, {"Dog": ["Loud"], "Node": ["Loud"], "Animal": ["Loud"]}, {"Dog": ["Sub"]},
          {"Dog": ["Loud", "Furry"], "Node": ["Loud"], "Animal": ["Furry"]}, {"Animal": ["Vocal", "Loud"], "Dog": ["Vocal"], "Node": ["Vocal"]},
          {"Node": ["BRoot", "Furry"], "Dog": ["Furry"]}]


def text(host, names):
    body = HOSTS[host] % " ".join("..." + n for n in names)
    need, todo = {}, list(names)
    while todo:
        n = todo.pop()
        if n not in need:
            need[n] = 1
            todo += [m for m in FRAGS if f"...{m} " in FRAGS[n]]
    return "\n".join([FRAGS[n] for n in FRAGS if n in need] + [body])


def consistent(assign, extra=()):
    """whether one order of all traits agrees with every list (a subclass comes before its base)"""
    below = {("Sub", "Loud")} | {(a, b) for l in assign.values() for a, b in zip(l, l[1:])}
    if len(assign) > 1 and any("Sub" in l for l in assign.values()) and any("Loud" in l for l in assign.values()):
        # a subclass and its base on different types: only the subclass on the more specific one agrees with a type's own traits coming first
        if any(len(l) > 1 for l in assign.values()) or any(l == ["Sub"] and t in ("Node", "Animal", "N") for t, l in assign.items()):
            return False
    if any("BRoot" in l for l in assign.values()) and "GRoot" in extra:
        return False
    todo = set(TRAITS)
    while todo:
        free = [t for t in todo if not any((o, t) in below for o in todo)]
        if not free:
            return False
        todo -= set(free)
    return True


LISTS = [[t] for t in TRAITS] + [list(p) for p in itertools.permutations(TRAITS, 2)]


def cases(tier):
    deep = tier == "thorough"
    fams = [("doc", n) for n in PLACES] + [("input", n) for n in INPUTS] + [("object", n) for n in OBJS]
    n = 0
    for fam, name in fams:
        _, types = types_in(fam, name)
        for t in types:
            for l in LISTS:
                n += 1
                a = {t: l}
                if consistent(a):
                    yield case(fam, name, {}, a, n)
        for t, u in itertools.permutations(types, 2):
            for l, m in itertools.product(LISTS, repeat=2):
                n += 1
                if (deep and n % 5 == 0 or n % 67 == 0) and consistent({t: l, u: m}):
                    yield case(fam, name, {}, {t: l, u: m}, n)
        for b in BASES:
            yield case(fam, name, b, {}, n)
            for t in types:
                n += 1
                yield case(fam, name, b, {t: [TRAITS[n % 5]]} if consistent({t: [TRAITS[n % 5]]}, str(b)) else {t: ["Loud"]}, n)
    seen = set()
    for host in HOSTS:
        for k in (1, 2, 3):
            for names in itertools.permutations(FRAGS, k):
                d = text(host, names)
                if d in seen or validate(ZOO_SCHEMA, parse(d)) or supported(ZOO_SCHEMA, d):
                    continue
                seen.add(d)
                for a in ASSIGN:
                    n += 1
                    if not deep and k == 3 and n % 2:
                        continue
                    yield {**case("text", d, {}, a, n), "key": f"{d}:{a}"}


BASES = [{"object_bases": ["BRoot"]}, {"object_bases": ["Loud", "BRoot"]}, {"interface_bases": ["IRoot"]}, {"object_bases": ["BRoot"], "interface_bases": ["Furry", "IRoot"]},
         {"query_bases": ["QRoot"]}, {"mutation_bases": ["QRoot"]}, {"subscription_bases": ["QRoot"]}, {"fragment_bases": ["FRoot"]},
         {"fragment_object_bases": ["FRoot"]}, {"arguments_bases": ["FRoot"]}, {"inputtype_bases": ["BRoot"]}, {"types_bases": ["Furry", "BRoot"]},
         {"object_bases": ["GRoot"], "fragment_bases": ["Furry"], "query_bases": ["Loud", "QRoot"], "arguments_bases": ["IRoot"], "interface_bases": ["IRoot"]}]


def case(fam, name, b, assign, n):
    return {"key": f"{fam}:{name}:{b}:{assign}", "fam": fam, "name": name, "bases": b, "assign": assign, "style": ["none", "snake", "append"][n % 3],
            "catchall": n % 4 != 0}


def config(case, plugs):
    b = case["bases"]
    q = lambda l: [B + x for x in l]
    ex = {"operations": {k: q(b[k]) for k in ("query_bases", "mutation_bases", "subscription_bases", "arguments_bases") if k in b},
          "fragments": {**({"fragment_bases": q(b["fragment_bases"])} if "fragment_bases" in b else {}),
                        **({"object_bases": q(b["fragment_object_bases"])} if "fragment_object_bases" in b else {})},
          "inputs": {k: q(b[k]) for k in ("inputtype_bases",) if k in b}, "objects": {k: q(b[k]) for k in ("types_bases",) if k in b}}
    kw = {k: q(b[k]) for k in ("object_bases", "interface_bases") if k in b}
    return client_config([(p, ex.get(p, {})) for p in plugs], style=STYLES[case["style"]] if plugs[-1] != "objects" else [],
                         scalar_definitions=SCALARDEF, create_catchall=case["catchall"],
                         additional_bases={t: q(l) for t, l in case["assign"].items()}, **kw)


def run(case, st):
    st.programs += 1
    if case["fam"] in ("doc", "text"):
        d = PLACES[case["name"]] if case["fam"] == "doc" else case["name"]
        if case["bases"]:
            d = d.replace("query Get", "query Get($zz: Int)").replace("{ me {", "{ me { zz: say(x: $zz)", 1) if d.startswith("query Get { me {") else d
        return with_module(ZOO, d, config(case, ["enums", "inputs", "fragments", "operations"]), lambda mod, s, u: judge_doc(case, st, mod, s))
    if case["fam"] == "input":
        return schema_module(INPUTS[case["name"]] + QUERY, config(case, ["enums", "inputs"]), lambda mod, s: judge_inputs(case, st, mod, s))
    return schema_module(OBJS[case["name"]] + OQUERY, config(case, ["enums", "objects"]), lambda mod, s: judge_objects(case, st, mod, s))


class Place(Walk):
    """Adds, per object path, the interface of the place and what kind of place it is."""

    def __init__(self, *a):
        super().__init__(*a)
        self.info = {}

    def object(self, runtime, selsets, path):
        if path:
            t = self.static[path]
            direct = [s for sel in selsets for s in sel.selections if not (isinstance(s, FieldNode) and s.name.value == "__typename" and not s.alias)]
            frs = list(self.spreads(runtime, selsets[0]))
            alone = len(direct) == 1 and isinstance(direct[0], FragmentSpreadNode)
            self.info[path] = (t, runtime, frs, alone, selsets[0])
        return super().object(runtime, selsets, path)


def judge_doc(case, st, mod, schema):
    cls = operations_of(mod).get("Get")
    if cls is None:
        return [("missing", "no class for the operation")]
    sent = Doc(schema, cls.Meta.document)
    op = sent.ops["Get"]
    J = Judge(case, st)
    b = case["bases"]
    own = b.get(op.operation.value + "_bases") or b.get("object_bases", [])
    J.cls(cls, own, [], f"the {op.operation.value}", True)
    args = getattr(cls, "Arguments", None)
    if args is not None:
        J.cls(args, b.get("arguments_bases") or b.get("object_bases", []), [], "its arguments", True)

    def go(ch):
        r = Place(schema, sent, ch)
        return r.respond(op), r

    for (resp, r), ch in explore(go, 1, st, 60):
        try:
            obj = cls.model_validate(resp)
        except ValidationError as e:
            return [("reject", f"valid response rejected {resp!r}: {str(e)[:300]}")]
        if dump(obj) != tojson(resp):
            return [("lossy", f"{resp!r} read back as {dump(obj)!r}")]
        for path, (t, rt, frs, alone, sel) in r.info.items():
            iface = isinstance(t, GraphQLInterfaceType)
            related = {rt.name, *frs, *([t.name] if iface else [])}
            want = [x for y in related if not isinstance(schema.type_map[y], GraphQLUnionType) for x in case["assign"].get(y, [])]
            may = [x for y in {t.name, *frs} for x in case["assign"].get(y, [])] + [x for i in rt.interfaces for x in case["assign"].get(i.name, [])]
            inner = b.get("interface_bases") or b.get("object_bases", []) if iface else b.get("object_bases", [])
            if frs and b.get("interface_bases") and any(isinstance(schema.type_map[f], GraphQLInterfaceType) for f in frs):
                inner, may = [x for x in inner if not alone], may + b["interface_bases"] + b.get("object_bases", [])
            if frs:
                want += b.get("fragment_bases", [])
                may += b.get("object_bases", [])
                if any(isinstance(schema.type_map[f], GraphQLObjectType) for f in frs):
                    want += b.get("fragment_object_bases", [])
            J.cls(type(at(obj, path)), want + inner, may, ".".join(map(str, path)) + f" ({t}/{rt})")
        if J.problems:
            return J.problems[:4]
        if not case["catchall"]:
            continue
        for path, (t, rt, frs, alone, sel) in r.info.items():
            if not isinstance(t, GraphQLInterfaceType):
                continue
            st.traces += 1
            try:
                o = at(cls.model_validate(put(resp, path + ("__typename",), "NoSuchType")), path)
            except ValidationError as e:
                return [("reject", f"unknown type under an interface is refused: {str(e)[:300]}")]
            up = {t.name} | {i.name for i in t.interfaces}
            shared = [schema.type_map[sent.frags[s.name.value].type_condition.name.value] for s in sel.selections if isinstance(s, FragmentSpreadNode)]
            shared = [f.name for f in shared if f.name in up]
            want = [x for y in {t.name, *shared} for x in case["assign"].get(y, [])]
            may = [x for y in up | set(frs) - {rt.name} for x in case["assign"].get(y, [])] + b.get("object_bases", []) + b.get("interface_bases", []) + b.get("fragment_bases", [])
            J.cls(type(o), want + (b.get("interface_bases") or b.get("object_bases", []) if not alone else []), may, ".".join(map(str, path)) + f" ({t}/unknown)")
        if J.problems:
            return J.problems[:4]
    return []


def judge_inputs(case, st, mod, schema):
    t = schema.type_map["Root"]
    cls = class_for(mod, t)
    if cls is None:
        return [("missing", "no class for Root")]
    J = Judge(case, st)
    vals = [o for o in objects(t, 2) if legal(t, o) and one(t, o)][:60]
    st.states += 1 + len(vals)
    st.transitions += len(vals)
    st.traces += len(vals)
    for wire in vals:
        try:
            obj = cls.model_validate(wire)
        except ValidationError as e:
            return [("reject", f"legal input {wire!r} refused: {str(e)[:300]}")]
        if dump(obj, exclude_unset=True) != tojson(wire):
            return [("wire", f"given {wire!r}, sent {dump(obj, exclude_unset=True)!r}")]
        inputs_in(J, obj, wire, t, "Root")
        if J.problems:
            return J.problems[:4]
    return []


def inputs_in(J, obj, wire, t, where):
    while isinstance(t, GraphQLNonNull):
        t = t.of_type
    if wire is None or obj is None:
        return
    if isinstance(t, GraphQLList):
        for o, w in zip(obj, wire):
            inputs_in(J, o, w, t.of_type, where + "[]")
    elif isinstance(t, GraphQLInputObjectType):
        J.cls(type(obj), J.case["assign"].get(t.name, []) + J.case["bases"].get("inputtype_bases", []), [], f"{where} ({t})")
        for k, v in wire.items():
            inputs_in(J, at(obj, (k,)), v, t.fields[k].type, f"{where}.{k}")


def judge_objects(case, st, mod, schema):
    for name in [t.name for t in schema.type_map.values() if isinstance(t, GraphQLObjectType) and t.name[0] != "_" and t.name != "Query"]:
        t = schema.type_map[name]
        cls = getattr(mod, name, None)
        if cls is None:
            return [("missing", f"no class {name}")]
        J = Judge(case, st)

        def go(ch):
            m = ObjectMaker(schema, ch)
            return m.object(t), m

        for (wire, m), ch in explore(go, 1, st, 60):
            try:
                obj = cls.model_validate(wire)
            except ValidationError as e:
                return [("reject", f"conforming {name} {wire!r} refused: {str(e)[:300]}")]
            for p, ot in [((), t)] + [(p, ot) for p, kind, _, ot in m.slots if kind == "object"]:
                want = [x for y in [ot.name] + [i.name for i in ot.interfaces] for x in case["assign"].get(y, [])]
                J.cls(type(at(obj, p)), want + case["bases"].get("types_bases", []), [], f"{name}.{p} ({ot})")
            if J.problems:
                return J.problems[:4]
    return []


class Judge:
    def __init__(self, case, st):
        self.case, self.st, self.problems, self.done = case, st, [], set()

    def cls(self, cls, want, may, where, exact=False):
        key = (cls, tuple(sorted(want)), tuple(sorted(may)))
        if key in self.done:
            return
        self.done.add(key)
        self.st.evals += 1
        if not issubclass(cls, BaseModel):
            return self.problems.append(("class", f"{where} is read as {cls.__name__}"))
        names = {k: v for k, v in vars(bases).items() if isinstance(v, type) and v.__module__ == bases.__name__}
        got = {k for k, v in names.items() if v in cls.__mro__}
        self.st.outcome(where.split("(")[-1], tuple(sorted(got)))
        for w in set(want) - got:
            self.problems.append(("missing-base", f"{where}: class {cls.__name__} does not inherit {w}: {[c.__name__ for c in cls.__mro__]}"))
        for g in got:
            if not any(issubclass(names[w], names[g]) for w in want + may):
                self.problems.append(("foreign-base", f"{where}: class {cls.__name__} inherits {g}, configured for something else: {self.case['assign']} {self.case['bases']}"))
