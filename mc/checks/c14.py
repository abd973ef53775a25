"""C14: freezing and model options reach exactly the configured kinds and types."""
import enum
import itertools

from graphql import (FieldNode, FragmentSpreadNode, GraphQLInputObjectType, GraphQLInterfaceType, GraphQLList, GraphQLNonNull,
                     GraphQLObjectType, InlineFragmentNode, get_named_type)
from pydantic import BaseModel, ValidationError

from ..docs import SCALARDEF, ZOO, ZOO_SCHEMA
from ..explore import explore
from ..inputs import legal, objects
from ..objects import ObjectMaker
from ..pyd import dump, tojson
from ..roundtrip import operations_of, schema_module, schema_of, with_module
from ..server import Doc, Responder, root_type
from ..turmsio import client_config
from .c01 import STYLES
from .c06 import class_for

ID = "C14"
LEVEL = "model_checking"
RULE = ("one case = one document (or set of input or object types) under one freeze / options / additional_config setting; a trace is one "
        "response (or value), and every model object read from it is judged by what it does: assigning to its fields, hashing, extra keys, "
        "population by name, values of enum fields. Expected is that the setting shows iff the kind and GraphQL type of the object are selected (a class "
        "may also have it when a selected fragment or interface it inherits from has it). The values read must be the ones sent. Outcomes: distinct (kind, type, setting, value).")
BOUNDS = {
    "quick": "26 documents covering every place a class can come from, 4 input and 3 object schemas x all subsets of the kinds that occur x "
             "(no list / include / exclude of each single type / both) x lists-to-tuples on/off; 9 option settings x kind subsets of <=1 or all x the same lists; "
             "<=1 response deviation",
    "thorough": "as quick with every pair of types in the lists, all kind subsets for the options, and <=2 deviations",
}
ASSUMPTIONS = ["nested selections on object types are of kind object, variants of interface and union selections and fragments of kind fragment (as documented in the code)",
               "whether result lists of models that are not selected become tuples is not judged"]

DOCS = {
    "scalar": "query Get { count words me { id nicks colors grid } }",
    "object": "query Get { me { firstName dog { barks name tags } boss { team { id } } } }",
    "lists": "query Get { people { nicks team { nicks } } nodes { tags } pets { ... on Dog { tags } } }",
    "interface": "query Get { node { id ... on Dog { barks tags } ... on Fish { tank { id } } } }",
    "interface0": "query Get { nodes { name } }",
    "interface2": "query Get { me { animal { legs ... on Cat { rival { id } mood } } } }",
    "union": "query Get { pet { ... on Dog { barks color } ... on Cat { mood } ... on Fish { fin } } }",
    "union1": "query Get { pets { ... on Dog { owner { id } } } }",
    "frag": "query Get { me { ...F } } fragment F on Person { firstName color nicks }",
    "frag+": "query Get { me { ...F id pet { ... on Dog { name } } } } fragment F on Person { firstName dog { barks } }",
    "frags": "query Get { me { ...F ...G } } fragment F on Person { firstName } fragment G on Person { colors }",
    "fragfrag": "query Get { me { ...F } } fragment F on Person { id ...G } fragment G on Person { team { ...H } } fragment H on Person { nicks }",
    "ifrag": "query Get { node { ...N } } fragment N on Node { id tags ... on Dog { barks } }",
    "ifrag+": "query Get { node { ...N name ... on Cat { mood } } } fragment N on Node { id owner { id } }",
    "ifragobj": "query Get { dog { ...N barks } } fragment N on Node { id tags }",
    "ifragonly": "query Get { dog { ...N } } fragment N on Node { tags }",
    "objfragiface": "query Get { node { ...D id } } fragment D on Dog { barks color }",
    "ifragfrag": "query Get { animal { ...A } } fragment A on Animal { legs ...N } fragment N on Node { tags }",
    "ufrag": "query Get { pet { ...U } } fragment U on Pet { ... on Dog { barks tags } ... on Cat { mood } }",
    "ufragfrag": "query Get { pet { ... on Dog { ...D } ... on Fish { ...N } } } fragment D on Dog { barks } fragment N on Node { tags }",
    "fragpos": "query Get { me { ...F } } fragment F on Person { node { id ... on Dog { barks } } pets { ... on Fish { fin } } }",
    "mutation": "mutation Get { rename { colors ...F } touch } fragment F on Person { dog { color } }",
    "subscription": "subscription Get { changed { color node { name } } }",
    "subscription0": "subscription Get { ticked }",
    "reserved": "query Get { me { from class birthDay oldName } }",
    "alias": "query Get { a: me { x: color } b: me { x: class from } }",
}
INPUTS = {
    "plain": "enum Color { RED GREEN }\ninput Root { a: Int! fooBar: [Int!] color: Color s: Small from: [Small!] }\ninput Small { x: Int y: [[Int]] }",
    "rec": "input Root { a: [Root!] b: B }\ninput B { r: Root c: [String!]! = [\"x\"] }",
    "oneof": "directive @oneOf on INPUT_OBJECT\ninput Root { k: Kind! ks: [Kind!] }\ninput Kind @oneOf { a: A b: Bb c: Int }\ninput A { x: [Int!]! }\ninput Bb { y: Int }",
    "names": "enum from_ { A B }\ninput Root { class: Class dict: [Int] }\ninput Class { from: from_! }",
}
OBJS = {
    "plain": "enum Color { RED GREEN }\ntype Root { a: Int! fooBar: [Int!] color: Color! s: Small from: [Small!]! }\ntype Small { x: Int y: [[Int]] }",
    "iface": "interface N { id: ID! tags: [String!]! }\ntype Root implements N { id: ID! tags: [String!]! o: Other }\ntype Other implements N { id: ID! tags: [String!]! from: [Int!] }",
    "union": "type Root { u: U us: [U!]! }\nunion U = A | B\ntype A { x: [Int!]! }\ntype B { y: Color! }\nenum Color { RED GREEN }",
}
QUERY = "\ntype Query { q: Int go(i: Root): Int }"
OQUERY = "\ntype Query { q: Int r: Root }"
OPTIONS = [{"extra": "forbid"}, {"extra": "allow"}, {"extra": "ignore"}, {"validate_assignment": True}, {"validate_assignment": False},
           {"allow_population_by_field_name": True}, {"allow_population_by_field_name": False}, {"use_enum_values": True}, {"use_enum_values": False},
           {"extra": "forbid", "validate_assignment": True, "use_enum_values": True}]


def types_in(fam, name):
    """(kinds that occur, GraphQL types that occur)"""
    if fam == "doc":
        d = Doc(ZOO_SCHEMA, DOCS[name])
        op = d.ops["Get"]
        seen = {}

        def walk(t, sel):
            for s in sel.selections:
                if isinstance(s, FieldNode) and s.selection_set:
                    n = get_named_type(t.fields[s.name.value].type)
                    seen[n.name] = 1
                    walk(n, s.selection_set)
                elif isinstance(s, InlineFragmentNode):
                    seen[s.type_condition.name.value] = 1
                    walk(ZOO_SCHEMA.type_map[s.type_condition.name.value], s.selection_set)
                elif isinstance(s, FragmentSpreadNode):
                    f = d.frags[s.name.value]
                    seen[f.type_condition.name.value] = 1
                    walk(ZOO_SCHEMA.type_map[f.type_condition.name.value], f.selection_set)
        walk(root_type(ZOO_SCHEMA, op), op.selection_set)
        for t in list(seen):
            for o in ZOO_SCHEMA.get_possible_types(ZOO_SCHEMA.type_map[t]) if not isinstance(ZOO_SCHEMA.type_map[t], GraphQLObjectType) else []:
                seen[o.name] = 1
        return [op.operation.value, "fragment", "object"], list(seen)
    if fam == "input":
        s = schema_of(INPUTS[name] + QUERY)
        return ["input", "object"], [t.name for t in s.type_map.values() if isinstance(t, GraphQLInputObjectType)]
    s = schema_of(OBJS[name] + OQUERY)
    return ["object", "fragment"], [t.name for t in s.type_map.values() if isinstance(t, (GraphQLObjectType, GraphQLInterfaceType)) and t.name[0] != "_" and t.name != "Query"]


def lists(types, pairs):
    yield {}
    for t in types:
        yield {"include": [t]}
        yield {"exclude": [t]}
    for a, b in itertools.permutations(types, 2):
        if pairs or (a, b) == tuple(types[:2]):
            yield {"include": [a, b], "exclude": [b]}
            yield {"include": [a, b]}
            yield {"exclude": [a, b]}


def subsets(xs):
    for k in range(len(xs) + 1):
        yield from (list(c) for c in itertools.combinations(xs, k))


def cases(tier):
    deep = tier == "thorough"
    fams = [("doc", n) for n in DOCS] + [("input", n) for n in INPUTS] + [("object", n) for n in OBJS]
    styles = ["none", "snake", "append"]
    for i, (fam, name) in enumerate(fams):
        kinds, types = types_in(fam, name)
        n = i
        for ks in subsets(kinds):
            for ls in lists(types, deep):
                n += 1
                for conv in (True, False) if (deep or not ls) else (bool(n % 3),):
                    yield case(fam, name, {"freeze": {"enabled": True, "types": ks, "convert_list_to_tuple": conv, **ls}}, styles[n % 3], deep, n)
        yield case(fam, name, {"freeze": {"enabled": True}}, "snake", deep, 0)
        yield case(fam, name, {"freeze": {"enabled": False, "types": kinds}, "options": {"enabled": False, "types": kinds, "extra": "forbid"}}, "snake", deep, 0)
        for ls in lists(types, deep):
            # the nested Config class of the v1 target, as the installed pydantic reads it
            yield case(fam, name, {"freeze": {"enabled": True, "types": kinds, **ls}, "pydantic_version": "v1"}, "snake", deep, n)
            yield case(fam, name, {"options": {"enabled": True, "types": kinds, "extra": "forbid", "validate_assignment": True, "use_enum_values": True, **ls},
                                   "pydantic_version": "v1"}, "none", deep, n)
        for t in types:
            yield case(fam, name, {"additional_config": {t: {"extra": "forbid"}}, "pydantic_version": "v1"}, "none", deep, n)
        for opt in OPTIONS:
            for ks in subsets(kinds):
                if not deep and 1 < len(ks) < len(kinds):
                    continue
                for ls in lists(types, deep):
                    n += 1
                    if not deep and ls and n % 2:
                        continue
                    yield case(fam, name, {"options": {"enabled": True, "types": ks, **opt, **ls}}, "snake" if "allow_pop" in str(opt) else styles[n % 3], deep, n)
        for t in types:
            for k, v in (("extra", "forbid"), ("frozen", True), ("use_enum_values", True)):
                yield case(fam, name, {"additional_config": {t: {k: v}}}, "snake", deep, n)
                yield case(fam, name, {"additional_config": {t: {k: v}}, "freeze": {"enabled": True, "types": kinds, "exclude": [t]},
                                       "options": {"enabled": True, "types": kinds, "extra": "allow", "include": [t]}}, "none", deep, n)


def case(fam, name, cfg, style, deep, n):
    return {"key": f"{fam}:{name}:{style}:{cfg}", "fam": fam, "name": name, "cfg": cfg, "style": style, "dev": 2 if deep else 1,
            "catchall": n % 4 != 0}


def selected(sec, kind, t):
    if not sec.get("enabled"):
        return False
    if kind not in sec.get("types", ["input", "fragment", "object"]):
        return False
    if sec.get("exclude") and t in sec["exclude"]:
        return False
    return not (sec.get("include") and t not in sec["include"])


DEFAULT = {"frozen": False, "extra": "ignore", "validate_assignment": False, "populate_by_name": False, "use_enum_values": False}


def settings(cfg, kind, t):
    """{setting: value} configured for a class of that kind and type itself"""
    out = {}
    if selected(cfg.get("freeze", {}), kind, t):
        out["frozen"] = True
    o = cfg.get("options", {})
    if selected(o, kind, t):
        for k in ("extra", "validate_assignment", "use_enum_values"):
            if o.get(k) is not None:
                out[k] = o[k]
        if o.get("allow_population_by_field_name") is not None:
            out["populate_by_name"] = o["allow_population_by_field_name"]
    if t is not None:
        out.update(cfg.get("additional_config", {}).get(t, {}))
    return out


class Walk(Responder):
    """As Responder; records per object path: (kind, runtime type, [(kind, type) it may inherit from])."""

    def __init__(self, *a):
        super().__init__(*a)
        self.at = {}

    def spreads(self, runtime, sel):
        """types of the fragments that apply, those directly at this place and nested ones"""
        for s in sel.selections:
            if isinstance(s, InlineFragmentNode) and self.doc.applies(runtime, s.type_condition.name.value):
                yield from self.spreads(runtime, s.selection_set)
            elif isinstance(s, FragmentSpreadNode):
                f = self.doc.frags[s.name.value]
                if self.doc.applies(runtime, f.type_condition.name.value):
                    yield f.type_condition.name.value
                    yield from self.spreads(runtime, f.selection_set)

    def object(self, runtime, selsets, path):
        if path:
            t = self.static[path]
            direct = [s for sel in selsets for s in sel.selections if not (isinstance(s, FieldNode) and s.name.value == "__typename" and not s.alias)]
            frs = list(self.spreads(runtime, selsets[0]))
            may = [("fragment", x) for x in frs] + [("fragment", runtime.name) for x in frs]
            kind = "object"
            if not isinstance(t, GraphQLObjectType):
                kind = "fragment"
                may += [("fragment", t.name)]
            elif len(direct) == 1 and isinstance(direct[0], FragmentSpreadNode):
                kind = "fragment"  # such a place is of the fragment's own class
            self.at[path] = (kind, runtime.name, may)
        return super().object(runtime, selsets, path)

    def nonnull(self, t, subs, path, nullable):
        self.__dict__.setdefault("static", {})[path] = t
        return super().nonnull(t, subs, path, nullable)


def run(case, st):
    st.programs += 1
    cfg = case["cfg"]
    if case["fam"] == "doc":
        c = client_config(style=STYLES[case["style"]], scalar_definitions=SCALARDEF, create_catchall=case["catchall"], **cfg)
        return with_module(ZOO, DOCS[case["name"]], c, lambda mod, schema, user: judge_doc(case, st, mod, schema))
    if case["fam"] == "input":
        c = client_config(["enums", "inputs"], style=STYLES[case["style"]], **cfg)
        return schema_module(INPUTS[case["name"]] + QUERY, c, lambda mod, schema: judge_inputs(case, st, mod, schema))
    c = client_config(["enums", "objects"], style=[], **cfg)
    return schema_module(OBJS[case["name"]] + OQUERY, c, lambda mod, schema: judge_objects(case, st, mod, schema))


def judge_doc(case, st, mod, schema):
    cls = operations_of(mod).get("Get")
    if cls is None:
        return [("missing", "no class for the operation")]
    sent = Doc(schema, cls.Meta.document)
    op = sent.ops["Get"]
    J = Judge(case["cfg"], st)

    def go(ch):
        r = Walk(schema, sent, ch)
        return r.respond(op), r

    for (resp, r), ch in explore(go, case["dev"], st, 400):
        try:
            obj = cls.model_validate(resp)
        except ValidationError as e:
            return J.problems + [("reject", f"valid response rejected {resp!r}: {str(e)[:300]}")]
        if dump(obj) != tojson(resp):
            return J.problems + [("lossy", f"{resp!r} read back as {dump(obj)!r}")]
        J.obj(obj, resp, op.operation.value, None, [], "operation", full=True)
        for path, (kind, t, may) in r.at.items():
            J.obj(at(obj, path), get(resp, path), kind, t, may, ".".join(map(str, path)))
        if J.problems:
            return J.problems[:4]
    return []


def judge_inputs(case, st, mod, schema):
    t = schema.type_map["Root"]
    cls = class_for(mod, t)
    if cls is None:
        return [("missing", "no class for Root")]
    J = Judge(case["cfg"], st)
    vals = [o for o in objects(t, 2) if legal(t, o) and one(t, o)]
    st.states += 1 + len(vals)
    st.transitions += len(vals)
    st.traces += len(vals)
    for wire in vals:
        try:
            obj = cls.model_validate(wire)
        except ValidationError as e:
            return [("reject", f"legal input {wire!r} refused: {str(e)[:300]}")]
        if dump(obj, exclude_unset=True) != tojson(wire):
            return [("wire", f"given {wire!r}, sent {dump(obj, exclude_unset=True)!r}")]
        inputs_in(J, obj, wire, t, "Root")
        if J.problems:
            return J.problems[:4]
    return []


def one(t, wire):
    """one-of types have exactly one value"""
    while isinstance(t, GraphQLNonNull):
        t = t.of_type
    if wire is None or not isinstance(t, (GraphQLList, GraphQLInputObjectType)):
        return True
    if isinstance(t, GraphQLList):
        return all(one(t.of_type, x) for x in wire)
    if any(d.name.value == "oneOf" for d in t.ast_node.directives) and (len(wire) != 1 or None in wire.values()):
        return False
    return all(one(t.fields[k].type, v) for k, v in wire.items())


def inputs_in(J, obj, wire, t, where):
    while isinstance(t, GraphQLNonNull):
        t = t.of_type
    if wire is None or obj is None:
        return
    if isinstance(t, GraphQLList):
        for o, w in zip(obj, wire):
            inputs_in(J, o, w, t.of_type, where + "[]")
    elif isinstance(t, GraphQLInputObjectType):
        J.obj(obj, wire, "input", t.name, [], where)
        for k, v in wire.items():
            inputs_in(J, at(obj, (k,)), v, t.fields[k].type, f"{where}.{k}")


def judge_objects(case, st, mod, schema):
    problems = []
    for name in [t.name for t in schema.type_map.values() if isinstance(t, GraphQLObjectType) and t.name[0] != "_" and t.name != "Query"]:
        t = schema.type_map[name]
        cls = getattr(mod, name, None)
        if cls is None:
            return [("missing", f"no class {name}")]
        J = Judge(case["cfg"], st)

        def go(ch):
            m = ObjectMaker(schema, ch)
            return m.object(t), m

        for (wire, m), ch in explore(go, case["dev"], st, 300):
            try:
                obj = cls.model_validate(wire)
            except ValidationError as e:
                return [("reject", f"conforming {name} {wire!r} refused: {str(e)[:300]}")]
            if dump(obj, exclude_unset=True) != tojson(wire):
                return [("lossy", f"{wire!r} read back as {dump(obj, exclude_unset=True)!r}")]
            J.obj(obj, wire, "object", name, [("object", i.name) for i in t.interfaces], name, full=True)
            for p, kind, nullable, ot in m.slots:
                if kind == "object":
                    J.obj(at(obj, p), get(wire, p), "object", ot.name, [("object", i.name) for i in ot.interfaces], f"{name}.{p}")
            if J.problems:
                return J.problems[:4]
    return problems


def get(x, path):
    for p in path:
        x = x[p]
    return x


def at(obj, path):
    for p in path:
        if isinstance(p, int):
            obj = obj[p]
        else:
            obj = getattr(obj, next(n for n, f in type(obj).model_fields.items() if (f.alias or n) == p))
    return obj


def hashable(v):
    try:
        hash(v)
        return True
    except TypeError:
        return False


class Judge:
    def __init__(self, cfg, st):
        self.cfg, self.st, self.problems, self.done = cfg, st, [], set()

    def bad(self, kind, msg):
        self.problems.append((kind, msg))

    def obj(self, o, wire, kind, t, may, where, full=False):
        if not isinstance(o, BaseModel):
            return self.bad("class", f"{where} is read as {type(o).__name__}")
        own = settings(self.cfg, kind, t)
        inherited = [settings(self.cfg, k, x) for k, x in may]
        cls = type(o)
        want = {}
        for s, d in DEFAULT.items():
            ok = {own[s]} if s in own else {d} | {i[s] for i in inherited if s in i}
            want[s] = ok
        where = f"{where} ({kind} of {t}, class {cls.__name__})"
        # lists and hashing
        fz = self.cfg.get("freeze", {})
        values = [getattr(o, n) for n in cls.model_fields]
        if fz.get("enabled") and fz.get("convert_list_to_tuple", True):
            if selected(fz, kind, t) and any(isinstance(v, list) for v in values):
                self.bad("list", f"{where} is frozen and has a list: {o!r}"[:300])
        elif any(isinstance(v, tuple) for v in values):
            self.bad("tuple", f"{where} has a tuple though lists are not to be converted: {o!r}"[:300])
        if want["frozen"] == {True} and all(hashable(v) for v in values) and not hashable(o):
            self.bad("hash", f"{where} is frozen, holds only hashable values and cannot be hashed")
        if want["frozen"] == {True} and hashable(o):
            twin = cls.model_validate(wire)
            if twin != o or hash(twin) != hash(o):
                self.bad("hash", f"{where}: equal models hash differently")
        if fz.get("enabled") and fz.get("convert_list_to_tuple", True) and full and not self.cfg.get("additional_config") and self.all_frozen(o) and not hashable(o):
            self.bad("hash", f"{where}: everything below is frozen and it cannot be hashed")
        key = (cls, kind, t, tuple(may), tuple(sorted(wire)), tuple(type(v).__name__ for v in values))
        if key in self.done:
            return
        self.done.add(key)
        self.st.evals += 1
        got = {"frozen": self.is_frozen(o, where), "extra": self.extra_of(cls, wire, where), "use_enum_values": self.enum_of(o),
               "populate_by_name": self.by_name(cls, o), "validate_assignment": self.assignment(cls, wire)}
        for s, v in got.items():
            if v is None:
                continue
            self.st.outcome(kind, t, s, v)
            if v not in want[s]:
                self.bad(s, f"{where}: {s} is {v!r}, expected {sorted(map(str, want[s]))} under {self.cfg}")

    def all_frozen(self, o):
        if isinstance(o, BaseModel):
            return type(o).model_config.get("frozen", False) and all(self.all_frozen(getattr(o, n)) for n in type(o).model_fields)
        if isinstance(o, (list, tuple)):
            return all(self.all_frozen(x) for x in o)
        return True

    def is_frozen(self, o, where):
        res = set()
        for n in type(o).model_fields:
            v = getattr(o, n)
            try:
                setattr(o, n, v)
                res.add(False)
            except ValidationError as e:
                res.add(any(x["type"] == "frozen_instance" for x in e.errors()))
        if len(res) > 1:
            self.bad("frozen", f"{where}: only some fields can be assigned")
        return res.pop() if res else None

    def extra_of(self, cls, wire, where):
        try:
            o = cls.model_validate({**wire, "zzExtra": 1})
        except ValidationError:
            return "forbid"
        return "allow" if (o.model_extra or {}).get("zzExtra") == 1 else "ignore"

    def enum_of(self, o):
        """whether a field declared as an enumeration holds the plain value"""
        for n, f in type(o).model_fields.items():
            v = getattr(o, n)
            es = enums_in(f.annotation)
            while isinstance(v, (list, tuple)) and v:
                v = v[0]
            if es and v is not None and not isinstance(v, (list, tuple)):
                return not isinstance(v, enum.Enum)
        return None

    def by_name(self, cls, o):
        names = {n: f for n, f in cls.model_fields.items() if f.alias and f.alias != n and n != "typename"}
        given = [n for n in names if n in o.model_fields_set and getattr(o, n) is not None]
        if not given:
            return None
        data = {n if n in given else (f.alias or n): getattr(o, n) for n, f in cls.model_fields.items() if n in o.model_fields_set}
        try:
            p = cls.model_validate({k: plain(v) for k, v in data.items()})
        except ValidationError:
            return False
        return all(getattr(p, n) == getattr(o, n) for n in given)

    def assignment(self, cls, wire):
        o = cls.model_validate(wire)
        for n in cls.model_fields:
            try:
                setattr(o, n, Wrong())
            except ValidationError as e:
                if any(x["type"] == "frozen_instance" for x in e.errors()):
                    return None
                return True
            return False
        return None


class Wrong:
    pass


def plain(v):
    if isinstance(v, BaseModel):
        return v.model_dump(by_alias=True, mode="json", exclude_unset=True)
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    return v


def enums_in(a):
    import typing
    if isinstance(a, type) and issubclass(a, enum.Enum):
        return [a]
    return [e for x in typing.get_args(a) for e in enums_in(x)]
