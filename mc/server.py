"""Reference GraphQL server: the response model.

Written directly from the execution section of the GraphQL specification (collect fields, complete
value), on graphql-core type objects; it shares no code with the generator.  Every answer a server
may give is one path through the choices made here.
"""
from graphql import (
    FieldNode,
    FragmentDefinitionNode,
    FragmentSpreadNode,
    GraphQLEnumType,
    GraphQLInterfaceType,
    GraphQLList,
    GraphQLNonNull,
    GraphQLObjectType,
    GraphQLScalarType,
    GraphQLUnionType,
    InlineFragmentNode,
    OperationDefinitionNode,
    build_schema,
    parse,
)

SCALARS = {
    "Int": [3, 0, -7],
    "Float": [1.5, 2.0],
    "String": ["s", "", "Dög \"q\"\n"],
    "Boolean": [True, False],
    "ID": ["i1", "0"],
    "Date": ["2020-01-02", "1999-12-31"],
    "DateTime": ["2020-01-02T03:04:05Z", "1999-12-31T23:59:59Z"],
    "UUID": ["12345678-1234-5678-1234-567812345678"],
    "JSON": [{"a": [1, None]}, "x", 5],
    "Any": ["x", 5],
}


def root_type(schema, op):
    return {
        "query": schema.query_type,
        "mutation": schema.mutation_type,
        "subscription": schema.subscription_type,
    }[op.operation.value]


class Doc:
    def __init__(self, schema, text):
        self.schema = schema
        self.ast = parse(text)
        self.frags = {
            d.name.value: d
            for d in self.ast.definitions
            if isinstance(d, FragmentDefinitionNode)
        }
        self.ops = {
            d.name.value: d
            for d in self.ast.definitions
            if isinstance(d, OperationDefinitionNode)
        }

    def collect(self, runtime, selection_set, out=None, seen=None):
        out = {} if out is None else out
        seen = set() if seen is None else seen
        for s in selection_set.selections:
            if isinstance(s, FieldNode):
                key = s.alias.value if s.alias else s.name.value
                out.setdefault(key, []).append(s)
            elif isinstance(s, InlineFragmentNode):
                if s.type_condition is None or self.applies(runtime, s.type_condition.name.value):
                    self.collect(runtime, s.selection_set, out, seen)
            elif isinstance(s, FragmentSpreadNode):
                n = s.name.value
                if n in seen:
                    continue
                seen.add(n)
                f = self.frags[n]
                if self.applies(runtime, f.type_condition.name.value):
                    self.collect(runtime, f.selection_set, out, seen)
        return out

    def applies(self, runtime, cond):
        t = self.schema.type_map[cond]
        if t is runtime:
            return True
        if isinstance(t, (GraphQLInterfaceType, GraphQLUnionType)):
            return self.schema.is_sub_type(t, runtime)
        return False


class Responder:
    """Builds one response, asking the chooser for every environment decision."""

    def __init__(self, schema, doc, chooser, lens=(1, 0, 2), scalars=SCALARS, unknown=None):
        self.schema, self.doc, self.ch = schema, doc, chooser
        self.lens = lens
        self.scalars = scalars
        self.slots = []  # (path, kind, nullable, type)  for the mutation pass
        self.unknown = unknown

    def respond(self, op):
        rt = root_type(self.schema, op)
        return self.object(rt, [op.selection_set], ())

    def object(self, runtime, selsets, path):
        fields = {}
        seen = set()
        for s in selsets:
            self.doc.collect(runtime, s, fields, seen)
        data = {}
        for key, nodes in fields.items():
            name = nodes[0].name.value
            p = path + (key,)
            if name == "__typename":
                data[key] = runtime.name
                self.slots.append((p, "typename", False, runtime))
                continue
            ft = runtime.fields[name].type
            subs = [n.selection_set for n in nodes if n.selection_set]
            data[key] = self.value(ft, subs, p)
        return data

    def value(self, t, subs, path):
        if isinstance(t, GraphQLNonNull):
            return self.nonnull(t.of_type, subs, path, False)
        if self.ch.choose(2, "null?" + ".".join(map(str, path))) == 1:
            self.slots.append((path, "null", True, t))
            return None
        return self.nonnull(t, subs, path, True)

    def nonnull(self, t, subs, path, nullable):
        if isinstance(t, GraphQLList):
            self.slots.append((path, "list", nullable, t))
            n = self.ch.pick(self.lens, "len")
            return [self.value(t.of_type, subs, path + (i,)) for i in range(n)]
        if isinstance(t, GraphQLEnumType):
            self.slots.append((path, "enum", nullable, t))
            return self.ch.pick(list(t.values), "enum")
        if isinstance(t, GraphQLScalarType):
            self.slots.append((path, "scalar", nullable, t))
            return self.ch.pick(self.scalars.get(t.name, ["x"]), "scalar")
        if isinstance(t, (GraphQLInterfaceType, GraphQLUnionType)):
            types = list(self.schema.get_possible_types(t))
            self.slots.append((path, "abstract", nullable, t))
            t = self.ch.pick(types, "type")
            return self.object(t, subs, path)
        assert isinstance(t, GraphQLObjectType)
        self.slots.append((path, "object", nullable, t))
        return self.object(t, subs, path)


def put(data, path, value, drop=False):
    """A deep copy of data with the value at path replaced (or its key removed)."""
    import copy

    out = copy.deepcopy(data)
    cur = out
    for p in path[:-1]:
        cur = cur[p]
    if drop:
        del cur[path[-1]]
    else:
        cur[path[-1]] = value
    return out
