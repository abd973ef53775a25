"""Values of whole object types (every field, no selection), for the object models."""
from graphql import (GraphQLEnumType, GraphQLInputObjectType, GraphQLInterfaceType, GraphQLList, GraphQLNonNull, GraphQLScalarType,
                     GraphQLUnionType)

from .server import SCALARS

OMIT = object()


class ObjectMaker:
    """One conforming wire value, asking the chooser for every free decision (0 = the plainest)."""

    def __init__(self, schema, ch, depth=2, lens=(1, 0, 2), scalars=SCALARS, omit=True):
        self.schema, self.ch, self.depth, self.lens, self.scalars, self.omit = schema, ch, depth, lens, scalars, omit
        self.slots = []  # (path, kind, nullable, type)

    def object(self, t, path=(), depth=None):
        depth = self.depth if depth is None else depth
        out = {}
        for n, f in t.fields.items():
            v = self.value(f.type, path + (n,), depth, self.omit)
            if v is not OMIT:
                out[n] = v
        return out

    def value(self, t, path, depth, omit=False):
        if isinstance(t, GraphQLNonNull):
            return self.nonnull(t.of_type, path, False, depth)
        if depth <= 0 and composite(t) or isinstance(t, (GraphQLInterfaceType, GraphQLUnionType)) and not self.schema.get_possible_types(t):
            return None
        c = self.ch.choose(3 if omit else 2, ".".join(map(str, path)))
        if c == 0:
            return self.nonnull(t, path, True, depth)
        self.slots.append((path, "null", True, t))
        return None if c == 1 else OMIT

    def nonnull(self, t, path, nullable, depth):
        if isinstance(t, GraphQLList):
            self.slots.append((path, "list", nullable, t))
            if depth <= 0 and composite(t):
                return []
            n = self.ch.pick(self.lens, "len")
            return [self.value(t.of_type, path + (i,), depth) for i in range(n)]
        if isinstance(t, GraphQLEnumType):
            self.slots.append((path, "enum", nullable, t))
            return self.ch.pick(list(t.values), "enum")
        if isinstance(t, GraphQLScalarType):
            self.slots.append((path, "scalar", nullable, t))
            return self.ch.pick(self.scalars.get(t.name, ["x"]), "scalar")
        if isinstance(t, (GraphQLInterfaceType, GraphQLUnionType)):
            self.slots.append((path, "abstract", nullable, t))
            t = self.ch.pick(list(self.schema.get_possible_types(t)), "type")
            return self.object(t, path, depth - 1)
        self.slots.append((path, "object", nullable, t))
        return self.object(t, path, depth - 1)


def composite(t):
    while hasattr(t, "of_type"):
        t = t.of_type
    return not isinstance(t, (GraphQLEnumType, GraphQLScalarType, GraphQLInputObjectType))
