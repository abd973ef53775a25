"""Reference input coercion: the values a client may and may not send for an input type."""
import itertools

from graphql import (GraphQLEnumType, GraphQLInputObjectType, GraphQLList, GraphQLNonNull, GraphQLScalarType, Undefined,
                     coerce_input_value)

OMIT = "<omitted>"

GOOD = {
    "Int": [3, 0], "Float": [1.5, 2], "String": ["s", ""], "Boolean": [True, False], "ID": ["i1", "0"],
    "Date": ["2020-01-02"], "DateTime": ["2020-01-02T03:04:05Z"], "JSON": [{"k": [1, None]}, "x"],
}
BAD = {
    "Int": ["text", [1], {"a": 1}, 1.5], "Float": ["text", [1], {"a": 1}], "String": [5, ["x"], {"a": 1}], "Boolean": ["text", [True]],
    "ID": [["x"], {"a": 1}], "Date": ["text", ["2020-01-02"]], "DateTime": ["text"], "JSON": [],
}


def required(t, default=Undefined):
    return isinstance(t, GraphQLNonNull) and default is Undefined


def good(t, depth=2, wide=True):
    """Wire values that conform to t (None only where t is nullable), simplest first."""
    if isinstance(t, GraphQLNonNull):
        return [v for v in good(t.of_type, depth, wide) if v is not None]
    return values(t, depth, wide) + [None]


def values(t, depth, wide=True):
    if isinstance(t, GraphQLList):
        inner = good(t.of_type, depth, False)
        out = [[v] for v in inner[:3]] + [[]]
        if len(inner) > 1:
            out.append([inner[0], inner[1]])
        return out
    if isinstance(t, GraphQLEnumType):
        return list(t.values)[: 3 if wide else 2]
    if isinstance(t, GraphQLScalarType):
        g = GOOD.get(t.name, ["x"])
        return g if wide else g[:1]
    assert isinstance(t, GraphQLInputObjectType)
    return objects(t, depth, wide)


def objects(t, depth, wide=True):
    """Every presence pattern (omitted / null / one value per field) when wide, else minimal and full."""
    per = []
    for name, f in t.fields.items():
        opts = []
        if not required(f.type, f.default_value):
            opts.append(OMIT)
        if depth <= 0 and is_object(f.type):
            if OMIT not in opts:
                opts.append(simplest(f.type, 3))
        else:
            gs = good(f.type, depth - 1, False)
            nn = [g for g in gs if g is not None]
            opts += nn[:1]
            if None in gs:
                opts.append(None)
        per.append(opts)
    names = list(t.fields)
    combos = list(itertools.product(*per))
    if not wide and len(combos) > 2:
        combos = [combos[0], combos[-1], tuple(next((o for o in p if o not in (OMIT, None)), p[0]) for p in per)]
    out = []
    for c in combos:
        o = {n: v for n, v in zip(names, c) if v is not OMIT}
        if o not in out:
            out.append(o)
    if getattr(t, "is_one_of", False):
        out = [o for o in out if len(o) == 1 and None not in o.values()]
    return out


def simplest(t, depth):
    if isinstance(t, GraphQLNonNull):
        t = t.of_type
        if isinstance(t, GraphQLList):
            return []
        if isinstance(t, GraphQLInputObjectType):
            return {n: simplest(f.type, depth - 1) for n, f in t.fields.items() if required(f.type, f.default_value)}
        return values(t, 0, False)[0]
    return None


def is_object(t):
    while hasattr(t, "of_type"):
        t = t.of_type
    return isinstance(t, GraphQLInputObjectType)


def bad(t, depth=1):
    """(label, wire value) pairs that t must refuse."""
    if isinstance(t, GraphQLNonNull):
        if not (isinstance(t.of_type, GraphQLScalarType) and t.of_type.name == "JSON"):  # typing.Any takes None
            yield "null for a required value", None
        yield from bad(t.of_type, depth)
        return
    if isinstance(t, GraphQLList):
        yield "scalar for a list", 5
        for l, b in bad(t.of_type, depth):
            yield "in list: " + l, [b]
        return
    if isinstance(t, GraphQLEnumType):
        yield "undeclared enum value", "NOT_A_VALUE"
        yield "list for an enum", [list(t.values)[0]]
        return
    if isinstance(t, GraphQLScalarType):
        for b in BAD.get(t.name, []):
            yield f"{type(b).__name__} for {t.name}", b
        return
    yield "text for an input object", "text"
    yield "list for an input object", []
    if depth < 0:
        return
    base = {n: simplest(f.type, 3) for n, f in t.fields.items() if required(f.type, f.default_value)}
    for n, f in t.fields.items():
        if required(f.type, f.default_value):
            yield f"missing required {n}", {k: v for k, v in base.items() if k != n}
        for l, b in bad(f.type, depth - 1):
            if b is None and isinstance(f.type, GraphQLNonNull) and f.default_value is not Undefined:
                continue  # null for a non-null field with a default: the server refuses it, the model cannot know
            yield f"{n}: {l}", {**base, n: b}


def leaf_is(t, name):
    while hasattr(t, "of_type"):
        t = t.of_type
    return t.name == name


def legal(t, wire):
    errs = []
    coerce_input_value(wire, t, lambda *a: errs.append(a))
    return not errs
