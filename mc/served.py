"""Loads a generated server skeleton and reports how what it serves differs from the source schema."""
import inspect
import warnings

from graphql import (GraphQLEnumType, GraphQLInputObjectType, GraphQLInterfaceType, GraphQLObjectType, GraphQLScalarType, GraphQLUnionType, Undefined, build_schema, is_introspection_type,
                     is_specified_scalar_type, print_type, validate_schema)
from graphql.pyutils import inspect as _inspect  # noqa: F401

warnings.filterwarnings("ignore")

KINDS = (GraphQLEnumType, GraphQLInputObjectType, GraphQLInterfaceType, GraphQLObjectType, GraphQLScalarType, GraphQLUnionType)


def kind(t):
    return next(k.__name__[7:] for k in KINDS if isinstance(t, k))


class ServeFailed(Exception):
    pass


def served_names(mod):
    """every strawberry type of the module, by the name it is served under"""
    from strawberry.types import get_object_definition

    out = {}
    for v in list(vars(mod).values()):
        if inspect.isclass(v) and v.__module__ == mod.__name__:
            d = get_object_definition(v, strict=False)
            if d is not None:
                out[d.name] = v
    return out


def serve(mod, source, camel=True):
    """The schema object the module's classes make up (root types by the names the source gives them)."""
    import strawberry
    from strawberry.schema.config import StrawberryConfig

    try:
        names = served_names(mod)
        roots = {k: names.get(t.name) for k, t in (("query", source.query_type), ("mutation", source.mutation_type), ("subscription", source.subscription_type)) if t is not None}
        if any(v is None for v in roots.values()):
            raise ServeFailed(f"no class serves the root type: {roots} of {sorted(names)}")
        return strawberry.Schema(**roots, types=[v for v in names.values() if v not in roots.values()], config=StrawberryConfig(auto_camel_case=camel))
    except ServeFailed:
        raise
    except Exception as e:  # noqa
        raise ServeFailed(f"{type(e).__name__}: {e}") from e


def default_of(a):
    """the default in the values a client would see"""
    if a.default_value is Undefined:
        return "none"
    from graphql import ast_from_value, print_ast

    try:
        node = ast_from_value(a.default_value, a.type)
        return print_ast(node)
    except Exception as e:  # noqa
        return f"invalid ({type(e).__name__}: {e})"


def _args(out, where, want, have, more, defaults=True):
    for n, a in want.items():
        if n not in have:
            out.append(f"{where}: {n} is not served")
        else:
            b = have[n]
            if str(a.type) != str(b.type):
                out.append(f"{where}: {n} is served as {b.type}, not {a.type}")
            if default_of(a) != default_of(b):
                out.append(f"{where}: default of {n} is served as {default_of(b)}, not {default_of(a)}")
    if not more:
        for n in have:
            if n not in want:
                out.append(f"{where}: {n} is served but not in the schema")


def differences(source, served, more=False, optional=()):
    """more: the served schema may contain more; optional: names that need not be served"""
    out = []
    have = served.type_map
    used = {n: t for n, t in source.type_map.items() if not is_introspection_type(t) and not is_specified_scalar_type(t)}
    for n, t in used.items():
        if n in optional:
            continue
        if n not in have:
            out.append(f"{kind(t)} {n} is not served")
            continue
        u = have[n]
        if kind(t) != kind(u):
            out.append(f"{n} is served as {kind(u)}, not {kind(t)}")
            continue
        if isinstance(t, GraphQLEnumType):
            a, b = set(t.values), set(u.values)
            if a - b or (b - a and not more):
                out.append(f"values of {n} are served as {sorted(b)}, not {sorted(a)}")
        elif isinstance(t, GraphQLUnionType):
            a, b = {x.name for x in t.types}, {x.name for x in u.types}
            if a - b or (b - a and not more):
                out.append(f"members of {n} are served as {sorted(b)}, not {sorted(a)}")
        elif isinstance(t, GraphQLInputObjectType):
            _args(out, n, t.fields, u.fields, more)
            if bool(t.ast_node and any(d.name.value == "oneOf" for d in t.ast_node.directives)) != bool(getattr(u, "is_one_of", False) or (u.extensions.get("strawberry-definition") and u.extensions["strawberry-definition"].is_one_of)):
                out.append(f"{n}: one-of is not served as in the schema")
        elif isinstance(t, (GraphQLObjectType, GraphQLInterfaceType)):
            a, b = {x.name for x in t.interfaces}, {x.name for x in u.interfaces}
            if a - b or (b - a and not more):
                out.append(f"interfaces of {n} are served as {sorted(b)}, not {sorted(a)}")
            for f, d in t.fields.items():
                if f not in u.fields:
                    out.append(f"{n}.{f} is not served")
                    continue
                e = u.fields[f]
                if str(d.type) != str(e.type):
                    out.append(f"{n}.{f} is served as {e.type}, not {d.type}")
                _args(out, f"{n}.{f}", d.args, e.args, more)
                if (d.deprecation_reason or None) != (e.deprecation_reason or None):
                    out.append(f"{n}.{f}: deprecation is served as {e.deprecation_reason!r}")
            if not more:
                for f in u.fields:
                    if f not in t.fields:
                        out.append(f"{n}.{f} is served but not in the schema")
    if not more:
        for n, u in have.items():
            if n not in used and not is_introspection_type(u) and not is_specified_scalar_type(u):
                out.append(f"{kind(u)} {n} is served but not in the schema: {print_type(u)[:60]!r}")
    return out
