"""What a user of a generated module can see: classes, fields, types, documents, functions."""
import enum
import inspect
import types
import typing

from graphql import FieldNode, FragmentDefinitionNode, parse, print_ast
from pydantic import BaseModel


def canon(t, name):
    """A printable form of an annotation that does not depend on the order of union members."""
    if isinstance(t, str):
        return t
    if isinstance(t, typing.ForwardRef):
        return t.__forward_arg__
    origin = typing.get_origin(t)
    if origin is typing.Annotated:
        return f"Annotated[{canon(t.__origin__, name)}, {', '.join(meta(m) for m in t.__metadata__)}]"
    if origin is typing.Union or origin is getattr(types, "UnionType", None):
        return f"Union[{', '.join(sorted(canon(a, name) for a in t.__args__))}]"
    if origin is typing.Literal:
        return f"Literal[{', '.join(sorted(map(repr, t.__args__)))}]"
    if origin is not None:
        return f"{getattr(origin, '__name__', origin)}[{', '.join(canon(a, name) for a in t.__args__)}]"
    if isinstance(t, type):
        return t.__name__ if t.__module__ == name else f"{t.__module__}.{t.__name__}"
    return meta(t)


def meta(m):
    if inspect.isfunction(m):
        return m.__name__
    return repr(m).replace(getattr(m, "__module__", "") or "", "")


def document(text):
    return sorted(" ".join(print_ast(d).split()) for d in parse(text).definitions)


def field(f, k, name):
    return (k, f.alias, canon(f.annotation, name), tuple(meta(m) for m in f.metadata), f.is_required(), repr(f.default), f.description)


def signature(mod):
    """{name: what is observable about it}"""
    name = mod.__name__
    out = {}
    for k, v in vars(mod).items():
        if k.startswith("__"):
            continue
        if isinstance(v, type):
            if v.__module__ == name:
                out[k] = of_class(v, name)
        elif inspect.isfunction(v):
            if v.__module__ == name:
                out[k] = ("function", inspect.iscoroutinefunction(v), inspect.isgeneratorfunction(v) or inspect.isasyncgenfunction(v),
                          of_function(v, name), v.__doc__)
        elif not isinstance(v, types.ModuleType) and getattr(v, "__module__", "typing") in ("typing", name) and k not in vars(typing):
            out[k] = ("alias", canon(v, name))
    return out


def of_function(fn, name):
    hints = fn.__annotations__
    return tuple((p.name, str(p.kind), canon(hints.get(p.name), name), p.default is inspect.Parameter.empty or type(p.default).__name__)
                 for p in inspect.signature(fn).parameters.values()) + (canon(hints.get("return"), name),)


def of_class(c, name):
    bases = tuple(sorted(b.__name__ if b.__module__ == name else f"{b.__module__}.{b.__name__}" for b in c.__mro__[1:]))
    if issubclass(c, enum.Enum):
        return ("enum", bases, tuple((m.name, m.value) for m in c), c.__doc__)
    if issubclass(c, BaseModel):
        doc = getattr(c.__dict__.get("Meta"), "document", None)  # an inherited one belongs to a fragment
        args = c.__dict__.get("Arguments")
        return ("model", bases, tuple(sorted((field(f, k, name) for k, f in c.model_fields.items()), key=repr)),
                tuple(sorted((k, repr(v)) for k, v in c.model_config.items())), tuple(document(doc)) if doc else None,
                of_class(args, name) if args else None, c.__doc__ if "__doc__" in c.__dict__ else None)
    return ("class", bases, tuple(sorted(k for k in c.__dict__ if not k.startswith("__"))))


def difference(a, b):
    """First difference of two signatures, or None."""
    for k in sorted(set(a) | set(b)):
        if k not in a:
            return f"{k} appears: {b[k]!r}"
        if k not in b:
            return f"{k} disappears: {a[k]!r}"
        if a[k] != b[k]:
            parts = [(x, y) for x, y in zip(a[k], b[k]) if x != y] or [(a[k], b[k])]
            return f"{k} differs: {parts[0][0]!r} became {parts[0][1]!r}"
