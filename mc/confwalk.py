"""What a turms configuration may say, read off the configuration classes themselves."""
import enum
import typing

from pydantic import BaseModel

STAGES = {
    "plugins": ["turms.plugins.enums.EnumsPlugin", "turms.plugins.inputs.InputsPlugin", "turms.plugins.fragments.FragmentsPlugin", "turms.plugins.operations.OperationsPlugin", "turms.plugins.funcs.FuncsPlugin", "turms.plugins.input_funcs.InputFuncsPlugin",
                "turms.plugins.objects.ObjectsPlugin", "turms.plugins.strawberry.StrawberryPlugin"],
    "stylers": ["turms.stylers.capitalize.CapitalizeStyler", "turms.stylers.snake_case.SnakeCaseStyler", "turms.stylers.default.DefaultStyler", "turms.stylers.appender.AppenderStyler"],
    "processors": ["turms.processors.black.BlackProcessor", "turms.processors.isort.IsortProcessor", "turms.processors.merge.MergeProcessor", "turms.processors.disclaimer.DisclaimerProcessor", "turms.processors.command.CommandProcessor", "turms.processors.ruff.RuffProcessor"],
    "parsers": ["turms.parsers.polyfill.PolyfillParser"],
}


def load(path):
    import importlib

    m, c = path.rsplit(".", 1)
    return getattr(importlib.import_module(m), c)


def config_class(path):
    a = load(path).model_fields["config"].annotation
    return next((x for x in typing.get_args(a) if isinstance(x, type)), a)


def kinds(a):
    """the kinds of JSON values an annotation takes: a subset of str bool int float list dict null any, with what is within"""
    o, args = typing.get_origin(a), typing.get_args(a)
    if a is typing.Any:
        return {"any"}
    if a is type(None):
        return {"null"}
    if o is typing.Union or o is not None and getattr(o, "__name__", "") == "UnionType":
        return set().union(*(kinds(x) for x in args))
    if o is typing.Literal or isinstance(a, type) and issubclass(a, enum.Enum):
        return {"choice"}
    if o in (list, tuple, set) or a in (list, tuple, set):
        return {"list"}
    if o is dict or a is dict or isinstance(a, type) and issubclass(a, BaseModel):
        return {"dict"}
    if a in (str, bool, int, float):
        return {a.__name__}
    if isinstance(a, type) and issubclass(a, str):
        return {"path"}
    return {"any"}


VALUES = {"str": "text", "bool": True, "int": 7, "float": 1.5, "list": [], "dict": {}, "null": None, "listint": [1], "liststr": ["text"], "dictint": {"a": 1}, "listlist": [[]]}
# what pydantic takes for what on purpose
TAKES = {"str": {"str"}, "path": set(), "choice": set(), "bool": {"bool"}, "int": {"int", "bool"}, "float": {"float", "int", "bool"}, "list": {"list", "listint", "liststr", "listlist"}, "dict": {"dict", "dictint"}, "null": {"null"}, "any": set(VALUES)}


def wrong(a):
    """values that are of no kind the annotation takes"""
    ok = set().union(*(TAKES[k] for k in kinds(a)))
    return [(n, v) for n, v in VALUES.items() if n not in ok]


def inner(a):
    """[(wrapping function, annotation)] of what is within lists, dicts and optionals"""
    o, args = typing.get_origin(a), typing.get_args(a)
    out = []
    if o is typing.Union or o is not None and getattr(o, "__name__", "") == "UnionType":
        for x in args:
            out += inner(x)
    elif o is list and args:
        out += [(lambda v: [v], args[0])] + [(lambda v, w=w: [w(v)], b) for w, b in inner(args[0])]
    elif o is dict and len(args) == 2:
        out += [(lambda v: {"X": v}, args[1])] + [(lambda v, w=w: {"X": w(v)}, b) for w, b in inner(args[1])]
    return out


def models(a):
    if isinstance(a, type) and issubclass(a, BaseModel):
        return [a]
    return [m for x in typing.get_args(a) for m in models(x)]


def minimal(cls):
    """the smallest valid value of a configuration class"""
    out = {}
    for n, f in cls.model_fields.items():
        if f.is_required():
            k = kinds(f.annotation)
            out[n] = "text" if "str" in k else "builtins.str" if "path" in k else list(f.annotation)[0].value if "choice" in k else True
    return out


def corruptions(cls):
    """every single corruption of the configuration class: (what, changes to a valid dict)"""
    names = list(cls.model_fields)
    for n in names + ["turms"]:
        for x in {n + "s", n[:-1] + "e" if n[-1] != "e" else n[:-1], n.upper(), n.title(), n.replace("_", "-"), n.replace("_", ""), " " + n, "unknown", ""} - set(names):
            yield f"unknown key {x!r}", {x: True}
    for n, f in cls.model_fields.items():
        if n == "type" and str in (f.annotation,):
            continue
        for vn, v in wrong(f.annotation):
            yield f"{n}: {vn}", {n: v}
        if "choice" in kinds(f.annotation):
            yield f"{n}: unknown choice", {n: "unheard-of"}
        if "path" in kinds(f.annotation):
            yield f"{n}: no path", {n: "unheard_of"}
        for w, a in inner(f.annotation):
            for vn, v in wrong(a):
                yield f"{n} of {vn}", {n: w(v)}
            if "choice" in kinds(a):
                yield f"{n} of unknown choice", {n: w("unheard-of")}
            if "path" in kinds(a):
                yield f"{n} of no path", {n: w("unheard_of")}
            if models(a) == [a]:
                for what, change in corruptions(a):
                    yield f"{n} > {what}", {n: w({**minimal(a), **change})}
                for k in minimal(a):
                    yield f"{n} > without {k}", {n: w({x: y for x, y in minimal(a).items() if x != k})}
        if isinstance(f.annotation, type) and issubclass(f.annotation, BaseModel):
            for what, change in corruptions(f.annotation):
                yield f"{n} > {what}", {n: {**minimal(f.annotation), **change}}
