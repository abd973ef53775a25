"""Response round trip: the reference server of server.py against generated models."""
import re

from graphql import build_schema
from pydantic import ValidationError

from .docs import ZOO, ZOO_SCHEMA
from .explore import explore
from .pyd import dump, tojson
from .server import Doc, Responder, put
from .turmsio import GenFailed, LoadFailed, generate, loaded

_schemas = {ZOO: ZOO_SCHEMA}


def schema_of(sdl):
    if sdl not in _schemas:
        _schemas[sdl] = build_schema(sdl)
    return _schemas[sdl]


def operations_of(mod):
    """{operation name: generated class}: the classes whose Meta.document is that operation."""
    out = {}
    for k, v in list(vars(mod).items()):
        meta = getattr(v, "Meta", None) if isinstance(v, type) else None
        doc = getattr(meta, "document", None)
        if isinstance(doc, str):
            for m in re.finditer(r"^(query|mutation|subscription)\s+([_A-Za-z0-9]+)", doc, re.M):
                out[m.group(2)] = v
    return out


def with_module(sdl, docs, cfg, fn):
    """fn(module, schema, Doc of the user's text) on the generated module -> problems"""
    schema = schema_of(sdl)
    text = docs if isinstance(docs, str) else "\n".join(docs.values())
    try:
        code = generate(sdl, docs, cfg)
    except GenFailed as e:
        return [("generate", f"generation failed on a valid document: {str(e)[:400]}\n{text}")]
    try:
        with loaded(code) as mod:
            return fn(mod, schema, Doc(schema, text))
    except LoadFailed as e:
        return [("load", f"generated module does not import: {e}\n{text}")]


def schema_module(sdl, cfg, fn):
    """fn(module, schema) on the module generated from the schema alone -> problems"""
    try:
        code = generate(sdl, None, cfg)
    except GenFailed as e:
        return [("generate", f"generation failed on a valid schema: {str(e)[:400]}\n{sdl}")]
    try:
        with loaded(code) as mod:
            return fn(mod, schema_of(sdl))
    except LoadFailed as e:
        return [("load", f"generated module does not import: {e}\n{sdl}")]


def positives(mod, schema, user, st, bound, max_traces=None):
    """Every response the reference server can give (up to `bound` deviations) is parsed, and
    nothing in it is lost."""
    problems = []
    ops = operations_of(mod)
    for name in user.ops:
        cls = ops.get(name)
        if cls is None:
            problems.append(("missing", f"no class generated for operation {name}"))
            continue
        sent = Doc(schema, cls.Meta.document)
        op = sent.ops[name]

        def run(ch):
            return Responder(schema, sent, ch).respond(op)

        for resp, ch in explore(run, bound, st, max_traces):
            try:
                obj = cls.model_validate(resp)
            except ValidationError as e:
                problems.append(("reject", f"{name}: valid response rejected: {resp!r}: {str(e)[:300]}"))
                continue
            got = dump(obj)
            if got != tojson(resp):
                problems.append(("lossy", f"{name}: response {resp!r} read back as {got!r}"))
            # and the user's own selection is in what was sent
            st.outcome(shape(resp))
        if problems:
            break
    return problems[:6]


def shape(x):
    if isinstance(x, dict):
        return tuple((k, shape(v)) for k, v in sorted(x.items()))
    if isinstance(x, list):
        return ("L",) + tuple(sorted({shape(v) for v in x}, key=repr))
    return None if x is None else type(x).__name__


def negatives(mod, schema, user, st, bound):
    """Every single-point corruption of such a response is refused."""
    problems = []
    ops = operations_of(mod)
    for name in user.ops:
        cls = ops.get(name)
        if cls is None:
            return [("missing", f"no class generated for operation {name}")]
        sent = Doc(schema, cls.Meta.document)
        op = sent.ops[name]

        def run(ch):
            r = Responder(schema, sent, ch)
            return r.respond(op), r

        done = set()
        for (resp, r), ch in explore(run, bound, st):
            try:
                cls.model_validate(resp)
            except ValidationError:
                continue  # C01's business
            abstract = {p for p, kind, *_ in r.slots if kind == "abstract"}
            for p, kind, nullable, t in r.slots:
                rt = tuple(_at(resp, q).get("__typename") for q in sorted(abstract, key=len) if p[: len(q)] == q)
                key = (tuple(x if isinstance(x, str) else 0 for x in p), kind, str(t), rt)
                if key in done:
                    continue
                done.add(key)
                for label, bad in mutants(resp, p, kind, nullable, t):
                    st.evals += 1
                    try:
                        o = cls.model_validate(bad)
                    except ValidationError:
                        st.outcome(label, kind, str(t))
                        continue
                    problems.append(("accept", f"{name}: {label} at {'.'.join(map(str, p))} accepted: {bad!r} read as {dump(o)!r}"))
                    if len(problems) > 4:
                        return problems
    return problems


def _at(data, path):
    for p in path:
        data = data[p]
    return data


def mutants(resp, p, kind, nullable, t):
    if kind == "null":
        return
    if kind == "typename":
        yield "unknown __typename", put(resp, p, "NoSuchType")
        return
    if not nullable:
        yield "null for a non-null position", put(resp, p, None)
        if isinstance(p[-1], str):
            yield "missing non-null field", put(resp, p, None, drop=True)
    if kind == "list":
        yield "scalar for a list", put(resp, p, 5)
        yield "object for a list", put(resp, p, {"a": 1})
    elif kind in ("object", "abstract"):
        yield "scalar for an object", put(resp, p, 5)
        yield "list for an object", put(resp, p, [])
    elif kind == "enum":
        yield "undeclared enum value", put(resp, p, "NOT_A_VALUE")
        yield "list for an enum", put(resp, p, ["x"])
    elif kind == "scalar":
        yield "object for a scalar", put(resp, p, {"a": 1})
        if t.name != "JSON":
            yield "list for a scalar", put(resp, p, ["x"])
        if t.name in ("Int", "Float", "Date", "DateTime"):
            yield "text for a number or date", put(resp, p, "certainly not")
        if t.name in ("String", "ID"):
            yield "number for a text", put(resp, p, 5)
