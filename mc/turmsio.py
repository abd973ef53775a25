"""Drives the code under test through its public, configuration-level interface only.

Nothing here names an internal function of the generator besides `turms.run.generate`
(the entry point the command line uses), so the harness follows any refactoring that keeps
behaviour.
"""
import contextlib
import io
import itertools
import os
import shutil
import sys
import tempfile
import types
import warnings

warnings.filterwarnings("ignore")

REPO = os.environ.get("TURMS_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)

_counter = itertools.count()

PLUG = {
    "enums": "turms.plugins.enums.EnumsPlugin",
    "inputs": "turms.plugins.inputs.InputsPlugin",
    "input_funcs": "turms.plugins.input_funcs.InputFuncsPlugin",
    "objects": "turms.plugins.objects.ObjectsPlugin",
    "fragments": "turms.plugins.fragments.FragmentsPlugin",
    "operations": "turms.plugins.operations.OperationsPlugin",
    "funcs": "turms.plugins.funcs.FuncsPlugin",
    "strawberry": "turms.plugins.strawberry.StrawberryPlugin",
}
STYL = {
    "default": "turms.stylers.default.DefaultStyler",
    "capitalize": "turms.stylers.capitalize.CapitalizeStyler",
    "snake": "turms.stylers.snake_case.SnakeCaseStyler",
    "appender": "turms.stylers.appender.AppenderStyler",
}


def base_tmp():
    d = "/dev/shm"
    return d if os.path.isdir(d) and os.access(d, os.W_OK) else None


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="turmsmc_", dir=base_tmp())
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def plugins(*names, **cfg):
    """('enums', ('funcs', {...})) -> configuration list"""
    out = []
    for n in names:
        extra = {}
        if isinstance(n, (tuple, list)):
            n, extra = n
        out.append({"type": PLUG.get(n, n), **extra})
    return out


def stylers(*names):
    out = []
    for n in names:
        extra = {}
        if isinstance(n, (tuple, list)):
            n, extra = n
        out.append({"type": STYL.get(n, n), **extra})
    return out


class GenFailed(Exception):
    """The generator refused the input (or crashed on it)."""


def make_project(schema, documents, turms):
    from turms.config import GraphQLProject

    return GraphQLProject(
        **{"schema": schema, "documents": documents, "extensions": {"turms": turms}}
    )


def write_tree(root, files):
    for rel, text in files.items():
        p = os.path.join(root, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w", encoding="utf-8") as f:
            f.write(text)


def generate(sdl, docs, turms):
    """sdl: str, docs: str | {name: text} | None, turms: config dict -> source text"""
    from turms.run import generate as turms_generate

    with scratch() as d:
        files = {"schema.graphql": sdl}
        if docs is not None:
            if isinstance(docs, str):
                docs = {"a.graphql": docs}
            files.update({"documents/" + k: v for k, v in docs.items()})
        write_tree(d, files)
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                project = make_project(
                    os.path.join(d, "schema.graphql"),
                    os.path.join(d, "documents", "*.graphql") if docs is not None else None,
                    turms,
                )
                out = turms_generate(project, log=lambda *a, **k: None)
        except Exception as e:  # noqa
            raise GenFailed(f"{type(e).__name__}: {e}") from e
    return out[0] if isinstance(out, tuple) else out


class LoadFailed(Exception):
    """The generated module cannot be imported."""


@contextlib.contextmanager
def loaded(code):
    """Executes generated code as a real module; the module is forgotten afterwards."""
    name = f"turmsmc_gen_{os.getpid()}_{next(_counter)}"
    mod = types.ModuleType(name)
    sys.modules[name] = mod
    try:
        try:
            exec(compile(code, name, "exec"), mod.__dict__)
        except Exception as e:  # noqa
            raise LoadFailed(f"{type(e).__name__}: {e}") from e
        yield mod
    finally:
        sys.modules.pop(name, None)
        mod.__dict__.clear()


CLIENT = ["enums", "inputs", "fragments", "operations"]


def client_config(plugs=CLIENT, style=(), **kw):
    cfg = {"plugins": plugins(*plugs), "stylers": stylers(*style)}
    cfg.update(kw)
    return cfg
