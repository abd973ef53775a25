"""C11: generation is deterministic."""
import itertools
import json
import os
import subprocess
import sys

from .. import ownset
from ..explore import Stats, explore
from ..turmsio import REPO, client_config, plugins, scratch, stylers, write_tree

ID = "C11"
LEVEL = "model_checking"
RULE = ("one case = one project and one source of nondeterminism. order: the iteration order of every set the code builds, every directory "
        "listing and every clock/pid/random read is a choice point; all choice sequences up to a deviation bound are executed on the real generator. "
        "history: all sequences of generations up to a length in one process, with fresh and reused configuration objects. process: the command line in "
        "fresh processes under every combination of hash seed, locale, time zone and directory creation order. Every output must be "
        "byte-identical to that of a fresh default process. Outcomes: distinct projects and choice labels.")
BOUNDS = {
    "quick": "7 projects; order: <=1 deviation; all histories of <=3 generations over 5 projects (one failing); 6 hash seeds x 5 locales x 2 time zones x 2 listings",
    "thorough": "as quick with order <=2 deviations, histories <=4, 16 hash seeds",
}
ASSUMPTIONS = ["iteration orders: sorted, reversed and rotated stand for all orders of one set; order of sets inside graphql-core and pydantic is only varied by the hash seeds"]
TASKS_PER_CHILD = 1
CASE_TIMEOUT = 600

SDL = '''
"Farben \u00fc \u4e2d"
enum Color { RED GREEN } enum Shape { ROUND SQUARE } enum Size { S L }
scalar Date scalar Time scalar JSON scalar Money
interface Node { id: ID! } interface Named { name: String! size: Size } interface Aged { age(unit: Color): Int }
"ein Hund \u00e4"
type Dog implements Node & Named & Aged { id: ID! name: String! size: Size age(unit: Color): Int barks: Money born: Date }
type Cat implements Named & Node { id: ID! name: String! size: Size meows: Time friend: Pet }
type Fish implements Aged & Node { id: ID! age(unit: Color): Int fin: JSON shape: Shape }
union Pet = Dog | Cat | Fish
input A { b: B c: Color d: Date } input B { a: A s: Shape t: [C!] } input C { m: Money j: JSON }
type Query { node(a: A): Node named: [Named!]! pet: Pet aged(b: [B!]): Aged dog(c: Color, d: Date = "2020-01-01"): Dog }
type Mutation { set(a: A!, b: B): Dog } type Subscription { tick(s: Shape): Pet }
'''
DOCS = {
    "z.graphql": "query Get($a: A) {\n # liest \u00e4\n node(a: $a) { ...N ... on Dog { ...D ...E } ... on Cat { meows } } }\nquery Named { named { name ...Nm } pet { ...P } }",
    "a.graphql": "fragment N on Node { id ...Nm2 } fragment Nm2 on Node { id } fragment Nm on Named { size ... on Cat { ...C } }",
    "sub_m.graphql": "fragment D on Dog { ...E barks } fragment E on Dog { born ...F } fragment F on Dog { name age } fragment C on Cat { name friend { ... on Fish { fin } } } "
                     "fragment P on Pet { ... on Dog { ...D } ... on Cat { ...C } ... on Fish { shape } }",
    "k.graphql": "mutation Set($a: A!, $b: B) { set(a: $a, b: $b) { ...D id } } subscription Tick($s: Shape) { tick(s: $s) { ...P } } query Aged($b: [B!]) { aged(b: $b) { age(unit: RED) ... on Fish { id } } }",
}
SCALARS = {"Date": "datetime.date", "Time": "datetime.time", "JSON": "typing.Any", "Money": "decimal.Decimal"}
BASES = {"additional_bases": {"Dog": ["mc.bases.Loud", "mc.bases.Furry"], "Cat": ["mc.bases.Furry"]}, "object_bases": ["pydantic.BaseModel"]}
DEFS = [{"type": t, "is_async": a, "use": f"mc.proxies.{'a' if a else ''}{u}"} for t, u in (("query", "query"), ("mutation", "mutate"), ("subscription", "subscribe")) for a in (False, True)]
SNAKE = ["default", "snake"]


def projects():
    client = ["enums", "inputs", "fragments", "operations"]
    return {
        "client": {"sdl": SDL, "docs": DOCS, "cfg": client_config(client + [("funcs", {"definitions": DEFS})], SNAKE, scalar_definitions=SCALARS, **BASES)},
        "plain": {"sdl": SDL, "docs": DOCS, "cfg": client_config(client + ["input_funcs"], ["capitalize"], scalar_definitions=SCALARS, freeze={"enabled": True}, options={"enabled": True, "extra": "forbid"},
                                                                create_catchall=False, coercible_scalars={"Date": "builtins.str", "ID": "builtins.int"})},
        "objects": {"sdl": SDL, "docs": None, "cfg": client_config(["enums", "inputs", "objects"], SNAKE, scalar_definitions=SCALARS, **BASES)},
        "strawberry": {"sdl": SDL, "docs": None, "cfg": client_config([("strawberry", {})], ["capitalize", "snake"], scalar_definitions=SCALARS, skip_forwards=True)},
        "formatted": {"sdl": SDL, "docs": DOCS, "cfg": {**client_config(client, SNAKE, scalar_definitions=SCALARS, additional_bases={"Dog": ["collections.abc.Hashable"]}), "processors": [
            {"type": "turms.processors.disclaimer.DisclaimerProcessor"}, {"type": "turms.processors.isort.IsortProcessor"}, {"type": "turms.processors.black.BlackProcessor"}]}},
        "command": {"sdl": SDL, "docs": DOCS, "cfg": {**client_config(client, SNAKE, scalar_definitions=SCALARS), "processors": [{"type": "turms.processors.command.CommandProcessor", "command": "cat"}]}},
        "small": {"sdl": "type Query { a: A me: Int } type A { c: Color x: String } enum Color { GREEN RED }", "docs": "query Get { a { x c } } query N { me }", "cfg": client_config(["enums", "fragments", "operations"], ["default", "appender"])},
        "invalid": {"sdl": SDL, "docs": "query Get { nothing }", "cfg": client_config(client, SNAKE, scalar_definitions=SCALARS)},
    }


P = projects()


def cases(tier):
    for name in P:
        if name not in ("invalid", "command"):
            yield {"key": f"order:{name}", "kind": "order", "project": name, "bound": 1}
        if tier == "thorough" and name in ("client", "objects", "strawberry", "plain"):
            for part in range(16):
                yield {"key": f"order2:{name}:{part}", "kind": "order", "project": name, "bound": 2, "part": part}
    hist = ["client", "plain", "objects", "small", "invalid"]
    for reuse in (False, True):
        for n in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
            for first in hist:
                if n > 2 and reuse and tier == "quick":
                    continue
                yield {"key": f"history:{n}:{first}:{reuse}", "kind": "history", "n": n, "first": first, "names": hist, "reuse": reuse}
    for name in ("client", "strawberry", "formatted", "objects", "command"):
        for seed in range(6 if tier == "quick" else 16):
            yield {"key": f"process:{name}:{seed}", "kind": "process", "project": name, "seed": seed}


_expect = {}


def expect(name):
    if name not in _expect:
        r = subprocess.run([sys.executable, "-W", "ignore", "-m", "mc.oneshot"], input=json.dumps(P[name]).encode(), capture_output=True,
                           env={**os.environ, "PYTHONHASHSEED": "0", "PYTHONPATH": os.getcwd()}, timeout=120)
        if r.returncode or not r.stdout:
            raise RuntimeError(r.stderr.decode()[-500:])
        _expect[name] = r.stdout.decode()
    return _expect[name]


def setup(tier):
    for name in P:
        expect(name)


def gen(name, project=None):
    from ..turmsio import GenFailed, generate

    try:
        return generate(P[name]["sdl"], P[name]["docs"], P[name]["cfg"])
    except GenFailed as e:
        return f"FAILED {e}"


def same(name, code):
    want = expect(name)
    if want.startswith("FAILED"):
        return None if code.startswith("FAILED") else "is generated although the documents are invalid"
    if code == want:
        return None
    a, b = want.splitlines(), code.splitlines()
    for i, (x, y) in enumerate(itertools.zip_longest(a, b)):
        if x != y:
            return f"line {i + 1} is {y!r}, not {x!r}"
    return "differs in line ends"


def run(case, st):
    return {"order": run_order, "history": run_history, "process": run_process}[case["kind"]](case, st)


def run_order(case, st):
    name = case["project"]
    want = expect(name)
    ownset.install()
    import black, isort, pydantic, pydantic_settings, requests, yaml  # noqa: third parties keep the real clocks
    ownset.env_reads()
    gen(name)  # imports everything
    problems = []

    def go(ch):
        ownset.CH[0] = ch
        try:
            return gen(name)
        finally:
            ownset.CH[0] = None

    part = case.get("part")
    ex = Stats()
    if part is None:
        it = explore(go, case["bound"], ex)
    else:
        it = partial(go, part, 16, ex)
    for code, ch in it:
        d = same(name, code)
        for l in ch.labels:
            st.outcome(name, l)
        if d:
            dev = [(i, ch.labels[i], c) for i, c in enumerate(ch.trace) if c]
            problems.append(("order", f"{name}: with other orders/answers at {dev}: {d}"))
            if len(problems) > 2:
                break
    st.states += ex.states
    st.transitions += ex.transitions
    st.traces += ex.traces
    return problems


def partial(go, part, parts, ex):
    """the executions with exactly two deviations whose first one is at a position of this part"""
    from ..explore import Chooser

    base = Chooser()
    go(base)
    for i in range(part, len(base.trace), parts):
        for a in range(1, base.widths[i]):
            prefix = tuple(base.trace[:i]) + (a,)
            one = Chooser(prefix)
            yield go(one), one
            ex.traces += 1
            for j in range(i + 1, len(one.trace)):
                for b in range(1, one.widths[j]):
                    two = Chooser(tuple(one.trace[:j]) + (b,))
                    ex.traces += 1
                    ex.states += 1
                    ex.transitions += 1
                    yield go(two), two


def run_history(case, st):
    problems = []
    for rest in itertools.product(case["names"], repeat=case["n"] - 1):
        seq = (case["first"], *rest)
        st.states += 1
        st.traces += 1
        objs = {}
        with scratch() as d:
            for i, name in enumerate(seq):
                st.transitions += 1
                code = generate_reusing(d, name, objs) if case["reuse"] else gen(name)
                diff = same(name, code)
                st.outcome(name, i)
                if diff:
                    problems.append(("history", f"{' -> '.join(seq[:i + 1])}{' (one configuration object)' if case['reuse'] else ''}: {name} {diff}"))
                    break
        if len(problems) > 2:
            break
    return problems


def generate_reusing(d, name, objs):
    import contextlib
    import io

    from turms.run import generate

    from ..turmsio import make_project

    p = P[name]
    if name not in objs:
        docs = p["docs"] if not isinstance(p["docs"], str) else {"a.graphql": p["docs"]}
        write_tree(d, {f"{name}/schema.graphql": p["sdl"], **{f"{name}/documents/{k}": v for k, v in (docs or {}).items()}})
        objs[name] = make_project(f"{d}/{name}/schema.graphql", f"{d}/{name}/documents/*.graphql" if docs else None, p["cfg"])
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            return generate(objs[name], log=lambda *a, **k: None)[0]
    except Exception as e:
        return f"FAILED {type(e).__name__}: {e}"


LOCALES = {"utf8": {"LC_ALL": "C.UTF-8"}, "c": {"LC_ALL": "C"}, "ascii": {"LC_ALL": "C", "PYTHONCOERCECLOCALE": "0", "PYTHONUTF8": "0"},
           "posix": {"LC_ALL": "POSIX", "PYTHONIOENCODING": "latin-1"}, "none": {"LANG": "de_DE.ISO-8859-1", "PYTHONUTF8": "0"}}


def run_process(case, st):
    import yaml

    name = case["project"]
    p = P[name]
    want = expect(name)
    problems = []
    for n, ((ln, loc), tz, back) in enumerate(itertools.product(LOCALES.items(), ("UTC", "Asia/Kolkata"), (False, True))):
        if (n + case["seed"]) % 2 and case["seed"]:
            continue  # seed 0 meets every combination, each other one half of them
        st.states += 1
        st.transitions += 1
        st.traces += 1
        with scratch() as d:
            docs = list((p["docs"] or {}).items())
            for k, v in docs[::-1] if back else docs:
                write_tree(d, {f"documents/{k}": v})
            write_tree(d, {"schema.graphql": p["sdl"]})
            cfg = {"projects": {"default": {"schema": "schema.graphql", **({"documents": "documents/*.graphql"} if docs else {}), "extensions": {"turms": p["cfg"]}}}}
            write_tree(d, {"graphql.config.yaml": yaml.safe_dump(cfg, allow_unicode=True)})
            env = {"PATH": os.environ["PATH"], "HOME": d, "PYTHONHASHSEED": str(case["seed"]), "TZ": tz, "PYTHONPATH": f"{REPO}:{os.getcwd()}", "PYTHONDONTWRITEBYTECODE": "1", **loc}
            r = subprocess.run([sys.executable, "-W", "ignore", "-c", "from turms.cli.main import cli; cli()", "gen"], cwd=d, env=env, capture_output=True, timeout=120, stdin=subprocess.DEVNULL)
            try:
                with open(f"{d}/api/schema.py", "rb") as f:
                    got = f.read().decode("utf-8")
            except (OSError, UnicodeDecodeError) as e:
                problems.append(("process", f"{name}: {loc} {tz}: {e}: {r.stdout.decode('latin-1')[-300:]} {r.stderr.decode('latin-1')[-300:]}"))
                break
            st.outcome(name, ln)
            if r.returncode:
                problems.append(("exit", f"{name}: exit code {r.returncode} with {loc}: {r.stderr.decode('latin-1')[-300:]}"))
                break
            d1 = same(name, got)
            if d1:
                problems.append(("process", f"{name}: hash seed {case['seed']}, {loc}, {tz}, listing {back}: {d1}"))
                break
    return problems
