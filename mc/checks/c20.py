"""C20: the watcher keeps the output equal to a fresh generation of the current files."""
import errno
import itertools
import json
import os

from ..faults import run_cli
from ..turmsio import plugins, scratch, stylers, write_tree
from ..watching import MARK, apply, op_files, watch

ID = "C20"
LEVEL = "model_checking"
RULE = ("one case = one way to name the documents and one set of histories of changes; a trace is one run of the real `turms watch` command, whose notifier is "
        "replaced by a scheduler that lets the files change and reports what the operating system reports; a transition is one batch of changes "
        "handled, after which the output is compared with what `turms gen` makes of a copy of the files (the last good output, marked by hand "
        "beforehand, when that fails or no document changed); a state is one distinct content of the watched files. Outcomes: distinct (changes "
        "reported, generated or kept).")
BOUNDS = {
    "quick": "16 configurations x histories of 2 changes (4 of them: 17 x 8 changes, the others: 9 x 8); one configuration x all histories of 3 out of 9 changes; all pairs of 17 changes in one batch followed by a third; "
    "6 changes made at every file-system call of handling another one (of 3); every file-system call of handling a change failing (2 errors) followed by a change; reported changes compared with the real notifier",
    "thorough": "histories of 3 for all configurations and of 4 for two, all triples in one batch",
}
ASSUMPTIONS = ["the notifier reports every change made below the folders it watches, at the granularity measured on the real one (a folder that appears, moves or vanishes is reported as a folder)",
               "debouncing only changes how changes are grouped into batches: all groupings of pairs are explored"]
CASE_TIMEOUT = 800

S1 = "type Query { a: Int b: T } type T { id: ID name: String }"
S2 = "type Query { a: String b: T } type T { id: ID name: String size: Int }"
V1, V2, SYNTAX, FIELD = "query A { a }", "query A { a b { id name } }", "query A {", "query A { nothing }"


def setup(tier):
    from . import c19

    c19.setup(tier)
    import turms.cli.watch, watchfiles.main  # noqa


MAIN = ("flat", "deep", "parent", "gql")
HOT = ("a2", "asyn", "adel", "amove", "b", "bdel", "dir", "dirmove", "dirgone")
SECOND = ("a2", "afield", "adel", "aback", "b", "dirmove", "dirgone", "other")

# name: (documents as configured, schema, where documents live, working directory, files there from the start)
CONFIGS = {
    "flat": {"documents": "docs/*.graphql"}, "deep": {"documents": "docs/**/*.graphql"}, "name": {"documents": "docs/[a-c]*.graphql"}, "parent": {"documents": "../shared/*.graphql", "dir": "shared"},
    "absolute": {"documents": "{root}/work/docs/*.graphql"}, "outside": {"documents": "{root}/other/*.graphql", "dir": "other"}, "gql": {"documents": "docs/*.gql", "ext": ".gql"}, "single": {"documents": "docs/a.graphql"},
    "turms": {"documents": None, "turms": {"documents": "docs/*.graphql"}}, "projects": {"documents": "docs/*.graphql", "projects": True}, "all": {"documents": "**/*.graphql", "dir": "work", "schemadir": "{root}/api/"},
    "dotted": {"documents": "./docs/*.graphql"}, "outdocs": {"documents": "docs/*.graphql", "turms": {"out_dir": "docs"}}, "anyext": {"documents": "docs/*.g*"}, "post": {"documents": "docs/*.graphql", "turms": {"processors": [{"type": "turms.processors.disclaimer.DisclaimerProcessor"}]}},
    "deepparent": {"documents": "../shared/**/*.graphql", "dir": "shared"},
}


class World:
    def __init__(self, name, root):
        c = CONFIGS[name]
        self.root = root
        self.cwd = os.path.join(root, "work")
        self.dir = {"shared": "shared", "other": "other", "work": "work"}.get(c.get("dir"), "work/docs")
        self.ext = c.get("ext", ".graphql")
        t = {"out_dir": "out", "plugins": plugins("enums", "operations"), "stylers": stylers("capitalize"), **(c.get("turms") or {})}
        fmt = lambda s: s.format(root=root) if s else s  # noqa
        schema = "schema.graphql" if "schemadir" not in c else "../api/schema.graphql"
        self.schema = "work/schema.graphql" if "schemadir" not in c else "api/schema.graphql"
        project = {"schema": schema, "extensions": {"turms": t}}
        if c["documents"]:
            project["documents"] = fmt(c["documents"])
        self.config = {"projects": {"one": project, "two": {**project, "schema": "nowhere.graphql"}}} if c.get("projects") else project
        self.argv = ["watch", "one"] if c.get("projects") else ["watch"]
        self.gen = ["gen", "one"] if c.get("projects") else ["gen"]
        self.output = f"work/{t['out_dir']}/schema.py"
        self.start = {self.schema: S1, f"{self.dir}/a{self.ext}": V1, "work/graphql.config.json": json.dumps(self.config)}
        d, x = self.dir, self.ext
        self.ops = {
            "a1": [("write", f"{d}/a{x}", V1)], "a2": [("write", f"{d}/a{x}", V2)], "as": [("replace", f"{d}/a{x}", V2)], "asyn": [("write", f"{d}/a{x}", SYNTAX)], "afield": [("write", f"{d}/a{x}", FIELD)],
            "aempty": [("write", f"{d}/a{x}", "")], "abytes": [("write", f"{d}/a{x}", "\udcff")], "adel": [("delete", f"{d}/a{x}")], "amove": [("move", f"{d}/a{x}", f"{d}/c{x}")], "aaway": [("move", f"{d}/a{x}", f"{d}/a{x}.bak")],
            "aback": [("move", f"{d}/a{x}.bak", f"{d}/a{x}")], "b": [("write", f"{d}/b{x}", "query B { b { id } }")], "bdel": [("delete", f"{d}/b{x}")], "other": [("write", f"{d}/notes.txt", "x"), ("write", "work/x.py", "1")],
            "dir": [("mkdir", f"{d}/new", {f"n{x}": "query N { b { name } }"})], "dirmove": [("mvdir", f"{d}/new", f"{d}/newer")], "dirgone": [("rmdir", f"{d}/new")],
        }
        self.memo = {}

    def fresh(self, state, output):
        """what `turms gen` makes of the files (None: it fails)"""
        key = tuple(sorted(state.items()))
        if key not in self.memo:
            d = self.root + "_fresh"
            import shutil

            shutil.rmtree(d, ignore_errors=True)
            put(d, {k: v.replace(self.root, d) for k, v in state.items()})
            os.makedirs(os.path.join(d, "work"), exist_ok=True)
            r = run_cli(os.path.join(d, "work"), self.gen)
            p = os.path.join(d, self.output)
            self.memo[key] = open(p, "rb").read() if r.code == 0 and os.path.exists(p) else None
            shutil.rmtree(d, ignore_errors=True)
        return self.memo[key]

    def reset(self):
        import shutil

        shutil.rmtree(self.root, ignore_errors=True)
        os.makedirs(self.root)
        put(self.root, self.start)
        os.makedirs(self.cwd, exist_ok=True)
        first = self.fresh(self.start, None)
        assert first, "the start does not generate"
        put(self.root, {self.output: first.decode()})
        return first


def put(root, files):
    for rel, text in files.items():
        p = os.path.join(root, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(text.encode("utf-8", "surrogateescape"))


def documents(world, state):
    """the files that are documents now, as the pattern's own meaning has them"""
    import glob

    here = os.getcwd()
    os.chdir(world.cwd)
    try:
        c = json.loads(world.start["work/graphql.config.json"])
        p = c["projects"]["one"] if "projects" in c else c
        return {os.path.relpath(os.path.realpath(f), world.root) for f in glob.glob(p.get("documents") or p["extensions"]["turms"]["documents"], recursive=True)}
    finally:
        os.chdir(here)


def cases(tier):
    deep = tier == "thorough"
    names = list(World("flat", "/x").ops)
    for c in CONFIGS:
        for a in names if deep or c in MAIN else ("a1", "a2", "asyn", "adel", "amove", "aaway", "b", "dir", "other"):
            yield {"key": f"history:{c}:{a}", "config": c, "histories": [[a, b] for b in (names if deep or c in MAIN else SECOND)] if not deep else [[a, b, x] for b in names for x in names]}
    for c in ("deep", "flat")[: 2 if deep else 1]:
        for a, b in itertools.product(names if deep else HOT, repeat=2):
            yield {"key": f"deep:{c}:{a}:{b}", "config": c, "histories": [[a, b, x] for x in HOT] if not deep else [[a, b, x, y] for x in names for y in names]}
    for c in ("flat", "deep", "parent") if deep else ("deep",):
        for a in names:
            yield {"key": f"batch:{c}:{a}", "config": c, "histories": [[(a, b), x] for b in names for x in (names if deep else ("other", "b"))] + ([[(a, b, x)] for b in names for x in names] if deep else [])}
    for c in ("deep",) if not deep else CONFIGS:
        for a in ("a2", "asyn", "dir") if not deep else ("a2", "as", "b", "asyn", "dir"):
            for b in names if deep else ("a1", "adel", "amove", "b", "dir", "afield"):
                yield {"key": f"during:{c}:{a}:{b}", "config": c, "during": [a, b]}
    for c in ("flat", "post"):
        for a, e in itertools.product(("a2", "b", "adel"), (errno.ENOSPC, errno.EACCES)):
            yield {"key": f"fault:{c}:{a}:{e}", "config": c, "fault": [a, e]}
    for c in ("flat", "deep", "parent"):
        yield {"key": f"notifier:{c}", "config": c, "notifier": True}
    yield {"key": "two:flat", "config": "flat", "two": True}


def run(case, st):
    with scratch() as d:
        world = World(case["config"], os.path.join(os.path.realpath(d), "w"))
        if case.get("two"):
            return two(case, st, world)
        if case.get("notifier"):
            return notifier(case, st, world)
        out = []
        if case.get("during"):
            a, b = case["during"]
            first = world.reset()
            records, code, log = watch(world.root, world.cwd, [world.ops[a]], world.argv, [world.output])
            calls = len(records[0][2]) if records else 0
            for k in range(calls):
                out += follow(case, st, world, [[a]], {0: (k, b)}, None)
                if len(out) > 6:
                    break
        elif case.get("fault"):
            a, e = case["fault"]
            world.reset()
            records, code, log = watch(world.root, world.cwd, [world.ops[a]], world.argv, [world.output])
            for k in range(len(records[0][2]) if records else 0):
                if records[0][2][k][0] in ("os.scandir", "os.listdir", "glob.glob", "glob.glob/2"):
                    continue
                for b in ("a2", "b"):
                    out += follow(case, st, world, [[a], [b]], None, {0: (k, e)})
        else:
            for h in case["histories"]:
                out += follow(case, st, world, [[x] if isinstance(x, str) else list(x) for x in h], None, None)
                if len(out) > 6:
                    break
        st.states += len(world.memo)
        return out


def follow(case, st, world, history, during, fault):
    first = world.reset()
    ops = [[p for n in batch for p in world.ops[n]] for batch in history]
    # the files after every step, as the model has them
    plan, state = [], dict(world.start)
    docs = documents(world, state)
    names = [" + ".join(b) for b in history]
    if during:
        k, b = during[0]
        ops_run, during_run = ops, {0: (k, world.ops[b])}
        names = [names[0], f"{b} at call {k}"]
    else:
        ops_run, during_run = ops, None
    records, code, log = watch(world.root, world.cwd, ops_run, world.argv, [world.output], during_run, {i: f for i, f in (fault or {}).items()})
    st.traces += 1
    what = f"{case['config']}: {' then '.join(names)}"
    if code != 0:
        return [("stopped", f"{what}: the watcher ends with {code}: {log[-300:]}")]
    if len(records) != len(names):
        if during and len(records) == 1:
            return []  # the call was not reached (the first change is refused before)
        return [("schedule", f"{what}: {len(records)} steps of {len(names)}")]
    steps = ops if not during else [ops[0], world.ops[during[0][1]]]
    good = first
    out = []
    for i, (op, (delivered, seen, calls)) in enumerate(zip(steps, records)):
        before = state
        state = op_files(op, state)
        st.transitions += 1
        if during and i == 0:
            good = None  # whatever the files were while they changed: judged after the second change
            continue
        new = world.fresh(state, None)
        touched = changed_documents(world, before, state)
        got = seen[world.output]
        kept = got is not None and got.endswith(MARK)
        failed = fault and i in fault
        st.outcome(bool(delivered), kept, new is None, bool(touched))
        where = f"{what} (step {i})"
        if failed:
            if not (got == new or kept and got[: -len(MARK)] == good):
                out.append(("damaged", f"{where}: output {got[:80] if got else got!r}"))
            good = got[: -len(MARK)] if kept else got
            continue
        if new is None:
            if got is None or not kept or good is not None and got != good + MARK:
                out.append(("lost", f"{where}: the documents are invalid, but the last good output is {'gone' if got is None else 'replaced'}"))
        elif touched:
            if got != new:
                out.append(("stale", f"{where}: {sorted(touched)} changed ({delivered} changes reported) but the output is {'still the last one' if kept else 'another one'}"))
            good = new
        elif during:
            pass  # nothing about the documents changed with the second change
        elif not kept and not unclear(world, op):
            out.append(("noise", f"{where}: no document changed but the output was generated again"))
            good = new
        elif not kept:
            good = new
        if got is None:
            return out + [("lost", f"{where}: no output")]
        if kept:
            good = got
        elif good is None:
            good = got
        if kept and good.endswith(MARK):
            pass
    return out


def changed_documents(world, a, b):
    def docs(s):
        return {p: v for p, v in s.items() if p in matched(world, s)}

    x, y = docs(a), docs(b)
    return {p for p in set(x) | set(y) if x.get(p) != y.get(p)}


def matched(world, state):
    key = frozenset(state)
    memo = world.__dict__.setdefault("matching", {})
    if key not in memo:
        import glob
        import shutil

        d = world.root + "_glob"
        shutil.rmtree(d, ignore_errors=True)
        put(d, {k: "" for k in state})
        os.makedirs(os.path.join(d, "work"), exist_ok=True)
        c = world.config["projects"]["one"] if "projects" in world.config else world.config
        pattern = (c.get("documents") or c["extensions"]["turms"]["documents"]).replace(world.root, d)
        here = os.getcwd()
        os.chdir(os.path.join(d, "work"))
        try:
            memo[key] = {os.path.relpath(os.path.abspath(f), d) for f in glob.glob(pattern, recursive=True)}
        finally:
            os.chdir(here)
        shutil.rmtree(d, ignore_errors=True)
    return memo[key]


def unclear(world, op):
    """files that were touched might be documents by their name or their folder: generating again is harmless"""
    paths = {x for _, *a in op for x in a if isinstance(x, str) and x.startswith(("work", "other", "shared", "api"))}
    return any(p.endswith((".graphql", world.ext)) or "/new" in p or (p.startswith(world.dir) and not p.endswith((".txt", ".py", ".bak"))) for p in paths)


def notifier(case, st, world):
    """the changes the stand-in reports are those the real notifier reports"""
    from watchfiles.main import RustNotify

    out = []
    for n, op in world.ops.items():
        for m, op2 in [("", [])] + [(k, world.ops[k]) for k in ("b", "dir", "aaway")]:
            for attempt in range(6):
                world.reset()
                apply(world.root, op2)
                real = RustNotify([world.root], False, False, 300, True)
                expected = apply(world.root, op)
                got = set()
                while True:
                    raw = real.watch(40 * (attempt + 1), 10, 150 * (attempt + 1), None)
                    if not isinstance(raw, set):
                        break
                    got |= {(k, os.path.relpath(p, world.root)) for k, p in raw}
                paths = {p for _, p in expected}
                st.traces += 1
                if paths <= {p for _, p in got}:
                    break
            else:
                st.outcome("notifier", "differs", n)
                st.capped += 1
                out.append(("model", f"{m} {n}: the real notifier reports {sorted(got)}, the stand-in {sorted(expected)}")) if got else None
            st.outcome("notifier", n)
    return out


def two(case, st, world):
    world.reset()
    c = {"projects": {"one": world.config, "two": world.config}}
    put(world.root, {"work/graphql.config.json": json.dumps(c)})
    records, code, log = watch(world.root, world.cwd, [world.ops["a2"]], ["watch"], [world.output])
    st.traces += 1
    return [] if code else [("two", "two projects are watched at once although that is not supported")]
