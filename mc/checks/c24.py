"""C24: post-processing preserves the program and runs in the configured order."""
import ast
import itertools
import os
import shlex
import subprocess
import sys

from .. import stages
from ..signature import difference, signature
from ..turmsio import GenFailed, LoadFailed, generate, loaded, plugins, scratch, stylers

ID = "C24"
LEVEL = "model_checking"
RULE = ("one case = one sequence of stages over one program; a state is one generated module; a transition is one stage; a trace is one comparison of the result with the one that the stages give one after another when called directly (black, isort, ruff, the command, the texts); "
        "an evaluation is one comparison of what the module means (statements, constants, signature) with that of the unprocessed module. Outcomes: stage, program, failures.")
BOUNDS = {
    "quick": "all sequences of length 2 over 24 processors for 2 programs and alone for 9, all of length 3 over 6 of them, all parser sequences up to length 2 over 10, a failure of 6 kinds at every place of sequences up to length 3",
    "thorough": "all sequences of length 2 for all programs, length 3 over 12 processors",
}
ASSUMPTIONS = ["black, isort and ruff do what their own interfaces do when called directly", "comments, blank lines, quotes and the white space of documentation are not part of what a module means", "where ruff finds a configuration of its own it selects lints that do not rewrite what a module means", "merging with an existing module is C16's"]
CASE_TIMEOUT = 300

FUNCS = ("funcs", {"definitions": [{"type": "query", "use": "mc.proxies.query"}, {"type": "mutation", "use": "mc.proxies.amutate", "is_async": True}]})
CLIENT = ("enums", "inputs", "fragments", "operations", FUNCS, "input_funcs")
NASTY = 'it says """hi""" and \'\'\'ho\'\'\' \\\\ \\n {x} %s # not a comment'
SMALL = 'enum Kind { RED GREEN } input In { a: Int! kind: Kind = RED next: In } type Query { id: ID hello(i: In, k: [Kind!]): String t: T } type T { id: ID! t: T } type Mutation { set(i: In!): T }'
PROGRAMS = {
    "small": (SMALL, "query Hello($i: In, $k: [Kind!]) { hello(i: $i, k: $k) t { id ...F } }\nmutation Set($i: In!) { set(i: $i) { ...F } }\nfragment F on T { id t { id } }", CLIENT, {}),
    "nasty": (f'"""\n{NASTY}\n"""\nenum Kind {{ "red {NASTY[:8]} x\\" y" RED\n"""\ttabbed\n\n   indented \n"""\nGREEN }}\n"ends with a quote \\""\ninput In {{ "ends with a backslash \\\\" a: String = "{NASTY.replace(chr(34), chr(92) + chr(34))}" "é ü 漢字 \\u0001" b: String = "\\t\\r\\n\\u2028 é" }}\ntype Query {{ "x\\\\" hello(i: In): String }}'.replace('says """hi"""', 'says \\"""hi\\"""'),
              'query Hello($i: In) {\n  # a comment with "quotes"\n  hello(i: $i)\n  k: hello(i: {a: "with \\"quotes\\" and \\\\ and # and é"})\n}', CLIENT, {}),
    "long": ("type Query { " + "aVeryLongFieldNameThatGoesOnAndOn" * 3 + "(" + " ".join(f"anArgumentWithALongName{k}: [[Int!]!]!" for k in range(8)) + "): Int t: T } type T { " + " ".join(f"field{k}: [[String!]]" for k in range(12)) + " }",
             "query Long(" + " ".join(f"$anArgumentWithALongName{k}: [[Int!]!]!" for k in range(8)) + ") { " + "aVeryLongFieldNameThatGoesOnAndOn" * 3 + "(" + " ".join(f"anArgumentWithALongName{k}: $anArgumentWithALongName{k}" for k in range(8)) + ") t { " + " ".join(f"field{k}" for k in range(12)) + " } }", CLIENT, {}),
    "ambiguous": ("enum I { l O I } input l { l: Int O: I I: l } type Query { l(I: l, O: I): I O: O } type O { l: Int I: [O] }", "query O($I: l, $l: I) { l(I: $I, O: $l) O { ...l } }\nfragment l on O { l I { I { l } } }", CLIENT, {}),
    "variants": ("interface N { id: ID! } type A implements N { id: ID! a: Int } type B implements N { id: ID! b: [Int!] } union U = A | B type Query { n: N u: [U!] }", "query V { n { __typename id ... on A { a } ... on B { b } } u { ... on A { a } ... on B { b } } }", CLIENT, {"create_catchall": True}),
    "inputs": ("directive @oneOf on INPUT_OBJECT directive @unionElementOf(union: String!, discriminator: String!, key: String!) repeatable on INPUT_OBJECT input W @oneOf { a: P b: [Int!] } input P @unionElementOf(union: \"S\", discriminator: \"kind\", key: \"p\") { x: Float = 1.5 @deprecated(reason: \"old\") } input Q @unionElementOf(union: \"S\", discriminator: \"kind\", key: \"q\") { y: W } input S { dummy: Int } type Query { q(w: W, s: [S!]): Int }", "query Q($w: W, $s: [S!]) { q(w: $w, s: $s) }", CLIENT, {"options": {"enabled": True}}),
    "objects": (SMALL.replace("type T {", '"a type" type T {'), "query A { id }", (("enums", {"skip_unreferenced": False}), ("inputs", {"skip_unreferenced": False}), "objects"), {"freeze": {"enabled": True}}),
    "server": (SMALL, None, ("strawberry",), {}),
    "literal": ("type Query { id: ID }", "query A { __typename }", ("operations",), {}),
    "empty": ("type Query { id: ID }", "query A { id }", ("enums",), {}),
}
PY = sys.executable
SCRIPTS = {
    "cat": ["cat"], "string": "cat -", "quoted": f"""{PY} -c 'import sys; t = sys.stdin.read(); print("# say \\"x  y\\""); sys.stdout.write(t)'""", "noisy": ["sh", "-c", "echo noise >&2; cat"], "spaces": ["printf", "%s", "x = 'a  b' # $HOME *"], "escaped": "printf %s x\\ =\\ 1",
    "nothing": ["true"], "head": ["head", "-n", "1"], "unicode": ["printf", "s = 'é漢'\\n"], "big": [PY, "-c", "import sys; t = sys.stdin.read(); sys.stderr.write('e' * 200000); sys.stdout.write(t + '#' * 200000)"], "early": [PY, "-c", "import os; os.close(0); os.write(1, b'early = 1\\n')"],
}
T, B = "turms.processors.", "mc.stages.Tag"
STAGES = {
    "black": {"type": T + "black.BlackProcessor"}, "isort": {"type": T + "isort.IsortProcessor"}, "ruff": {"type": T + "ruff.RuffProcessor"}, "rufffix": {"type": T + "ruff.RuffProcessor", "fix": True}, "ruffonlyfix": {"type": T + "ruff.RuffProcessor", "fix": True, "format": False}, "ruffidle": {"type": T + "ruff.RuffProcessor", "format": False},
    "disclaimer": {"type": T + "disclaimer.DisclaimerProcessor"}, "comment": {"type": T + "disclaimer.DisclaimerProcessor", "disclaimer": "# é: do not \"edit\" {0} %s\n# two lines"}, "blank": {"type": T + "disclaimer.DisclaimerProcessor", "disclaimer": "\n"},
    "tag": {"type": B, "tag": "A"}, "tagfirst": {"type": B, "tag": "B", "where": "first"}, "tagdefault": {"type": B}, "merge": {"type": T + "merge.MergeProcessor"},
    **{f"command:{k}": {"type": T + "command.CommandProcessor", "command": v} for k, v in SCRIPTS.items()},
}
SAFE = [s for s in STAGES if s not in ("command:spaces", "command:escaped", "command:nothing", "command:head", "command:unicode", "command:early")]
FEW = ["black", "rufffix", "disclaimer", "tag", "tagfirst", "command:quoted"]
MORE = FEW + ["isort", "comment", "command:noisy", "ruff", "merge", "command:head"]
PARSERS = {"none": {"type": "turms.parsers.polyfill.PolyfillParser"}, **{f"poly{v}": {"type": "turms.parsers.polyfill.PolyfillParser", "python_version": v} for v in ("3.7", 3.7, "3.8", "3.9", "3.10", 3.11, "3.13")}, "markA": {"type": "mc.stages.Mark", "tag": "A"}, "markB": {"type": "mc.stages.Mark", "tag": "B"}}
FAILS = {
    "value": {"type": B, "tag": "X", "fail": "ValueError"}, "os": {"type": B, "tag": "X", "fail": "OSError"}, "exit code": {"type": T + "command.CommandProcessor", "command": ["sh", "-c", "cat; echo why it failed >&2; exit 3"]}, "no command": {"type": T + "command.CommandProcessor", "command": "no-such-command-here --x"},
    "killed": {"type": T + "command.CommandProcessor", "command": ["sh", "-c", "cat; kill -9 $$"]}, "undecodable": {"type": T + "command.CommandProcessor", "command": ["printf", "x = '\\377'"]},
}
MISSING_IN = {"3.7": {"Literal", "Annotated", "Final", "Protocol", "TypedDict"}, "3.8": {"Annotated"}}


def cases(tier):
    deep = tier == "thorough"
    for p in PROGRAMS:
        for s in STAGES:
            yield {"key": f"one:{p}:{s}", "program": p, "stages": [s]}
        for s in ("ruff", "rufffix", "ruffonlyfix"):
            yield {"key": f"strict:{p}:{s}", "program": p, "stages": [s], "project": True}
        for a in PARSERS:
            yield {"key": f"parser:{p}:{a}", "program": p, "parsers": [a], "stages": []}
    for p in PROGRAMS if deep else ("small", "nasty"):
        for a, b in itertools.product(STAGES if p == "small" or deep else SAFE[:13], repeat=2):
            yield {"key": f"two:{p}:{a}:{b}", "program": p, "stages": [a, b]}
    for seq in itertools.product(MORE if deep else FEW, repeat=3):
        yield {"key": f"three:{':'.join(seq)}", "program": "small", "stages": list(seq)}
    for a, b in itertools.product(PARSERS, repeat=2):
        for s in ([], ["tag"], ["black", "tag"]):
            yield {"key": f"parsers:{a}:{b}:{'+'.join(s)}", "program": "inputs", "parsers": [a, b], "stages": s}
    for f in FAILS:
        for before in ([], ["tag"], ["black"], ["tag", "command:cat"]):
            for after in ([], ["tagfirst"], ["command:cat", "tagfirst"]):
                yield {"key": f"fail:{f}:{'+'.join(before)}:{'+'.join(after)}", "program": "small", "before": before, "fail": f, "after": after}
    for kind in ("ValueError", "OSError", "AssertionError"):
        for before, after in itertools.product(([], ["markA"], ["poly3.7"]), repeat=2):
            yield {"key": f"failparser:{kind}:{before}:{after}", "program": "small", "pbefore": before, "pfail": kind, "pafter": after}
    for a in ("black", "rufffix", "ruffonlyfix", "ruff", "isort"):
        yield {"key": f"unparsable:{a}", "program": "small", "unparsable": a}


# ---------------------------------------------------------------- what the stages do when they are called directly

_cache = {}


def direct(stage, code):
    k = (stage, code, os.path.exists('ruff.toml'))
    if k not in _cache:
        if len(_cache) > 3000:
            _cache.clear()
        _cache[k] = _direct(stage, code)
    return _cache[k]


def _pipe(cmd, code):
    return subprocess.run(cmd, input=code.encode(), capture_output=True).stdout.decode()


def _direct(stage, code):
    c = STAGES[stage]
    if stage == "black":
        import black

        return black.format_str(code, mode=black.FileMode())
    if stage == "isort":
        import isort

        return isort.code(code)
    if stage.startswith("ruff"):
        if c.get("fix"):
            code = _pipe([PY, "-m", "ruff", "check", "--fix", "--quiet", "--stdin-filename", "generated.py", "-"], code)
        if c.get("format", True):
            code = _pipe([PY, "-m", "ruff", "format", "--quiet", "--stdin-filename", "generated.py", "-"], code)
        return code
    if stage in ("disclaimer", "comment", "blank"):
        text = c.get("disclaimer")
        if text is None:
            from turms.processors.disclaimer import DisclaimerProcessorConfig

            text = DisclaimerProcessorConfig().disclaimer
        return code if code.startswith(text) else text + "\n" + code
    if stage.startswith("tag"):
        return stages.tagged(code, c.get("tag", "T"), c.get("where", "last"))
    if stage == "merge":
        return code
    cmd = c["command"]
    return _pipe(shlex.split(cmd) if isinstance(cmd, str) else cmd, code)


KEEPS = {s for s in STAGES if s.split(":")[-1] not in ("spaces", "escaped", "nothing", "head", "unicode", "early")}


def meaning(code):
    """statements without documentation, and what is imported apart from them"""
    tree = ast.parse(code)
    docs = []

    class Strip(ast.NodeTransformer):
        def visit_Expr(self, node):
            if isinstance(node.value, ast.Constant) and isinstance(node.value.value, str):
                docs.append(" ".join(node.value.value.split()))
                return ast.Pass()
            return self.generic_visit(node)

        def visit_JoinedStr(self, node):
            return node

    tree = Strip().visit(tree)
    imports, body = set(), []
    for node in tree.body:
        if isinstance(node, (ast.Import, ast.ImportFrom)):
            imports |= {(getattr(node, "module", ""), a.name, a.asname) for a in node.names}
        elif not isinstance(node, ast.Pass):
            body.append(ast.dump(node))
    return imports, body, docs


def base(case):
    sdl, doc, plugs, more = PROGRAMS[case["program"]]
    return sdl, doc, {"plugins": plugins(*plugs), "stylers": stylers(), **more}


def run(case, st):
    out = []
    sdl, doc, cfg = base(case)
    with scratch() as d:
        here = os.getcwd()
        os.chdir(d)
        os.environ["RUFF_CACHE_DIR"] = d
        if case.get("project"):
            with open("ruff.toml", "w") as f:
                f.write('[lint]\nselect = ["E", "F", "N", "ANN", "PLR", "S"]\n')
        try:
            if "fail" in case or "pfail" in case:
                return failing(case, st, sdl, doc, cfg)
            if "unparsable" in case:
                return unparsable(case, st, sdl, doc, cfg)
            return pipeline(case, st, sdl, doc, cfg, out)
        finally:
            os.chdir(here)


def pipeline(case, st, sdl, doc, cfg, out):
    seq, pars = case["stages"], case.get("parsers", [])
    raw = generate(sdl, doc, cfg)
    del stages.CALLS[:]
    try:
        got = generate(sdl, doc, {**cfg, "parsers": [PARSERS[p] for p in pars], "processors": [STAGES[s] for s in seq]})
    except GenFailed as e:
        return [("failed", f"{pars} {seq}: {str(e)[:300]}")]
    st.states += 1
    st.transitions += len(seq) + len(pars)
    parsed = raw
    if pars:
        parsed = generate(sdl, doc, {**cfg, "parsers": [PARSERS[p] for p in pars]})
        judge_parsers(case, st, raw, parsed, out)
    # each stage sees the output of the one before
    want, seen = parsed, []
    for s in seq:
        if s.startswith("tag"):
            seen.append((STAGES[s].get("tag", "T"), want))
        want = direct(s, want)
        st.outcome("stage", s, case["program"])
    st.traces += 1
    if got != want:
        out.append(("pipeline", f"{pars} {seq}: the result is not that of the stages called one after another: {first_difference(want, got)}"))
    calls = [c for c in stages.CALLS if isinstance(c[1], str)]
    if calls != seen:
        out.append(("order", f"{pars} {seq}: stages were called as {[c[0] for c in calls]} with {[len(c[1]) for c in calls]} characters instead of {[(c[0], len(c[1])) for c in seen]}"))
    if not all(s in KEEPS for s in seq):
        return out
    st.evals += 1
    a, b = meaning(parsed), meaning(got)
    if a[1] != b[1]:
        k = next((i for i, (x, y) in enumerate(zip(a[1] + [""], b[1] + [""])) if x != y), -1)
        out.append(("meaning", f"{seq}: statement {k} changed: {first_difference((a[1] + [''])[k], (b[1] + [''])[k])}"))
    fix = any(STAGES[s].get("fix") for s in seq)
    if not b[0] <= a[0] or (a[0] != b[0] and not fix):
        out.append(("imports", f"{seq}: imports changed: {sorted(map(str, a[0] ^ b[0]))[:5]}"))
    lost = [x for x in a[2] if x not in b[2] and x + " " not in b[2]]
    if lost:
        out.append(("documentation", f"{seq}: documentation is lost: {lost[0][:150]!r}"))
    if len(seq) == 1 or fix:
        behaves(parsed, got, seq, out)
    return out


def behaves(a, b, seq, out):
    try:
        with loaded(a) as m:
            one = signature(m)
        with loaded(b) as m:
            two = signature(m)
        d = difference(squeeze(one), squeeze(two))
        if d:
            out.append(("behaviour", f"{seq}: {d[:300]}"))
    except LoadFailed as e:
        out.append(("import", f"{seq}: {str(e)[:200]}"))


def squeeze(x):
    """without the white space of documentation (constants are compared apart)"""
    if isinstance(x, str):
        return " ".join(x.split())
    if isinstance(x, dict):
        return {k: squeeze(v) for k, v in x.items()}
    return type(x)(map(squeeze, x)) if isinstance(x, (list, tuple)) else x


def judge_parsers(case, st, raw, parsed, out):
    pars = case["parsers"]
    a, b = meaning(raw), meaning(parsed)
    st.evals += 1
    marks = [PARSERS[p]["tag"] for p in pars if p.startswith("mark")]
    body = [x for x in b[1] if "MARK_" not in x]
    if body != a[1]:
        out.append(("meaning", f"{pars}: the statements changed"))
    calls = [c for c in stages.CALLS if isinstance(c[1], list)]
    half = calls[: len(calls) // 2]  # (the program is generated twice)
    if [c[0] for c in half] != marks or calls != half * 2:
        out.append(("order", f"{pars}: parsers were called as {[c[0] for c in calls]}"))
    tree = ast.parse(parsed)
    found = [(n.targets[0].id[5:], n.value.value) for n in tree.body if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "").startswith("MARK_")]
    if [f[0] for f in found] != marks:
        out.append(("order", f"{pars}: the module has the marks {found}"))
    if [f[1] for f in found] != [len(c[1]) for c in half]:
        out.append(("order", f"{pars}: a parser did not see the output of the one before: {found}"))
    if len(half) == 2 and half[1][1] != half[0][1] + ["Assign"]:
        out.append(("order", f"{pars}: the second parser did not see what the first one added"))
    names = {(m, n) for m, n, _ in b[0]}
    wanted = set()
    for m, n, _ in a[0]:
        if m == "typing" and any(n in MISSING_IN.get(str(PARSERS[p].get("python_version", "3.9")), ()) for p in pars):
            m = "typing_extensions"
        wanted.add((m, n))
    if names != wanted:
        out.append(("polyfill", f"{pars}: imports {sorted(map(str, names ^ wanted))[:6]} differ from what the version needs"))
    behaves(raw, "\n".join(x for x in parsed.splitlines() if not x.startswith("MARK_")), pars, out)


def failing(case, st, sdl, doc, cfg):
    out = []
    del stages.CALLS[:]
    if "pfail" in case:
        mine = [{"type": "mc.stages.Mark", "tag": "X", "fail": case["pfail"]}]
        cfg = {**cfg, "parsers": [PARSERS[p] for p in case["pbefore"]] + mine + [PARSERS[p] for p in case["pafter"]], "processors": [STAGES["tag"]]}
        allowed = [PARSERS[p]["tag"] for p in case["pbefore"] if p.startswith("mark")] + ["X"]
    else:
        cfg = {**cfg, "processors": [STAGES[s] for s in case["before"]] + [FAILS[case["fail"]]] + [STAGES[s] for s in case["after"]]}
        allowed = [STAGES[s]["tag"] for s in case["before"] if s.startswith("tag")] + (["X"] if FAILS[case["fail"]]["type"] == B else [])
    st.states += 1
    st.traces += 1
    try:
        code = generate(sdl, doc, cfg)
        out.append(("unnoticed", f"{case['key']}: the failure of a stage does not fail the generation: {code[:80]!r}"))
    except GenFailed as e:
        st.outcome("failure", str(case.get("fail", "parser")))
        who = "Mark" if "pfail" in case else FAILS[case["fail"]]["type"].split(".")[-1]
        if who not in str(e):
            out.append(("unnamed", f"{case['key']}: the error does not name the stage: {str(e)[:200]}"))
        if case.get("fail") == "exit code" and "why it failed" not in str(e):
            out.append(("unexplained", f"{case['key']}: the error does not tell what the command said: {str(e)[:200]}"))
    if [c[0] for c in stages.CALLS] != allowed:
        out.append(("continued", f"{case['key']}: stages {[c[0] for c in stages.CALLS]} were called"))
    return out


def unparsable(case, st, sdl, doc, cfg):
    """formatters are given something that is no Python"""
    cfg = {**cfg, "processors": [{"type": T + "command.CommandProcessor", "command": ["printf", "class :"]}, STAGES[case["unparsable"]], STAGES["tag"]]}
    del stages.CALLS[:]
    st.states += 1
    st.traces += 1
    try:
        code = generate(sdl, doc, cfg)
    except GenFailed:
        st.outcome("failure", case["unparsable"])
        return [("continued", "a stage after the failing one was called")] if stages.CALLS else []
    if case["unparsable"] == "isort":
        return []  # (isort sorts the imports of whatever text)
    return [("unnoticed", f"{case['unparsable']} fails, but the generation does not: {code[:80]!r}")]


def first_difference(a, b):
    k = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return f"{a[max(0, k - 30):k + 60]!r} became {b[max(0, k - 30):k + 60]!r}"
