"""What a merge must keep and bring in, judged on syntax trees of the three modules only."""
import ast
import io
import tokenize
from collections import Counter


def comments(text):
    out = Counter()
    try:
        for t in tokenize.generate_tokens(io.StringIO(text.lstrip("\ufeff")).readline):
            if t.type == tokenize.COMMENT:
                out[t.string.rstrip()] += 1
    except (tokenize.TokenError, IndentationError, SyntaxError):
        pass
    return out


def dump(n):
    return ast.dump(n)


def is_doc(n):
    return isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, str)


def symbol(n):
    if isinstance(n, ast.ClassDef):
        return "class", n.name
    if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
        return "func", n.name
    if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
        return "var", n.target.id
    if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
        return "var", n.targets[0].id
    return None


def aliases(n):
    if isinstance(n, ast.Import):
        return [("", a.name, a.asname) for a in n.names]
    if isinstance(n, ast.ImportFrom):
        return [(n.level, n.module, a.name, a.asname) for a in n.names]
    return []


def bound(body):
    out = set()
    for n in body:
        if isinstance(n, ast.Import):
            out |= {a.asname or a.name.split(".")[0] for a in n.names}
        elif isinstance(n, ast.ImportFrom):
            out |= {a.asname or a.name for a in n.names}
    return out


def callee(d):
    return ast.dump(d.func if isinstance(d, ast.Call) else d)


def lost(eb, gb, mb, where, inside=False):
    """Problems: user code of eb that mb no longer has (gb: what was generated)."""
    out = []
    gen = {}
    for n in gb:
        if symbol(n):
            gen[symbol(n)] = n
    gnames = {name for kind, name in gen}
    have = Counter(dump(n) for n in mb)
    imports = {a for n in mb for a in aliases(n)}
    mine = {}
    for n in mb:
        if symbol(n):
            mine.setdefault(symbol(n), []).append(n)
    seen = Counter()
    last = -1
    index = {id(n): i for i, n in enumerate(mb)}
    by_dump = {}
    for n in mb:
        by_dump.setdefault(dump(n), []).append(n)
    for n in eb:
        s = symbol(n)
        m = None
        if aliases(n):
            for a in aliases(n):
                if a not in imports:
                    out.append(f"{where}: import {a} is lost")
            continue
        if s is None or s not in gen:
            if s and s[0] == "var" and ("func", s[1]) in gen and inside:
                continue  # the field became a resolver
            if have[dump(n)] <= 0:
                out.append(f"{where}: user code is lost or changed: {ast.unparse(n)[:80]!r}")
                continue
            have[dump(n)] -= 1
            m = by_dump[dump(n)].pop(0)
        else:
            k = seen[s]
            seen[s] += 1
            if len(mine.get(s, [])) <= k:
                out.append(f"{where}: {s} is lost")
                continue
            m = mine[s][k]
            if s[0] == "class":
                out += lost(n.body, gen[s].body, m.body, f"{where}.{n.name}", True)
                for b in n.bases:
                    if dump(b) not in map(dump, m.bases):
                        out.append(f"{where}.{n.name}: base {ast.unparse(b)} is lost")
            elif s[0] == "func":
                if list(map(dump, n.body)) != list(map(dump, m.body)):
                    out.append(f"{where}.{n.name}: the body of the function changed")
                if isinstance(n, ast.AsyncFunctionDef) and not isinstance(m, ast.AsyncFunctionDef):
                    out.append(f"{where}.{n.name}: the function is no longer async")
            if s[0] in ("class", "func"):
                g = {callee(d) for d in gen[s].decorator_list}
                for d in n.decorator_list:
                    if callee(d) not in g and dump(d) not in map(dump, m.decorator_list):
                        out.append(f"{where}.{n.name}: decorator {ast.unparse(d)} is lost")
        if s is None or (inside and s not in gen):
            if index[id(m)] < last:
                out.append(f"{where}: {ast.unparse(n)[:50]!r} changed its place among the user's statements")
            last = max(last, index[id(m)])
    return out


def missing(gb, mb, eb, where, inside=False):
    """Problems: generated code of gb that mb does not have."""
    out = []
    names = bound(mb)
    dumps = set(map(dump, mb))
    mine = {}
    for n in mb:
        if symbol(n):
            mine.setdefault(symbol(n), []).append(n)
    efuncs = {n.name for n in eb if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef))}
    for n in gb:
        s = symbol(n)
        if aliases(n):
            for b in bound([n]):
                if b not in names:
                    out.append(f"{where}: import of {b} is missing")
        elif s is None:
            if not is_doc(n) and not isinstance(n, ast.Pass) and dump(n) not in dumps:
                out.append(f"{where}: generated statement {ast.unparse(n)[:60]!r} is missing")
        elif s[0] == "var":
            if inside and s[1] in efuncs:
                continue  # the user implements the field with a resolver
            if dump(n) not in dumps:
                out.append(f"{where}: generated {ast.unparse(n)[:80]!r} is missing")
        elif s not in mine:
            out.append(f"{where}: generated {s} is missing")
        elif s[0] == "class":
            for m in mine[s][:1]:
                for b in n.bases:
                    if dump(b) not in map(dump, m.bases):
                        out.append(f"{where}.{n.name}: generated base {ast.unparse(b)} is missing")
                for d in n.decorator_list:
                    if dump(d) not in map(dump, m.decorator_list):
                        out.append(f"{where}.{n.name}: generated decorator {ast.unparse(d)} is missing")
                e = [x for x in eb if symbol(x) == s]
                out += missing(n.body, m.body, e[0].body if e else [], f"{where}.{n.name}", True)
        else:
            m = mine[s][0]
            if dump(n.args) != dump(m.args) or (n.returns and dump(n.returns)) != (m.returns and dump(m.returns)):
                out.append(f"{where}.{n.name}: the generated signature is missing")
            for d in n.decorator_list:
                if dump(d) not in map(dump, m.decorator_list):
                    out.append(f"{where}.{n.name}: generated decorator {ast.unparse(d)} is missing")
            if isinstance(n, ast.AsyncFunctionDef) and not isinstance(m, ast.AsyncFunctionDef):
                out.append(f"{where}.{n.name}: the generated function is async")
    return out


def attached(eb, gb):
    """Line ranges directly above functions that are generated: comments there go with the generated signature."""
    out = []
    gen = {}
    for n in gb:
        if symbol(n):
            gen[symbol(n)] = n
    prev = 0
    for n in eb:
        start = min([n.lineno] + [d.lineno for d in getattr(n, "decorator_list", [])])
        s = symbol(n)
        if s in gen:
            if s[0] == "func":
                out.append((prev + 1, n.lineno - 1, n.col_offset))
            elif s[0] == "class":
                out += attached(n.body, gen[s].body)
        if s and s[0] == "var" and ("func", s[1]) in gen:
            out.append((prev + 1, n.end_lineno, n.col_offset + 1000))
        prev = n.end_lineno
    return out


def kept_comments(text, generated):
    body, gb = ast.parse(text).body, ast.parse(generated).body
    ranges = attached(body, gb)
    out = Counter()
    for t in tokenize.generate_tokens(io.StringIO(text).readline):
        if t.type == tokenize.COMMENT and not any(a <= t.start[0] <= b and t.start[1] <= max(c, 4) for a, b, c in ranges):
            out[t.string.rstrip()] += 1
    return out


def judge(old, generated, merged):
    e, g, m = (ast.parse(x.lstrip("\ufeff")).body for x in (old, generated, merged))
    out = [("lost", p) for p in lost(e, g, m, "module")] + [("missing", p) for p in missing(g, m, e, "module")]
    c = kept_comments(old.lstrip("\ufeff"), generated.lstrip("\ufeff")) - comments(merged)
    if c:
        out.append(("comment", f"comments {sorted(c)} are lost"))
    if ast.get_docstring(ast.parse(old.lstrip("\ufeff"))) != ast.get_docstring(ast.parse(merged.lstrip("\ufeff"))) and ast.get_docstring(ast.parse(old.lstrip("\ufeff"))):
        out.append(("docstring", "the module's docstring is no longer its docstring"))
    return out
