"""python3 tools/mkseed.py ID PROPERTY FILE <<EOF (json: {"edits": [[old,new],...] or [[file,old,new]..], "needs":..., "breaks":..., "demo": python source})
Writes seeded/ID from the edits (applied to /repo's HEAD) and the demo program."""
import json, os, subprocess, sys, shutil, tempfile
id_, prop, file = sys.argv[1:4]
ns = {}
exec(sys.stdin.read(), ns)
edits = [e if len(e) == 3 else (file, *e) for e in ns["EDITS"]]
d = f"/verif/seeded/{id_}"
os.makedirs(d, exist_ok=True)
w = tempfile.mkdtemp(prefix="mkseed_")
subprocess.run(f"git -C /repo archive HEAD turms | tar x -C {w}", shell=True, check=True)
subprocess.run("git init -q . && git add -A && git -c user.name=a -c user.email=a@b commit -qm x", shell=True, cwd=w, check=True)
for f, a, b in edits:
    p = os.path.join(w, f)
    s = open(p).read()
    assert s.count(a) == 1, (f, s.count(a), a)
    open(p, "w").write(s.replace(a, b))
diff = subprocess.run(["git", "diff"], cwd=w, capture_output=True, text=True).stdout
open(d + "/patch.diff", "w").write(diff)
open(d + "/demo.sh", "w").write('#!/bin/bash\n# exits 0 when the property holds for this input\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
HELP = '''import asyncio, glob, os, sys, tempfile, types, shutil
sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True
WORK = tempfile.mkdtemp()
import atexit; atexit.register(shutil.rmtree, WORK, True)


def code_of(sdl, docs=None, plugins=("enums.Enums", "inputs.Inputs", "fragments.Fragments", "operations.Operations"), stylers=(), **cfg):
    """Generates a module for the schema and documents with the tree in the working directory."""
    from turms.config import GraphQLProject
    from turms.run import generate
    d = tempfile.mkdtemp(dir=WORK)
    open(d + "/schema.graphql", "w").write(sdl)
    for i, t in enumerate([docs] if isinstance(docs, str) else docs or []):
        open(f"{d}/doc{i}.graphql", "w").write(t)
    plug = [p if isinstance(p, dict) else {"type": f"turms.plugins.{p}Plugin"} for p in plugins]
    turms = {"plugins": plug, "stylers": [{"type": f"turms.stylers.{s}Styler"} for s in stylers], **cfg}
    project = GraphQLProject(**{"schema": d + "/schema.graphql", "documents": d + "/doc*.graphql" if docs else None, "extensions": {"turms": turms}})
    return generate(project, log=lambda *a, **k: None)[0]


def load(code):
    m = types.ModuleType("demo_generated")
    sys.modules["demo_generated"] = m
    exec(compile(code, "demo_generated", "exec"), m.__dict__)
    return m


'''
open(d + "/demo.py", "w").write(HELP + ns["DEMO"].strip() + "\n")
json.dump({"property": prop, "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
shutil.rmtree(w)
print(diff)
