"""Drives the real `turms watch` command with a controlled notifier in place of the operating system's.

Only watchfiles' native notifier (RustNotify) is replaced: asked for changes, the stand-in lets the next step of
the history happen to the files and hands back the raw changes the system reports for it (those below the folders it was told
to watch).  watchfiles' own loop and turms' filter and handler run unchanged.
"""
import os
import pickle
import shutil
import sys


def op_files(op, state):
    """state: {relative path: content}; op: list of primitive changes -> new state"""
    s = dict(state)
    for kind, *a in op:
        if kind in ("write", "replace"):
            s[a[0]] = a[1]
        elif kind == "delete":
            s.pop(a[0], None)
        elif kind == "move":
            if a[0] in s:
                s[a[1]] = s.pop(a[0])
        elif kind in ("mkdir",):
            s.update({f"{a[0]}/{k}": v for k, v in a[1].items()})
        elif kind == "rmdir":
            s = {k: v for k, v in s.items() if not k.startswith(a[0] + "/")}
        elif kind == "mvdir":
            s = {(a[1] + k[len(a[0]):] if k.startswith(a[0] + "/") else k): v for k, v in s.items()}
    return s


def apply(root, op):
    """makes the changes -> raw changes {(kind, path relative to root)} (1 added, 2 modified, 3 deleted)"""
    out = set()
    for kind, *a in op:
        p = os.path.join(root, a[0])
        if kind == "write":
            out.add((2 if os.path.exists(p) else 1, a[0]))
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w", encoding="utf-8", errors="surrogateescape") as f:
                f.write(a[1])
        elif kind == "replace":  # as editors save: a file of another name is moved into place
            tmp = a[0] + "~new"
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(os.path.join(root, tmp), "w", encoding="utf-8", errors="surrogateescape") as f:
                f.write(a[1])
            os.replace(os.path.join(root, tmp), p)
            out |= {(1, tmp), (3, tmp), (1, a[0])}
        elif kind == "delete":
            if os.path.exists(p):
                os.remove(p)
                out.add((3, a[0]))
        elif kind == "move":
            if os.path.exists(p):
                os.rename(p, os.path.join(root, a[1]))
                out |= {(3, a[0]), (1, a[1])}
        elif kind == "mkdir":  # a folder appears with its content: only the folder is reported
            if not os.path.isdir(p):
                out.add((1, a[0]))
            tmp = os.path.join(root, "..", "staging_" + os.path.basename(root))
            shutil.rmtree(tmp, ignore_errors=True)
            os.makedirs(tmp)
            for k, v in a[1].items():
                os.makedirs(os.path.dirname(os.path.join(tmp, k)), exist_ok=True)
                with open(os.path.join(tmp, k), "w") as f:
                    f.write(v)
            if os.path.isdir(p):
                for k in a[1]:
                    out.add((2 if os.path.exists(os.path.join(p, k)) else 1, f"{a[0]}/{k}"))
                    os.replace(os.path.join(tmp, k), os.path.join(p, k))
            else:
                os.rename(tmp, p)
            shutil.rmtree(tmp, ignore_errors=True)
        elif kind == "rmdir":
            if os.path.isdir(p):
                for d, _, files in os.walk(p):
                    out |= {(3, os.path.relpath(os.path.join(d, f), root)) for f in files}
                    out.add((3, os.path.relpath(d, root)))
                shutil.rmtree(p)
        elif kind == "mvdir":
            q = os.path.join(root, a[1])
            if os.path.isdir(p) and not os.path.exists(q):
                os.rename(p, q)
                out |= {(3, a[0]), (1, a[1])}
    return out


class Stop(Exception):
    pass


def watch(root, cwd, history, argv=("watch",), observe=(), during=None, fault=None):
    """Runs `turms watch` in cwd (below root) through the history (a list of ops; paths relative to root) in a child.
    observe: output files (relative to root), marked before and read after every step.
    during: {step: (k, op)} - op happens at the k-th file-system call while step is being handled; its changes are reported as a step of its own.
    fault: {step: (k, errno)}.  -> (records, exit code, log); a record is (delivered, {file: bytes or None}, calls)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 70
        try:
            import gc
            import io

            gc.disable()
            os.close(r)
            records, calls, out = [], [], io.StringIO()
            step = [-1]
            armed = [False]

            def hook(event, args):
                from .faults import FS_EVENTS, _inside

                if not armed[0] or event not in FS_EVENTS:
                    return
                where = _inside(cwd, args)
                if where is None:
                    return
                k = len(calls)
                calls.append((event, where))
                d = (during or {}).get(step[0])
                if d and d[0] == k:
                    armed[0] = False
                    pending.append(apply(root, d[1]))
                    armed[0] = True
                f = (fault or {}).get(step[0])
                if f and f[0] == k:
                    raise OSError(f[1], os.strerror(f[1]) + " (injected)")

            pending = []

            class Notify:
                def __init__(self, paths, *a, **k):
                    self.paths = []
                    for p in paths:
                        q = os.path.join(os.getcwd(), os.fspath(p))  # as the notifier does, not normalised
                        if not os.path.exists(q):
                            raise FileNotFoundError(f"No path was found. about {paths}")
                        self.paths.append(q)

                def __enter__(self):
                    return self

                def __exit__(self, *a):
                    pass

                def close(self):
                    pass

                def watch(self, *a, **k):
                    armed[0] = False
                    while True:
                        if step[0] >= 0:
                            seen = {}
                            for o in observe:
                                p = os.path.join(root, o)
                                seen[o] = open(p, "rb").read() if os.path.isfile(p) else None
                            records.append((delivered[0], seen, list(calls)))
                        calls.clear()
                        if pending:
                            raw = pending.pop(0)
                            step[0] = 10 ** 6 + step[0]  # an extra step
                        else:
                            step[0] = step[0] % 10 ** 6 + 1 if step[0] >= 0 else 0
                            if step[0] >= len(history):
                                return "stop"
                            raw = apply(root, history[step[0]])
                        for o in observe:
                            p = os.path.join(root, o)
                            if os.path.isfile(p):
                                with open(p, "ab") as f:
                                    f.write(MARK)
                        got = set()
                        for kind, rel in raw:
                            full = os.path.normpath(os.path.join(root, rel))
                            for base in self.paths:
                                b = os.path.normpath(base)
                                if full == b or full.startswith(b + os.sep):
                                    got.add((kind, base + full[len(b):]))
                                    break
                        delivered[0] = len(got)
                        if got:
                            armed[0] = True
                            return got

            delivered = [0]
            import watchfiles.main as wm

            wm.RustNotify = Notify
            sys.addaudithook(hook)
            os.chdir(cwd)
            sys.stdout = sys.stderr = out
            from .faults import _main

            try:
                code = _main(list(argv))
            except SystemExit as e:
                code = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
            except BaseException as e:  # noqa
                import traceback

                out.write(traceback.format_exc())
                code = 1
            armed[0] = False
            with os.fdopen(w, "wb") as f:
                pickle.dump((records, out.getvalue()), f)
        finally:
            os._exit(code if isinstance(code, int) else 0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    _, status = os.waitpid(pid, 0)
    records, log = pickle.loads(data) if data else ([], "")
    return records, os.WEXITSTATUS(status) if os.WIFEXITED(status) else -os.WTERMSIG(status), log


MARK = b"\n# touched by hand\n"
