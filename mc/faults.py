"""Runs the command line in a forked child, with one (or two) faults injected at its file-system calls.

The calls are seen through Python's audit events (open, rename, remove, mkdir, listdir, chmod ...) on paths below
the project, whatever function of the code makes them; torn writes are made by the kernel (RLIMIT_FSIZE): the write
that crosses the limit stops there and fails (EFBIG) or, with the default signal action, ends the process.
"""
import errno
import gc
import io
import os
import resource
import signal
import sys
import traceback

FS_EVENTS = {"open", "os.rename", "os.remove", "os.rmdir", "os.mkdir", "os.listdir", "os.scandir", "os.chmod", "os.truncate", "os.link", "os.symlink", "os.utime", "os.chown",
             "shutil.move", "shutil.copyfile", "shutil.copymode", "shutil.copystat", "glob.glob", "glob.glob/2", "tempfile.mkstemp", "tempfile.mkdtemp"}
READS = {"os.listdir", "os.scandir", "glob.glob", "glob.glob/2"}


class Outcome:
    __slots__ = ("code", "events", "log", "fired")

    def __init__(self, code, events, log, fired):
        self.code, self.events, self.log, self.fired = code, events, log, fired


def _inside(root, args):
    for a in args:
        if isinstance(a, (str, bytes)) and a:
            p = os.fsdecode(a)
            p = os.path.normpath(os.path.join(root, p))
            if p == root or p.startswith(root + os.sep):
                return os.path.relpath(p, root)
    return None


def run_cli(root, argv, faults=(), limit=None, torn=None, entry=None, events=None, stdin=""):
    """Runs `turms ARGV` in directory root in a child.  faults: {(k, kind)}: at the k-th file-system call below root, kind
    one of error:ERRNO, death, interrupt, memory.  limit/torn: largest size any file may reach, and what happens
    then ('error' or 'death').  Gives Outcome(exit code or -signal, [(event, path)], output, fired)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 70
        try:
            gc.disable()  # the memory shared with the parent stays shared
            os.close(r)
            os.chdir(root)
            pipe = os.fdopen(w, "wb", 0)
            out = io.StringIO()
            plan = dict(faults)
            count = [0]
            kinds = events or FS_EVENTS

            def hook(event, args):
                if event not in kinds or not armed[0]:
                    return
                where = _inside(root, args)
                if where is None:
                    return
                k = count[0]
                count[0] += 1
                pipe.write(f"E {event} {where}\n".encode())
                kind = plan.get(k)
                if kind is None:
                    return
                pipe.write(b"F\n")
                if kind == "death":
                    os._exit(137)
                if kind == "interrupt":
                    raise KeyboardInterrupt()
                if kind == "memory":
                    raise MemoryError("injected")
                e = int(kind.split(":")[1])
                raise OSError(e, os.strerror(e) + " (injected)")

            armed = [False]
            sys.addaudithook(hook)
            sys.stdout = sys.stderr = out
            sys.stdin = io.StringIO(stdin)
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            if limit is not None:
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN if torn == "error" else signal.SIG_DFL)
                resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
            armed[0] = True
            try:
                code = (entry or _main)(argv)
            except SystemExit as e:
                code = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
            except KeyboardInterrupt:
                code = 130
            except BaseException:  # noqa
                code = 1
                out.write(traceback.format_exc())
            armed[0] = False
            pipe.write(b"L\n" + out.getvalue().encode("utf-8", "replace"))
        finally:
            os._exit(code if isinstance(code, int) else 0)
    os.close(w)
    data = b""
    while True:
        c = os.read(r, 65536)
        if not c:
            break
        data += c
    os.close(r)
    _, status = os.waitpid(pid, 0)
    head, _, log = data.partition(b"L\n") if b"\nL\n" in b"\n" + data else (data, b"", b"")
    evs, fired = [], 0
    for line in head.decode().splitlines():
        if line.startswith("E "):
            evs.append(tuple(line[2:].split(" ", 1)))
        elif line == "F":
            fired += 1
    return Outcome(os.WEXITSTATUS(status) if os.WIFEXITED(status) else -os.WTERMSIG(status), evs, log.decode("utf-8", "replace"), fired)


def _main(argv):
    from rich.console import Console
    import rich

    rich._console = Console(file=sys.stdout, width=200)
    from turms.cli.main import cli

    cli.main(args=argv, prog_name="turms", standalone_mode=True)
    return 0


def snapshot(root):
    """{relative path: (kind, content, mode)} of everything below root"""
    out = {}
    for d, dirs, files in os.walk(root):
        for n in files + [x for x in dirs if os.path.islink(os.path.join(d, x))]:
            p = os.path.join(d, n)
            rel = os.path.relpath(p, root)
            if os.path.islink(p):
                out[rel] = ("link", os.readlink(p), 0)
            else:
                with open(p, "rb") as f:
                    out[rel] = ("file", f.read(), os.stat(p).st_mode & 0o777)
    return out


def restore(root, snap):
    import shutil

    for n in os.listdir(root):
        p = os.path.join(root, n)
        shutil.rmtree(p) if os.path.isdir(p) and not os.path.islink(p) else os.remove(p)
    for rel, (kind, content, mode) in snap.items():
        p = os.path.join(root, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if kind == "link":
            os.symlink(content, p)
        else:
            with open(p, "wb") as f:
                f.write(content)
            os.chmod(p, mode)


ERRORS = [f"error:{e}" for e in (errno.ENOSPC, errno.EACCES, errno.EIO, errno.EINTR)]
