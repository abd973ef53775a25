"""python -m mc.oneshot < {"sdl":..., "docs":..., "cfg":...}: generated code on stdout, from a fresh process."""
import json
import os
import sys

if __name__ == "__main__":
    sys.dont_write_bytecode = True
    from mc.turmsio import GenFailed, generate

    case = json.loads(sys.stdin.buffer.read())
    try:
        code = generate(case["sdl"], case["docs"], case["cfg"])
    except GenFailed as e:
        code = f"FAILED {e}"
    sys.stdout.buffer.write(code.encode("utf-8", "surrogateescape"))
    sys.stdout.buffer.flush()
    os._exit(0)
