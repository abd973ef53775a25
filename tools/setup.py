"""setup_cmd: nothing to compile; confirms that the interpreter, turms and its dependencies are importable."""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import mc.turmsio as t  # noqa: E402

code = t.generate("type Query { a: Int }", "query Q { a }", t.client_config())
with t.loaded(code) as m:
    assert m.Q.model_validate({"a": 1}).a == 1
print("ok")
