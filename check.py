#!/opt/venv/bin/python
"""check.py <ID> [--tier quick|thorough] [--replay FILE] [--jobs N] [--limit SECONDS]

Runs one property's exhaustive enumeration against /repo's working tree.
exit 0: held on everything explored; exit 1: VIOLATION line printed; other: error of the check.
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"

from mc.runner import main  # noqa: E402

if __name__ == "__main__":
    sys.exit(main(sys.argv[1:], HERE))
