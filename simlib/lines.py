"""Development: which lines of naima did no simulated run execute?

SIM_LINES=DIR ./check ID --no-evidence ...   then   python -m simlib.lines DIR
"""
import ast
import glob
import os
import pickle
import sys

from . import boot


def trace(func, args):
    mon = sys.monitoring
    seen = set()
    root = boot.SRC

    def line(code, n):
        if code.co_filename.startswith(root):
            seen.add((code.co_filename, n))
        return mon.DISABLE

    try:
        mon.use_tool_id(4, "lines")
        mon.register_callback(4, mon.events.LINE, line)
        mon.set_events(4, mon.events.LINE)
    except ValueError:
        pass
    try:
        return func(*args)
    finally:
        with open(os.path.join(os.environ["SIM_LINES"], "%d.pickle" % os.getpid()), "ab") as f:
            pickle.dump(seen, f)


def body(path):
    """Line numbers that belong to statements inside functions"""
    r = set()
    for node in ast.walk(ast.parse(open(path).read())):
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for s in ast.walk(node):
                if isinstance(s, ast.stmt) and s is not node and not (
                        isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                    r.add(s.lineno)
    return r


if __name__ == "__main__":
    seen = set()
    for f in glob.glob(os.path.join(sys.argv[1], "*.pickle")):
        with open(f, "rb") as h:
            while True:
                try:
                    seen |= pickle.load(h)
                except EOFError:
                    break
    for path in sorted(glob.glob(os.path.join(boot.SRC, "naima", "**", "*.py"), recursive=True)):
        missed = sorted(body(path) - {n for f, n in seen if f == path})
        if missed:
            print(os.path.relpath(path, boot.SRC), missed)
