"""A controlled fault injector: an exception raised at a chosen operation of bfit's own code.

Operations are source lines that can fail: those that call, compute, index, compare or iterate. Lines that only bind names
cannot fail, and neither may the code that puts things back after a failure (finally blocks, handlers, exits of with
statements): no program could recover from failures there.
"""
import ast
import os
import sys

import bfit

ROOT = os.path.dirname(os.path.abspath(bfit.__file__)) + os.sep
CAN_FAIL = (ast.Call, ast.BinOp, ast.UnaryOp, ast.Subscript, ast.Compare, ast.For, ast.AugAssign, ast.comprehension)
HEADER = {ast.If: "test", ast.While: "test", ast.For: "iter"}
_LINES = {}


class Fault(Exception):
    """An ordinary error of a collaborator."""


class Interrupt(KeyboardInterrupt):
    """The user stops the call."""


def _collect(body, out):
    for s in body:
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            if s.name not in ("__enter__", "__exit__"):
                _collect(s.body, out)
        elif isinstance(s, (ast.If, ast.While, ast.For)):
            head = getattr(s, HEADER[type(s)])
            if isinstance(s, ast.For) or any(isinstance(n, CAN_FAIL) for n in ast.walk(head)):
                out.update(range(s.lineno, head.end_lineno + 1))
            _collect(s.body, out)
            _collect(s.orelse, out)
        elif isinstance(s, ast.With):
            _collect(s.body, out)
        elif isinstance(s, ast.Try):
            _collect(s.body, out)
            _collect(s.orelse, out)
        elif any(isinstance(n, CAN_FAIL) for n in ast.walk(s)):
            out.update(range(s.lineno, s.end_lineno + 1))


def lines(path):
    if path not in _LINES:
        _LINES[path] = set()
        with open(path, encoding="utf8") as f:
            _collect(ast.parse(f.read()).body, _LINES[path])
    return _LINES[path]


def run(fn, at=None, kind=Fault):
    """Run fn, raising kind at operation number `at`. Returns (raised or None, (ok, result or exception), operations)."""
    steps, raised = [], []

    def local(frame, event, arg):
        if event == "line" and frame.f_lineno in lines(frame.f_code.co_filename):
            steps.append((frame.f_code.co_filename, frame.f_lineno))
            if at is not None and len(steps) == at + 1:
                sys.settrace(None)
                raised.append(kind(f"at operation {at}"))
                raise raised[0]
        return local

    def trace(frame, event, arg):
        return local if frame.f_code.co_filename.startswith(ROOT) else None

    sys.settrace(trace)
    try:
        out = (True, fn())
    except BaseException as e:  # noqa: B902 - handed to the caller
        out = (False, e)
    finally:
        sys.settrace(None)
    return (raised[0] if raised else None), out, steps


def points(steps, most):
    """Where to fail: at every operation of a call of up to `most`, else at the first, second, middle and last arrival at
    each distinct place."""
    if len(steps) <= most:
        return list(range(len(steps)))
    seen = {}
    for k, where in enumerate(steps):
        seen.setdefault(where, []).append(k)
    return sorted({k for ks in seen.values() for k in (*ks[:2], ks[len(ks) // 2], ks[-1])})
