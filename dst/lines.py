"""Interrupts (Ctrl-C) delivered on the n-th call of a function of chosen source files.

They come on entry of functions, not between any two lines: code that first changes
something and then enters the block that restores it is the normal way of writing Python.
Clean-up code (finally and except blocks, __enter__ and __exit__) is left out: no Python
code can protect it against a second interrupt.
"""
import ast
import os
import sys

from dst import sim as simmod

_CLEANUP = {}


def _cleanup_lines(filename):
    if filename not in _CLEANUP:
        lines = set()
        try:
            with simmod.R["fopen"](filename) as f:
                tree = ast.parse(f.read())
            for node in ast.walk(tree):
                bodies = []
                if isinstance(node, ast.Try):
                    bodies = [node.finalbody] + [h.body for h in node.handlers]
                elif isinstance(node, ast.FunctionDef) and node.name in ("__enter__", "__exit__"):
                    bodies = [node.body]
                for body in bodies:
                    for st in body:
                        lines.update(range(st.lineno, st.end_lineno + 1))
        except (OSError, SyntaxError):
            pass
        _CLEANUP[filename] = lines
    return _CLEANUP[filename]


class LineInterrupt:
    """Context manager: raise on the nth call of a function of files matching the suffixes."""

    def __init__(self, nth, suffixes):
        self.nth, self.suffixes = nth, tuple(suffixes)
        self.count = 0
        self.fired = None
        self._match = {}

    def _in_cleanup(self, frame):
        if frame.f_code.co_name in ("__enter__", "__exit__", "__del__"):
            return True
        while frame is not None:
            fn = frame.f_code.co_filename
            if os.sep + "lumos" + os.sep in fn and frame.f_lineno in _cleanup_lines(fn):
                return True
            frame = frame.f_back
        return False

    def _global(self, frame, event, arg):
        fn = frame.f_code.co_filename
        m = self._match.get(fn)
        if m is None:
            m = self._match[fn] = fn.endswith(self.suffixes)
        if m and self.fired is None and not self._in_cleanup(frame):
            self.count += 1
            if self.count >= self.nth:
                self.fired = "%s:%s" % (os.path.basename(fn), frame.f_code.co_name)
                raise simmod.InjectedInterrupt("interrupt on entry of " + self.fired)

    def __enter__(self):
        sys.settrace(self._global)
        return self

    def __exit__(self, *exc):
        sys.settrace(None)
        return False
