"""Interrupts the code under test at a chosen executed line (what Ctrl-C or a failing allocation does)."""
import os
import sys
from . import boot
from . import world as W

EXC = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}


class Lines:
    """counts the lines executed in ramp (distinct: the different lines); at line `at` raises `exc`"""

    def __init__(self, at=None, exc="KeyboardInterrupt", distinct=False, loc=None):
        self.n = 0
        self.seen = set() if distinct else None
        self.at = at
        self.exc = EXC[exc]
        self.root = os.path.join(os.path.realpath(boot.REPO), "ramp") + os.sep
        self.cache = {}
        self.where = None
        self.loc = list(loc) if loc else None
        self.where_loc = None

    def _mine(self, code):
        r = self.cache.get(code.co_filename)
        if r is None:
            r = self.cache[code.co_filename] = os.path.realpath(code.co_filename).startswith(self.root)
        return r

    def _global(self, frame, event, arg):
        if self._mine(frame.f_code):
            return self._local
        return None

    def _local(self, frame, event, arg):
        if event == "line":
            if self.seen is not None:
                loc = (frame.f_code, frame.f_lineno)
                if loc in self.seen:
                    return self._local
                self.seen.add(loc)
            self.n += 1
            here = False
            if self.loc and frame.f_lineno == self.loc[1] and os.path.basename(frame.f_code.co_filename) == self.loc[0]:
                self.loc[2] -= 1
                here = self.loc[2] == 0
            if here or (self.at is not None and self.n == self.at):
                self.at = None
                self.where_loc = (os.path.basename(frame.f_code.co_filename), frame.f_lineno)
                self.loc = None
                self.where = "%s:%d" % (os.path.basename(frame.f_code.co_filename), frame.f_lineno)
                W.current.fault("line_interrupt")
                raise self.exc("injected by the simulator")
        return self._local

    def __enter__(self):
        sys.settrace(self._global)
        return self

    def __exit__(self, *a):
        sys.settrace(None)
        return False
