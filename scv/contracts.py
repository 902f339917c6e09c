"""Contract objects and their registry."""
import z3
from core import *
import engine


class Contract:
    """One specification attached to functions of /repo.

    All of requires/ensures/assumes/modifies/throws are functions of a Ctx.
      requires -> [(name, Bool)]       ensures -> [(name, Bool)]
      assumes  -> [Bool]    facts given to callers only (trusted; reported)
      modifies -> [LVal | ((cls, field), ref|None)]
      throws   -> [(exception type, condition, has effects)]
    """

    def __init__(self, name, sel, requires=None, ensures=None, modifies=None, throws=None,
                 assumes=None, result=None, allocates=False, trusted=None, loops=(), opts=None,
                 any_throw=False, setup=None, ghosts=None):
        self.name, self.sel = name, sel
        self._req, self._ens, self._mod, self._thr, self._ass = requires, ensures, modifies, throws, assumes
        self.result, self.allocates, self.trusted = result, allocates, trusted
        self.loops, self.opts = list(loops), dict(opts or {})
        self.any_throw = any_throw
        self.setup = setup
        self.keys = []

    def requires_of(self, c):
        return self._req(c) if self._req else []

    def ensures_of(self, c):
        return self._ens(c) if self._ens else []

    def modifies_of(self, c):
        return self._mod(c) if self._mod else []

    def throws_of(self, c):
        return self._thr(c) if self._thr else []

    def assumes_of(self, c):
        return self._ass(c) if self._ass else []


class Registry:
    def __init__(self, prog, contracts, hooks=None):
        self.P = prog
        self.contracts = contracts
        self.by_key = {}
        self.hooks = hooks or {}
        self.current = None
        self.loops = []
        self.missing = []
        for con in contracts:
            con.keys = self.select(con.sel)
            for k in con.keys:
                self.by_key[k] = con
            if not con.keys and not con.trusted:
                self.missing.append(con.name)

    def select(self, sel):
        """sel: callable(fd, key, prog)->bool, or qualified name string, or
        list of these."""
        if isinstance(sel, (list, tuple)):
            return sorted({k for s in sel for k in self.select(s)})
        out = []
        for k, fd in self.P.fdecls.items():
            if isinstance(sel, str):
                if fd["q"] == sel:
                    out.append(k)
            elif sel(fd, k, self.P):
                out.append(k)
        return sorted(out)

    def get(self, key):
        return self.by_key.get(key)

    def hook(self, fd):
        h = self.hooks.get(fd["q"])
        if h is None:
            h = self.hooks.get(strip_targs(fd["q"]))
        return h

    def loop_spec(self, cur_key, fr_key, stmt):
        return self.loops


def strip_targs(q):
    out, d = [], 0
    for ch in q:
        if ch == "<":
            d += 1
        elif ch == ">":
            d -= 1
        elif d == 0:
            out.append(ch)
    return "".join(out)
