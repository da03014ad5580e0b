"""Per-process module state.

Simulated OS processes share one interpreter, so whatever edulint keeps at module or class level (caches, flags,
counters) has to be swapped when the scheduler moves from one simulated process to another, and a new process has to
start from the state right after import.
"""

import collections
import copy
import functools
import sys
import types

_LRU = type(functools.lru_cache(lambda: None))
_CONT = (dict, list, set, collections.deque)
_SKIP = (types.ModuleType, types.FunctionType, types.BuiltinFunctionType, staticmethod, classmethod, property)


def _plain(v):
    """Containers we can save by content: shallow for ordinary ones."""
    return isinstance(v, _CONT)


class State:
    def __init__(self, prefixes, exclude=()):
        self.ns = []  # namespaces: (getter dict, setter)
        self.lru = []
        seen = set()
        for name in sorted(sys.modules):
            m = sys.modules[name]
            if m is None or not any(name == p or name.startswith(p + ".") for p in prefixes):
                continue
            if any(name == p or name.startswith(p + ".") for p in exclude):
                continue
            self.ns.append(("m", m))
            for k, v in list(vars(m).items()):
                if isinstance(v, _LRU):
                    self.lru.append(v)
                if isinstance(v, type) and v.__module__ == name and v not in seen:
                    seen.add(v)
                    self.ns.append(("c", v))
                    for _k, w in list(vars(v).items()):
                        f = getattr(w, "__func__", w)
                        if isinstance(f, _LRU):
                            self.lru.append(f)
                f = getattr(v, "__wrapped__", v)
                if isinstance(f, types.FunctionType) and (f.__defaults__ or f.__kwdefaults__):
                    self.ns.append(("f", f))
        self.boot = self.save()
        self.cur = None

    def _items(self, kind, o):
        if kind == "m":
            return [(k, v) for k, v in vars(o).items() if not k.startswith("__")]
        if kind == "c":
            return [(k, v) for k, v in vars(o).items() if not k.startswith("__") and not isinstance(v, _SKIP)]
        return list(enumerate(f for f in (o.__defaults__ or ())))

    def save(self):
        out = []
        for kind, o in self.ns:
            vals = {}
            for k, v in self._items(kind, o):
                if isinstance(v, _SKIP) or isinstance(v, type) or isinstance(v, _LRU):
                    if kind == "m":
                        vals[k] = (v, None)
                    continue
                vals[k] = (v, self._content(v))
            out.append(vals)
        return out

    @staticmethod
    def _content(v):
        if not _plain(v):
            return None
        try:
            if isinstance(v, dict):
                return {k: (copy.copy(x) if _plain(x) else x) for k, x in v.items()}
            if isinstance(v, list):
                return [copy.copy(x) if _plain(x) else x for x in v]
            return copy.copy(v)
        except Exception:
            return None

    def restore(self, saved):
        for (kind, o), vals in zip(self.ns, saved):
            if kind != "f":
                d = vars(o)
                for k, v in self._items(kind, o):
                    if k not in vals:
                        if kind == "m":
                            del d[k]
                        elif not isinstance(v, type) and not isinstance(v, _LRU):
                            try:
                                delattr(o, k)
                            except Exception:
                                pass
                for k, (v, _c) in vals.items():
                    if d.get(k, self) is not v:
                        if kind == "m":
                            d[k] = v
                        else:
                            try:
                                setattr(o, k, v)
                            except Exception:
                                pass
            for _k, (v, c) in vals.items():
                if c is None:
                    continue
                if isinstance(v, dict):
                    if v != c or any(_plain(x) for x in c.values()):
                        c2 = self._content(c)
                        v.clear()
                        v.update(c2)
                elif isinstance(v, list):
                    v[:] = self._content(c)
                elif isinstance(v, set):
                    if v != c:
                        v.clear()
                        v.update(c)
                elif isinstance(v, collections.deque):
                    v.clear()
                    v.extend(c)
        for f in self.lru:
            f.cache_clear()

    def enter(self, proc):
        if self.cur is proc:
            return
        if self.cur is not None:
            self.cur.meta["modstate"] = self.save()
        self.restore(proc.meta.get("modstate", self.boot))
        self.cur = proc

    def leave(self, proc):
        pass
