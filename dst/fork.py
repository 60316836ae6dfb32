"""Fork of a simulated process: a fresh package instance for the child, with the parent's objects cloned into it."""
import types

from . import seam
from .sched import HarnessError

ATOMS = (int, float, complex, bool, str, bytes, type(None), range, type(Ellipsis), type(NotImplemented))
BUILTIN = (types.BuiltinFunctionType, types.ModuleType, types.MethodWrapperType, types.WrapperDescriptorType,
           types.MethodDescriptorType, types.CodeType)


class Cloner:
    def __init__(self, parent_pkg, child_pkg, task_map):
        self.pp, self.cp = parent_pkg, child_pkg
        self.memo = {}
        self.keep = []
        self.task_map = task_map
        self.globals_map = {}
        for name, m in parent_pkg.modules.items():
            c = child_pkg.modules.get(name)
            if c is None:
                c = child_pkg.load(name)
            self.memo[id(m)] = c
            self.globals_map[id(m.__dict__)] = c.__dict__
        for name, m in parent_pkg.modules.items():
            c = child_pkg.modules[name]
            if m is c:
                continue
            for k, v in list(m.__dict__.items()):
                self.pair(v, c.__dict__.get(k), name)

    def pair(self, a, b, modname):
        """Definitions (classes, functions) correspond by name."""
        if id(a) in self.memo or b is None or a is b:
            return
        if isinstance(a, type) and isinstance(b, type) and (a.__module__ or "").startswith("rsfile"):
            self.memo[id(a)] = b
            self.keep.append(a)
            for k, v in list(vars(a).items()):
                self.pair(v, vars(b).get(k), modname)
        elif isinstance(a, types.FunctionType) and isinstance(b, types.FunctionType) \
                and a.__code__ is b.__code__ and id(a.__globals__) in self.globals_map:
            self.memo[id(a)] = b
            self.keep.append(a)
        elif isinstance(a, (staticmethod, classmethod, property)) and type(a) is type(b):
            self.memo[id(a)] = b
            self.keep.append(a)

    def module_state(self):
        """Clones module-level and class-level data."""
        for name, m in list(self.pp.modules.items()):
            c = self.cp.modules[name]
            if m is c:
                continue
            for k, v in list(m.__dict__.items()):
                if k.startswith("__") or isinstance(v, (types.ModuleType, type, types.FunctionType) + ATOMS):
                    if isinstance(v, ATOMS) and not k.startswith("__"):
                        c.__dict__[k] = v
                    continue
                c.__dict__[k] = self.clone(v)
            for k in list(c.__dict__):
                if not k.startswith("__") and k not in m.__dict__:
                    del c.__dict__[k]
            for k, v in list(m.__dict__.items()):
                if isinstance(v, type) and v.__module__ == name:
                    cv = self.memo.get(id(v))
                    if cv is None:
                        continue
                    for kk, vv in list(vars(v).items()):
                        if kk.startswith("__") or kk.startswith("_abc"):
                            continue
                        if isinstance(vv, (dict, list, set, seam.SimLock, seam.SimCondition)) or \
                                (isinstance(vv, ATOMS) and vars(cv).get(kk, self) != vv):
                            setattr(cv, kk, self.clone(vv))

    def clone(self, o):
        if isinstance(o, ATOMS):
            return o
        r = self.memo.get(id(o))
        if r is not None:
            return r
        r = self._clone(o)
        return r

    def _put(self, o, r):
        self.memo[id(o)] = r
        self.keep.append(o)
        return r

    def _clone(self, o):
        t = type(o)
        if t is dict:
            r = self._put(o, {})
            for k, v in o.items():
                r[self.clone(k)] = self.clone(v)
            return r
        if t is list:
            r = self._put(o, [])
            r.extend(self.clone(x) for x in o)
            return r
        if t is set:
            r = self._put(o, set())
            r.update(self.clone(x) for x in o)
            return r
        if t is tuple:
            return self._put(o, tuple(self.clone(x) for x in o))
        if t is frozenset:
            return self._put(o, frozenset(self.clone(x) for x in o))
        if t is bytearray:
            return self._put(o, bytearray(o))
        if t is memoryview:
            return self._put(o, memoryview(bytes(o)))
        if isinstance(o, seam.SimLock):
            if o.shared:
                return self._put(o, o)
            r = self._put(o, t())
            r.owner = self.task_map.get(o.owner, o.owner)
            if isinstance(o, seam.SimRLock):
                r.count = o.count
            return r
        if isinstance(o, seam.SimCondition):
            r = self._put(o, seam.SimCondition(self.clone(o._lock)))
            return r
        if t is types.FunctionType:
            g = self.globals_map.get(id(o.__globals__))
            if g is None:
                return self._put(o, o)
            r = types.FunctionType(o.__code__, g, o.__name__, None, None if o.__closure__ is None else tuple(
                types.CellType() for _ in o.__closure__))
            self._put(o, r)
            r.__defaults__ = self.clone(o.__defaults__)
            r.__kwdefaults__ = self.clone(o.__kwdefaults__)
            r.__dict__.update(self.clone(o.__dict__))
            r.__qualname__ = o.__qualname__
            for a, b in zip(o.__closure__ or (), r.__closure__ or ()):
                try:
                    v = a.cell_contents
                except ValueError:
                    continue
                b.cell_contents = self.clone(v)
            return r
        if t is types.MethodType:
            return self._put(o, types.MethodType(self.clone(o.__func__), self.clone(o.__self__)))
        if t is types.BuiltinMethodType and getattr(o, "__self__", None) is not None \
                and not isinstance(o.__self__, types.ModuleType):
            return self._put(o, getattr(self.clone(o.__self__), o.__name__))
        if t is types.CellType:
            r = self._put(o, types.CellType())
            try:
                r.cell_contents = self.clone(o.cell_contents)
            except ValueError:
                pass
            return r
        if isinstance(o, BUILTIN) or isinstance(o, type):
            return self._put(o, o)
        mod = t.__module__ or ""
        if mod in ("functools", "re", "_pyio_real") or mod.startswith("dst."):
            if mod == "functools" and t.__name__ == "partial":
                return self._put(o, t(self.clone(o.func), *self.clone(o.args), **self.clone(o.keywords)))
            return self._put(o, o)
        if mod == "weakref":
            return self._put(o, o)
        if t in (staticmethod, classmethod):
            return self._put(o, t(self.clone(o.__func__)))
        if t is property:
            return self._put(o, property(self.clone(o.fget), self.clone(o.fset), self.clone(o.fdel)))
        # instances of Python classes
        cls = self.memo.get(id(t), t)
        try:
            if t is not cls or "__dict__" in dir(o) or hasattr(t, "__slots__"):
                if issubclass(t, dict):
                    r = dict.__new__(cls)
                    self._put(o, r)
                    for k, v in o.items():
                        dict.__setitem__(r, self.clone(k), self.clone(v))
                elif issubclass(t, list):
                    r = list.__new__(cls)
                    self._put(o, r)
                    r.extend(self.clone(x) for x in o)
                else:
                    r = object.__new__(cls)
                    self._put(o, r)
                d = getattr(o, "__dict__", None)
                if d is not None:
                    for k, v in d.items():
                        r.__dict__[k] = self.clone(v)
                for k in t.__mro__:
                    sl = k.__dict__.get("__slots__", ())
                    if isinstance(sl, str):
                        sl = (sl,)
                    for s in sl:
                        if s in ("__dict__", "__weakref__"):
                            continue
                        try:
                            object.__setattr__(r, s, self.clone(getattr(o, s)))
                        except AttributeError:
                            pass
                return r
        except TypeError:
            pass
        import copy
        try:
            return self._put(o, copy.copy(o))
        except Exception:
            raise HarnessError("cannot clone %r across fork" % (t,))


def fork_process(world, proc, parent_task, child_task_holder):
    """Returns (child process, cloner).  Must be called with harness mode on (no switches)."""
    child = world.kernel.fork(proc)
    child.at_fork = []
    old = world.boot_proc
    world.boot_proc = child
    try:
        pkg = seam.Package(world.platform)
        pkg.rs
        c = Cloner(proc.rs, pkg, {parent_task: child_task_holder})
        c.module_state()
        child.at_fork = [tuple(None if f is None else c.clone(f) for f in e) for e in proc.at_fork]
    finally:
        world.boot_proc = old
    child.rs = pkg
    return child, c
