"""Reversible replacement of module globals, by identity rather than by name.

Whatever name a module under test gave to `time`, `time.perf_counter`, the multiprocessing module, one
of its classes ..., it ends up with the simulated one, so the seam survives a re-spelled import.
"""
import types


class Patcher:
    def __init__(self):
        self.undo = []

    def set(self, obj, name, value):
        had = name in vars(obj) if isinstance(obj, (type, types.ModuleType)) else hasattr(obj, name)
        old = getattr(obj, name, None)
        self.undo.append((obj, name, old, had))
        setattr(obj, name, value)

    def replace(self, modules, real_module, sim, names):
        """In each of `modules`, replace real_module by sim and real_module.<name> by sim.<name>."""
        table = {}
        for n in names:
            try:
                table[id(getattr(real_module, n))] = n
            except AttributeError:
                pass
        for m in modules:
            for g, v in list(vars(m).items()):
                if v is real_module:
                    self.set(m, g, sim)
                elif id(v) in table and not isinstance(v, (int, str, float)) and v is getattr(real_module, table[id(v)]):
                    self.set(m, g, getattr(sim, table[id(v)]))

    def restore(self):
        for obj, name, old, had in reversed(self.undo):
            if had:
                setattr(obj, name, old)
            else:
                try:
                    delattr(obj, name)
                except AttributeError:
                    pass
        self.undo = []

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.restore()
