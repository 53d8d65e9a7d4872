"""The analysed program: one load of the package, and evaluations of its functions."""
import itertools
import os

from . import logic, models
from . import terms as tm
from . import vals as v
from .interp import Interp, Missing
from .report import VERIF, Broken
from .terms import sym

ROOT = os.environ.get("VERIF_REPO", "/repo")


# every caller supplies a random stream
for _stream in ("srng", "rng"):
    v.NONNULL.add(sym(_stream))
    v.TRUTHY.add(sym(_stream))


class Program:
    def __init__(self, root=ROOT, package="aemcmc", stubs=None, implicit=False, modules=("aemcmc",), extra=None):
        self.root, self.package = root, package
        self.I = Interp(root, package=package, stubs=stubs, implicit=implicit)
        self.I.extra.update(extra or {})
        for m in modules:
            if self.I.run_module(m) is None:
                raise Broken(f"there is no module {m}")
        self.module_world = self.I.world()
        self.I.set_world(sym("world0"))

    def module(self, name):
        w = self.I.world()
        if self.I.run_module(name) is None:
            raise Broken(f"there is no module {name}")
        self.I.set_world(w)

    def get(self, module, name):
        try:
            self.module(module)
            return self.I.get_global(module, name)
        except Missing as e:
            raise Broken(f"missing: {e}")

    def call(self, fn, args, kwargs=None, number=None):
        """``(value, exits, world)`` of a call from a fresh state.

        What it creates is numbered from ``number`` on, when that is given.
        """
        I = self.I
        I.imported()
        if number is not None:
            models._uid, logic._lv = itertools.count(number), itertools.count(number)
        I.set_world(sym("world0"))
        I.exits = []
        I.st.pc = tm.TRUE
        pos = [
            v.spl(sym(a[1:])) if isinstance(a, str) and a.startswith("*") else v.one(a if isinstance(a, tm.T) else sym(a))
            for a in args
        ]
        r = I.freeze(I.call_fn(fn, pos, dict(kwargs or {})))
        return r, list(I.exits), I.freeze(I.world())

    def result(self, module, name, args):
        return self.call(self.get(module, name), args)[0]

    def location(self, fn):
        if fn.op == "fn":
            f = self.I.fns[fn.args[0]]
            return f"{os.path.relpath(f.module.path, self.root)}:{f.node.lineno} {f.qualname}"
        return tm.show(fn)[:80]

    def where(self, module, name):
        return self.location(self.get(module, name))

    def functions(self):
        return len(self.I.analysed)


_spec = None


def reference():
    """The distributions written down from first principles in ``spec/reference``."""
    global _spec
    if _spec is None:
        names = sorted(
            f[:-3] for f in os.listdir(os.path.join(VERIF, "spec", "reference")) if f.endswith(".py") and f != "__init__.py"
        )
        _spec = Program(os.path.join(VERIF, "spec"), "reference", modules=["reference." + n for n in names])
    return _spec
