"""Gated value-flow analysis of the package's syntax trees.

Every expression is assigned a *value number* (a hash-consed term); joins
of control flow become gates, loops become comprehensions, quantifiers or
folds over their iteration domain.  Nothing of the analysed code is executed,
and no path is enumerated or handed to a solver: the result for a function is
one term for its value, one condition for each kind of exit, and one term for
each mutable object it changes.
"""
import ast
import copy
import itertools
import math
import os

from . import reach
from . import state
from . import terms as tm
from . import vals as v
from .terms import (
    FALSE,
    NONE,
    TRUE,
    And,
    Not,
    Or,
    T,
    app,
    assume_cond,
    atom,
    const,
    fresh,
    glob,
    is_cond,
    is_const,
    ite,
    lam,
    lift,
    map_leaves,
    mk,
    raw,
    sym,
)

UNDEF = sym("undef")
MUTATORS = ("append", "extend", "insert")


class Unsupported(Exception):
    pass


class Missing(Exception):
    """Something that the analysis is anchored in isn't there."""


class Cell:
    __slots__ = ("kind", "content", "extra")

    def __init__(self, kind, content, extra=None):
        self.kind, self.content, self.extra = kind, content, extra

    def with_(self, content):
        return Cell(self.kind, content, self.extra)


class State:
    def __init__(self, cells=None, pc=TRUE):
        self.cells = cells if cells is not None else {}
        self.pc = pc

    def fork(self, pc=None):
        return State(dict(self.cells), self.pc if pc is None else pc)


def merge_states(c, s1, s2):
    if s1 is s2:
        return s1
    cells = {}
    for k in s1.cells.keys() | s2.cells.keys():
        a, b = s1.cells.get(k), s2.cells.get(k)
        if a is None:
            cells[k] = b
        elif b is None or a is b:
            cells[k] = a
        else:
            cells[k] = merge_cell(c, a, b)
    return State(cells, Or(s1.pc, s2.pc))


def merge_cell(c, a, b):
    if a.kind in ("frame", "obj"):
        d = {}
        for n in list(a.content) + [n for n in b.content if n not in a.content]:
            x, y = a.content.get(n, UNDEF), b.content.get(n, UNDEF)
            d[n] = x if x is y else merge_val(c, x, y)
        return Cell(a.kind, d, a.extra)
    extra = a.extra
    if a.kind == "ext" and isinstance(a.extra, T) and isinstance(b.extra, T) and a.extra is not b.extra:
        extra = ite(c, a.extra, b.extra)
    if a.content is b.content:
        return Cell(a.kind, a.content, extra)
    return Cell(a.kind, ite(c, a.content, b.content), extra)


def merge_val(c, x, y):
    if x is UNDEF:
        return y
    if y is UNDEF:
        return x
    return ite(c, x, y)


class Exit:
    __slots__ = ("kind", "cond", "value", "state")

    def __init__(self, kind, cond, value, state):
        self.kind, self.cond, self.value, self.state = kind, cond, value, state


class Fn:
    """A function of the package: its definition and defining scope."""

    def __init__(self, node, frame, module, qualname, defaults, kwdefaults, cls=None):
        self.node = node
        self.frame = frame
        self.module = module
        self.qualname = qualname
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.cls = cls
        self.calls = 0


class Cls:
    def __init__(self, name, module, bases, frame, node):
        self.name = name
        self.module = module
        self.bases = bases
        self.frame = frame
        self.node = node
        self.dataclass = None


class Module:
    def __init__(self, name, path, tree):
        self.name, self.path, self.tree = name, path, tree
        self.frame = None
        self.done = False


def is_tensor_shape(x):
    while x.op in ("slice", "call", "idx") and x.args and any(isinstance(a, T) and a.op in ("slice", "call", "idx", "attr") for a in x.args):
        x = next(a for a in x.args if isinstance(a, T) and a.op in ("slice", "call", "idx", "attr"))
    return x.op == "attr" and x.args[1] == "shape" and not (x.args[0].op == "attr" and x.args[0].args[1] == "type")


def given(x):
    """Whether an object is an argument, or a part of one."""
    while x.op in ("attr", "idx", "at"):
        x = x.args[0]
    return x.op == "sym"


def own_breaks(body):
    """The ``break`` statements of a loop with this body."""
    for x in body:
        if isinstance(x, ast.Break):
            yield x
        elif isinstance(x, (ast.For, ast.While)):
            yield from own_breaks(x.orelse)
        elif not isinstance(x, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            for n in ("body", "orelse", "finalbody"):
                yield from own_breaks(getattr(x, n, []))
            for h in getattr(x, "handlers", []):
                yield from own_breaks(h.body)


def without_breaks(s):
    """A ``while`` loop as statements that don't leave it with ``break``."""
    if not any(True for _ in own_breaks(s.body)):
        return None
    at = lambda x: ast.fix_missing_locations(ast.copy_location(x, s))
    test, body = s.test, list(s.body)
    while (
        body and isinstance(body[0], ast.If) and len(body[0].body) == 1 and isinstance(body[0].body[0], ast.Break)
        and not any(True for _ in own_breaks(body[0].orelse)) and not s.orelse
    ):
        no = ast.UnaryOp(ast.Not(), body[0].test)
        test = no if isinstance(test, ast.Constant) and test.value else ast.BoolOp(ast.And(), [test, no])
        body = body[0].orelse + body[1:]
    if not any(True for _ in own_breaks(body)):
        return [at(ast.While(test, body or [ast.Pass()], []))]
    flag = f"<broken {s.lineno}>"
    name = lambda ctx: ast.Name(flag, ctx)

    class Rewrite(ast.NodeTransformer):
        def visit_Break(self, x):
            return [ast.Assign([name(ast.Store())], ast.Constant(True)), ast.Continue()]

        def keep(self, x):
            return x

        visit_FunctionDef = visit_ClassDef = visit_AsyncFunctionDef = visit_Lambda = keep

        def visit_For(self, x):
            x.orelse = [z for y in x.orelse for z in many(self.visit(y))]
            return x

        visit_While = visit_For

    def many(y):
        return y if isinstance(y, list) else [y]

    rw = Rewrite()
    body = [z for y in copy.deepcopy(body) for z in many(rw.visit(y))]
    loop = ast.While(ast.BoolOp(ast.And(), [ast.UnaryOp(ast.Not(), name(ast.Load())), test]), body, [])
    out = [ast.Assign([name(ast.Store())], ast.Constant(False)), loop]
    if s.orelse:
        out.append(ast.If(ast.UnaryOp(ast.Not(), name(ast.Load())), s.orelse, []))
    return [at(x) for x in out]


class Interp:
    MAXDEPTH = 40

    def __init__(self, root, package="aemcmc", stubs=None, implicit=False):
        from . import models

        self.models = models
        self.root = root
        self.package = package
        self.modules = {}
        self.fns = {}
        self.classes = {}
        self.ids = itertools.count(1)
        self.st = State({0: Cell("ext", sym("world0"))})
        self.exits = []
        self.assumed = TRUE
        self.depth = 0
        self.stubs = stubs or {}
        self.implicit = implicit
        self.loc = {}
        self.cur = []
        self.notes = []
        self.analysed = set()
        self.kept = set()
        self.call_sites = 0
        self.import_order = []
        self.loop_depth = 0
        self.setiters = []
        self.fncanon = {}
        self.names_only = False
        self.extra = {}  # module name -> path, for modules outside the package's root

    # ------------------------------------------------------------ modules

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        parts = name.split(".")
        base = os.path.join(self.root, *parts)
        path = self.extra.get(name) or (base + ".py") if name in self.extra or os.path.exists(base + ".py") else os.path.join(base, "__init__.py")
        if not os.path.exists(path):
            return None
        with open(path) as f:
            src = f.read()
        m = Module(name, path, ast.parse(src, path))
        self.modules[name] = m
        m.frame = self.new_cell(Cell("frame", {"__name__": const(name)}, None))
        return m

    def run_module(self, name):
        """Evaluate the definitions and registrations of a module."""
        m = self.load(name)
        if m is None:
            return None
        if not m.done:
            m.done = True
            if "." in name:
                self.run_module(name.rsplit(".", 1)[0]) if False else None
            self.import_order.append(name)
            saved = self.cur, self.exits
            self.cur = self.cur + [(m, m.frame, name)]
            self.exits = []
            saved_names, self.names_only = self.names_only, True
            if name != self.package + "._version":
                self.block(m.tree.body)
            self.names_only = saved_names
            self.st.pc = TRUE
            self.cur, self.exits = saved
        return m

    def imported(self):
        """What functions change in modules and classes can be anything by the time that they are called."""
        executed = {f.node for f in self.fns.values() if f.qualname in self.analysed}
        for m in list(self.modules.values()):
            if m in self.kept or not m.done:
                continue
            self.kept.add(m)

            def forget(frame, names, where):
                c = self.st.cells[frame]
                d = {
                    x: raw("unk", f"state:{where}.{x}")
                    for x in names
                    if isinstance(c.content.get(x), T) and c.content[x].op not in ("fn", "cls", "rewriter")
                }
                if d:
                    self.st.cells[frame] = c.with_({**c.content, **d})

            forget(m.frame, state.module_names(m.tree, executed), m.name)
            for c in self.classes.values():
                if c.module is m:
                    fields = {s.target.id for s in c.node.body if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name)} if c.node.decorator_list else ()
                    forget(c.frame, state.class_names(c.node, m.tree, executed) - set(fields), f"{m.name}.{c.name}")

    def is_package(self, name):
        return name == self.package or name.startswith(self.package + ".")

    def get_global(self, module, name):
        m = self.run_module(module)
        if m is None:
            raise Missing(f"module {module}")
        x = self.st.cells[m.frame].content.get(name)
        if x is None:
            raise Missing(f"{module}.{name}")
        return x

    # ------------------------------------------------------------ cells

    def new_cell(self, cell):
        n = next(self.ids)
        self.st.cells[n] = cell
        return n

    def new_list(self, content):
        return raw("ref", self.new_cell(Cell("list", content)))

    def new_dict(self, content, factory=None):
        return raw("ref", self.new_cell(Cell("dict", content, factory)))

    def new_set(self, content):
        return raw("ref", self.new_cell(Cell("set", content)))

    def new_ext(self, content, extra=None):
        return raw("ref", self.new_cell(Cell("ext", content, extra)))

    def cell(self, ref):
        return self.st.cells[ref.args[0]]

    def set_content(self, ref, content):
        n = ref.args[0]
        self.st.cells[n] = self.st.cells[n].with_(content)

    def world(self):
        return self.st.cells[0].content

    def set_world(self, w):
        self.st.cells[0] = Cell("ext", w)

    def deref(self, t):
        """The container value of ``t`` (one level)."""
        if t.op == "ref":
            c = self.cell(t)
            if c.kind in ("list", "dict", "set"):
                return c.content
            return t
        if t.op == "slot":
            return self.deref(v.dget(self.cell(t.args[0]).content, t.args[1]))
        if t.op == "ite":
            return map_leaves(t, self.deref)
        return t

    def freeze(self, t, _seen=()):
        """Replace references by the current contents of the objects."""
        memo = {}

        def go(t, seen):
            if not isinstance(t, T):
                return t
            if not t.args:
                return t
            key = t.id
            if key in memo:
                return memo[key]
            if t.op == "ref":
                n = t.args[0]
                if n in seen:
                    return raw("cycle", len(seen) - seen.index(n))
                c = self.cell(t)
                s2 = seen + (n,)
                if c.kind in ("list", "dict", "set"):
                    r = go(c.content, s2)
                elif c.kind == "obj":
                    r = self.freeze_obj(t, c, lambda x: go(x, s2))
                elif c.kind == "ext":
                    r = go(c.content, s2)
                else:
                    r = raw("frame")
                if not seen:
                    memo[key] = r
                return r
            if t.op == "slot":
                return go(self.deref(t), seen)
            if t.op == "fn":
                return self.freeze_fn(t)
            if t.op == "cls":
                return t
            new, ch = [], False
            for a in t.args:
                if isinstance(a, T):
                    b = go(a, seen)
                    ch = ch or b is not a
                    new.append(b)
                else:
                    new.append(a)
            if not ch:
                r = t
            elif t.op == "lam":
                r = lam(new[:-1], new[-1])
            else:
                r = tm.rebuild(t, new)
            if not seen:
                memo[key] = r
            return r

        return go(t, _seen)

    def freeze_obj(self, ref, c, go):
        name = c.extra
        attrs = []
        for n in sorted(c.content):
            if n.startswith("__ctx"):
                continue
            attrs.append(raw("field", n, go(c.content[n])))
        return raw("obj", name, *attrs)

    def freeze_fn(self, t):
        f = self.fns[t.args[0]]
        if f.frame in [m.frame for m in self.modules.values()] and f.cls is None:
            return raw("pkgfn", f.qualname + ("#%d" % t.args[0] if f.qualname.endswith("<lambda>") else ""))
        if t.args[0] in self.fncanon:
            return self.fncanon[t.args[0]]
        if self.depth == 0 and self.names_only:
            return raw("pkgfn", f.qualname)
        return self.fn_to_lam(t)

    def fn_to_lam(self, t):
        """The function computed by a closure, as a function term."""
        f = self.fns[t.args[0]]
        if self.depth > 12:
            return raw("pkgfn", f.qualname)
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        bvs = [fresh(n) for n in names]
        nd = len(f.defaults)
        saved = self.st, self.exits
        st = self.st.fork()
        st.pc = TRUE
        self.st, self.exits = st, []
        self.fncanon[t.args[0]] = raw("rec", f.qualname)
        try:
            args = list(bvs)
            r = self.call_fn(t, [v.one(b) for b in args], {})
            r = self.freeze(r)
        finally:
            del self.fncanon[t.args[0]]
            self.st, self.exits = saved
        return lam(bvs, r) if bvs else raw("thunk", r)

    # ------------------------------------------------------------ control flow

    def simp(self, c):
        return assume_cond(c, And(self.assumed, self.st.pc))

    def branch(self, c, f1, f2):
        c = self.simp(c)
        if c is TRUE:
            return f1()
        if c is FALSE:
            return f2()
        base = self.st
        s1 = base.fork(And(base.pc, c))
        s2 = base.fork(And(base.pc, Not(c)))
        self.st = s1
        v1 = f1()
        s1 = self.st
        self.st = s2
        v2 = f2()
        s2 = self.st
        if s1.pc is FALSE:
            self.st = s2
            return v2
        if s2.pc is FALSE:
            self.st = s1
            return v1
        self.st = merge_states(c, s1, s2)
        if v1 is None or v2 is None:
            return None
        return ite(c, v1, v2)

    def exit(self, kind, value):
        self.exits.append(Exit(kind, self.st.pc, value, self.st.fork()))
        self.st.pc = FALSE

    def raise_if(self, c, exc):
        c = self.simp(c)
        if c is FALSE:
            return
        cond = And(self.st.pc, c)
        if cond is FALSE:
            return
        self.exits.append(Exit("raise", cond, const(exc), self.st.fork(cond)))
        self.st.pc = And(self.st.pc, Not(c))

    def join(self, parts):
        """Merge ``[(cond, value, state)]`` with mutually exclusive conditions."""
        if not parts:
            return None
        c, val, st = parts[-1]
        for c2, v2, s2 in reversed(parts[:-1]):
            pc = Or(st.pc, s2.pc)
            st = merge_states(c2, s2, st)
            st.pc = pc
            if val is not None and v2 is not None:
                val = ite(c2, v2, val)
        return val, st

    def block(self, stmts):
        for s in stmts:
            if self.st.pc is FALSE:
                break
            self.stmt(s)

    # ------------------------------------------------------------ scopes

    @property
    def frame(self):
        return self.cur[-1][1]

    def lookup(self, name):
        f = self.frame
        while f is not None:
            c = self.st.cells.get(f)
            if c is None:
                break
            if name in c.content:
                x = c.content[name]
                if x is not UNDEF:
                    return x
            f = c.extra
        if self.models.is_builtin(name):
            return glob("py:" + name)
        return raw("unk", "name:" + name)

    def assign_name(self, name, val):
        f = self.frame
        nl = self.nonlocals.get(f) if hasattr(self, "nonlocals") else None
        if nl and name in nl:
            g = self.st.cells[f].extra
            while g is not None:
                c = self.st.cells[g]
                if name in c.content:
                    f = g
                    break
                g = c.extra
        c = self.st.cells[f]
        d = dict(c.content)
        d[name] = val
        self.st.cells[f] = c.with_(d)

    def assign(self, target, val):
        if isinstance(target, ast.Name):
            self.assign_name(target.id, val)
        elif isinstance(target, (ast.Tuple, ast.List)):
            self.unpack(target.elts, val)
        elif isinstance(target, ast.Starred):
            self.assign(target.value, val)
        elif isinstance(target, ast.Subscript):
            obj = self.ev(target.value)
            k = self.ev_slice(target.slice)
            self.store_item(obj, k, val)
        elif isinstance(target, ast.Attribute):
            obj = self.ev(target.value)
            self.store_attr(obj, target.attr, val)
        else:
            raise Unsupported(ast.dump(target))

    def unpack(self, elts, val):
        d = self.deref(val)
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if star:
            s = star[0]
            after = len(elts) - s - 1
            for i, e in enumerate(elts[:s]):
                self.assign(e, self.sub(val, const(i)))
            hi = NONE if after == 0 else const(-after)
            self.assign(elts[s].value, self.new_list(v.seq_of(v.slice_seq(self.as_seq(d), const(s), hi, NONE))))
            for j, e in enumerate(elts[s + 1 :]):
                self.assign(e, self.sub(val, const(j - after)))
            return
        for i, e in enumerate(elts):
            self.assign(e, self.sub(val, const(i), unpack=len(elts)))

    def as_seq(self, d):
        return v.seq_of(d) if d.op in ("cat", "dct", "sett", "ite") else d

    def store_item(self, obj, k, val):
        if obj.op == "ite":
            self.branch(
                atom(obj.args[0]),
                lambda: self.store_item(obj.args[1], k, val),
                lambda: self.store_item(obj.args[2], k, val),
            )
            return
        if obj.op == "slot":
            d = self.deref(obj)
            self.store_slot(obj, v.dstore(v.dict_of(d), self.key(k), val))
            return
        if obj.op == "ref":
            c = self.cell(obj)
            if c.kind == "dict":
                self.set_content(obj, map_leaves(c.content, lambda d: v.dstore(v.dict_of(d), self.key(k), val)))
                return
            if c.kind == "list":
                self.set_content(obj, self.list_set(c.content, k, val))
                return
            if c.kind == "ext":
                self.set_content(obj, raw("eff", "setitem", c.content, self.freeze(k), self.freeze(val)))
                return
            if c.kind == "obj":
                return
        # an opaque object is changed
        self.effect("setitem", obj, [k, val])

    def list_set(self, content, k, val):
        if content.op == "cat" and is_const(k) and isinstance(k.args[0], int):
            n = k.args[0]
            ps = list(content.args)
            if all(p.op == "one" for p in ps) and -len(ps) <= n < len(ps):
                ps[n] = v.one(val)
                return v.cat(*ps)
        return v.cat(v.spl(raw("setidx", content, k, self.freeze(val))))

    def store_slot(self, slot, content):
        """Update the container stored at a key of a dictionary."""
        ref, k = slot.args
        c = self.cell(ref)
        self.set_content(ref, v.dstore(v.dict_of(c.content), k, content))

    def effect(self, name, obj, args):
        """An effect on an object that isn't modelled in detail."""
        w = self.world()
        self.set_world(raw("eff", name, w, self.freeze(obj), *[self.freeze(a) for a in args]))

    def key(self, k):
        return self.freeze(k)

    def store_attr(self, obj, name, val):
        if obj.op == "ite":
            self.branch(
                atom(obj.args[0]),
                lambda: self.store_attr(obj.args[1], name, val),
                lambda: self.store_attr(obj.args[2], name, val),
            )
            return
        if obj.op == "ref":
            c = self.cell(obj)
            if c.kind == "obj":
                d = dict(c.content)
                d[name] = val
                self.st.cells[obj.args[0]] = c.with_(d)
                return
            if c.kind == "ext":
                if name in ("name", "tag", "__doc__"):
                    return
                self.set_content(obj, raw("eff", "setattr", c.content, const(name), self.freeze(val)))
                return
            return
        if name in ("name", "tag", "__doc__", "__name__") and not given(obj):
            return
        if obj.op == "cls":
            f = self.classes[obj.args[0]].frame
            c = self.st.cells[f]
            d = dict(c.content)
            d[name] = val
            self.st.cells[f] = c.with_(d)
            return
        if obj.op == "fn":
            return
        self.effect("setattr", obj, [const(name), val])

    # ------------------------------------------------------------ statements

    def stmt(self, s):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(type(s).__name__)
        m(s)

    def s_Pass(self, s):
        pass

    def s_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value)

    def s_Assign(self, s):
        val = self.ev(s.value)
        for t in s.targets:
            self.assign(t, val)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value))
        elif isinstance(s.target, ast.Name):
            # remember declared fields (dataclasses)
            c = self.st.cells[self.frame]
            if isinstance(c.content.get("__fields__"), tuple):
                pass

    def s_AugAssign(self, s):
        cur = self.ev(
            ast.copy_location(
                type(s.target)(
                    **{
                        k: (ast.Load() if k == "ctx" else getattr(s.target, k))
                        for k in s.target._fields
                    }
                ),
                s.target,
            )
        )
        rhs = self.ev(s.value)
        d = self.deref(cur)
        if cur.op in ("ref", "slot") and isinstance(s.op, ast.Add) and d.op == "cat":
            self.method(cur, "extend", [v.one(rhs)], {})
            return
        if cur.op in ("ref", "slot") and isinstance(s.op, ast.BitOr) and d.op in ("dct", "sett"):
            self.method(cur, "update", [v.one(rhs)], {})
            return
        if cur.op in ("ref", "slot") and isinstance(s.op, ast.Sub) and d.op == "sett":
            self.method(cur, "difference_update", [v.one(rhs)], {})
            return
        self.assign(s.target, self.binop(type(s.op).__name__, cur, rhs))

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                obj = self.ev(t.value)
                k = self.ev_slice(t.slice)
                if obj.op == "ref" and self.cell(obj).kind == "dict":
                    c = self.cell(obj)
                    self.set_content(obj, map_leaves(c.content, lambda d: v.ddelete(d, self.key(k))))
                else:
                    self.effect("delitem", obj, [k])
            elif isinstance(t, ast.Name):
                self.assign_name(t.id, UNDEF)

    def s_Global(self, s):
        pass

    def s_Nonlocal(self, s):
        if not hasattr(self, "nonlocals"):
            self.nonlocals = {}
        self.nonlocals.setdefault(self.frame, set()).update(s.names)

    def s_Return(self, s):
        val = NONE if s.value is None else self.ev(s.value)
        if self.st.pc is not FALSE:
            self.exit("return", val)

    def s_Raise(self, s):
        name = "Exception"
        if s.exc is not None:
            e = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
            if isinstance(e, ast.Name):
                name = e.id
                x = None
                try:
                    x = self.lookup(name)
                except Exception:
                    pass
                if x is not None and x.op == "const":
                    name = str(x.args[0])
                elif x is not None and x.op == "glob":
                    name = x.args[0].split(":")[-1].split(".")[-1]
            elif isinstance(e, ast.Attribute):
                name = e.attr
        else:
            name = getattr(self, "handling", "Exception")
        self.exit("raise", const(name))

    def s_Assert(self, s):
        c = self.cond(s.test)
        self.raise_if(Not(c), "AssertionError")

    def s_Break(self, s):
        self.exit("break", NONE)

    def s_Continue(self, s):
        self.exit("continue", NONE)

    def s_If(self, s):
        c = self.cond(s.test)
        if self.st.pc is FALSE:
            return
        self.branch(c, lambda: self.block(s.body), lambda: self.block(s.orelse))

    def s_With(self, s):
        for item in s.items:
            x = self.ev(item.context_expr)
            if item.optional_vars is not None:
                self.assign(item.optional_vars, x)
        self.block(s.body)

    HANDLED = {
        "Exception": None,
        "BaseException": None,
        "LookupError": ("KeyError", "IndexError"),
        "ArithmeticError": ("ZeroDivisionError",),
    }

    def handler_matches(self, h, exc):
        if h.type is None:
            return True
        types = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        for t in types:
            n = t.id if isinstance(t, ast.Name) else getattr(t, "attr", None)
            if n in ("Exception", "BaseException") or n == exc:
                return True
            if n in self.HANDLED and exc in (self.HANDLED[n] or ()):
                return True
        return False

    def s_Try(self, s):
        saved = self.exits
        self.exits = []
        base = self.st
        self.block(s.body)
        if self.st.pc is not FALSE and s.orelse:
            # exceptions of the else block aren't handled here
            inner = self.exits
            self.exits = []
            self.block(s.orelse)
            late = self.exits
            self.exits = inner
        else:
            late = []
        mine = self.exits
        self.exits = saved
        parts = []
        if self.st.pc is not FALSE:
            parts.append((self.st.pc, None, self.st))
        for e in mine:
            h = None
            if e.kind == "raise":
                for hh in s.handlers:
                    if self.handler_matches(hh, e.value.args[0]):
                        h = hh
                        break
            if h is None:
                self.exits.append(e)
                continue
            st = e.state.fork(e.cond)
            self.st = st
            if h.name:
                self.assign_name(h.name, raw("exc", e.value.args[0]))
            old = getattr(self, "handling", None)
            self.handling = e.value.args[0]
            self.block(h.body)
            self.handling = old
            if self.st.pc is not FALSE:
                parts.append((self.st.pc, None, self.st))
        self.exits.extend(late)
        if parts:
            _, self.st = self.join(parts)
        else:
            self.st = base.fork(FALSE)
        if s.finalbody and self.st.pc is not FALSE:
            self.block(s.finalbody)

    def s_FunctionDef(self, s):
        f = self.make_fn(s, s.name)
        if self.cur and self.st.cells[self.frame].content.get("__isclass__") is not None:
            self.fns[f.args[0]].cls = self.frame
        for d in reversed(s.decorator_list):
            dv = self.ev(d)
            f = self.models.decorate(self, dv, f, s)
        self.assign_name(s.name, f)

    s_AsyncFunctionDef = s_FunctionDef

    def make_fn(self, node, name):
        defaults = [self.ev(d) for d in node.args.defaults]
        kwd = [None if d is None else self.ev(d) for d in node.args.kw_defaults]
        n = next(self.ids)
        mod = self.cur[-1][0]
        q = self.cur[-1][2] + "." + name
        kept = state.parameters(node)
        if kept:
            ps = node.args.posonlyargs + node.args.args
            ps = [p.arg for p in ps[len(ps) - len(defaults):]]
            defaults = [raw("unk", f"state:{q}.{p}") if p in kept else d for p, d in zip(ps, defaults)]
            kwd = [raw("unk", f"state:{q}.{p.arg}") if p.arg in kept else d for p, d in zip(node.args.kwonlyargs, kwd)]
        self.fns[n] = Fn(node, self.frame, mod, q, defaults, kwd)
        return raw("fn", n)

    def s_ClassDef(self, s):
        bases = [self.ev(b) for b in s.bases]
        fid = self.new_cell(Cell("frame", {"__isclass__": TRUE}, self.frame))
        mod = self.cur[-1][0]
        q = self.cur[-1][2] + "." + s.name
        self.cur.append((mod, fid, q))
        try:
            self.block(s.body)
        finally:
            self.cur.pop()
        self.classes[q] = Cls(s.name, mod, bases, fid, s)
        val = raw("cls", q)
        for d in reversed(s.decorator_list):
            dv = self.ev(d)
            val = self.models.decorate_class(self, dv, val)
        self.assign_name(s.name, val)

    def s_Import(self, s):
        for a in s.names:
            if self.is_package(a.name):
                self.run_module(a.name)
                if a.asname:
                    self.assign_name(a.asname, glob("pkg:" + a.name))
                else:
                    self.assign_name(a.name.split(".")[0], glob("pkg:" + a.name.split(".")[0]))
            else:
                if a.asname:
                    self.assign_name(a.asname, self.models.ext_glob(a.name))
                else:
                    self.assign_name(a.name.split(".")[0], self.models.ext_glob(a.name.split(".")[0]))

    def s_ImportFrom(self, s):
        mod = s.module or ""
        if s.level:
            base = self.cur[-1][0].name.split(".")
            if not self.cur[-1][0].path.endswith("__init__.py"):
                base = base[:-1]
            base = base[: len(base) - (s.level - 1)]
            mod = ".".join(base + ([mod] if mod else []))
        for a in s.names:
            name = a.asname or a.name
            if self.is_package(mod):
                full = mod + "." + a.name
                m = self.run_module(mod)
                if m is None:
                    raise Missing(f"module {mod}")
                x = self.st.cells[m.frame].content.get(a.name)
                if x is None:
                    sub = self.run_module(full)
                    x = glob("pkg:" + full) if sub is not None else raw("unk", "import:" + full)
                self.assign_name(name, x)
            else:
                self.assign_name(name, self.models.ext_glob(mod + "." + a.name))

    # ------------------------------------------------------------ loops

    def s_For(self, s):
        it = self.ev(s.iter)
        seq = self.iter_seq(it)
        live = self.live_outside(s)

        def body(elem):
            self.assign(s.target, elem)
            self.block(s.body)

        self.for_loop(seq, body, live, s.orelse)

    def live_outside(self, s):
        """Names that are read outside of the loop ``s`` in its function."""
        fn = self.cur[-1][3] if len(self.cur[-1]) > 3 else None
        root = fn if fn is not None else self.cur[-1][0].tree
        inside = set(map(id, ast.walk(s)))
        names = set()
        for n in ast.walk(root):
            if isinstance(n, ast.Name) and id(n) not in inside:
                if isinstance(n.ctx, ast.Load):
                    names.add(n.id)
        return names

    def for_loop(self, seq, body, live=None, orelse=()):
        saved = self.exits
        self.exits = []
        self.iterate(seq, body, live)
        mine = self.exits
        self.exits = saved
        breaks = []
        for e in mine:
            if e.kind == "break":
                breaks.append((e.cond, None, e.state))
            elif e.kind == "continue":
                breaks.append((e.cond, None, e.state))
            else:
                self.exits.append(e)
        if orelse and self.st.pc is not FALSE:
            self.block(orelse)
        if breaks:
            parts = breaks
            for b in parts:
                b[2].pc = b[0]
            if self.st.pc is not FALSE:
                parts = breaks + [(self.st.pc, None, self.st)]
            _, self.st = self.join(parts)

    def one_iteration(self, body, elem):
        """Run a loop body, merging ``continue`` exits into its end."""
        saved = self.exits
        self.exits = []
        body(elem)
        mine = self.exits
        self.exits = saved
        parts = []
        for e in mine:
            if e.kind == "continue":
                e.state.pc = e.cond
                parts.append((e.cond, None, e.state))
            else:
                self.exits.append(e)
        if parts:
            if self.st.pc is not FALSE:
                parts.append((self.st.pc, None, self.st))
            _, self.st = self.join(parts)

    def iterate(self, seq, body, live=None):
        if seq.op == "ite":
            self.branch(
                atom(seq.args[0]),
                lambda: self.iterate(self.iter_seq(seq.args[1]), body, live),
                lambda: self.iterate(self.iter_seq(seq.args[2]), body, live),
            )
            return
        for p in seq.args:
            if self.st.pc is FALSE:
                return
            if p.op == "one":
                self.one_iteration(body, p.args[0])
            elif p.op == "opt":
                self.branch(
                    p.args[0],
                    lambda: self.iterate(p.args[1], body, live),
                    lambda: self.iterate(p.args[2], body, live),
                )
            elif p.op == "spl":
                dom = p.args[0]
                self.loop_dom(dom, lambda i: self.one_iteration(body, v.at(dom, i)), live)
            elif p.op == "fm":
                dom, f = p.args
                self.loop_dom(
                    dom, lambda i: self.iterate(app(f, i), body, live), live
                )
            else:
                raise Unsupported("iteration over " + p.op)

    def locs(self, st):
        for n, c in st.cells.items():
            if c.kind in ("frame", "obj"):
                for a, x in c.content.items():
                    if isinstance(x, T):
                        yield (n, a), x
            else:
                yield (n, None), c.content

    def loop_dom(self, dom, body, live=None, cond=None):
        """A loop over an opaque domain."""
        if dom.op == "sett" or (dom.op == "call" and dom.args[0] == "setiter"):
            self.setiters.append((dom, self.where()))
        i = fresh("i")
        v.DOM_OF[i] = dom
        S0 = self.st
        outer_exits = self.exits
        outer_assumed = self.assumed
        carried = {}  # loc -> (symbol, kind)
        self.loop_depth += 1
        for _ in range(12):
            st = S0.fork(TRUE)
            self.st = st
            self.exits = []
            self.assumed = And(outer_assumed, S0.pc)
            installed = self.install(st, carried)
            body(i)
            end = self.st
            exits = self.exits
            changed = self.changed(S0, installed, end, carried)
            for e in exits:
                if e.kind == "break":
                    changed |= self.changed(S0, installed, e.state, carried)
            new = changed - set(carried)
            if not new:
                break
            for loc in sorted(new, key=lambda l: (l[0], str(l[1]))):
                carried[loc] = self.carry_kind(S0, end, loc)
        else:
            raise Unsupported("loop does not stabilise")
        self.loop_depth -= 1
        self.assumed = outer_assumed
        self.exits = outer_exits
        self.finish_loop(dom, i, S0, end, exits, carried, live)

    def get_loc(self, st, loc):
        n, a = loc
        c = st.cells.get(n)
        if c is None:
            return UNDEF
        if a is None:
            return c.content
        return c.content.get(a, UNDEF)

    def carry_kind(self, S0, end, loc):
        n, a = loc
        b = fresh("s")
        if a is None:
            return b, S0.cells[n].kind
        x0, x1 = self.get_loc(S0, loc), self.get_loc(end, loc)
        kinds = set()
        for st, x in ((S0, x0), (end, x1)):
            for l in tm.leaves(x):
                if l.op == "ref" and l.args[0] in st.cells:
                    kinds.add(st.cells[l.args[0]].kind)
                elif l is UNDEF:
                    pass
                else:
                    kinds.add("val")
        if len(kinds) == 1:
            k = kinds.pop()
            if k in ("list", "dict", "set"):
                return b, "v" + k
        return b, "val"

    def install(self, st, carried):
        inst = {}
        for loc, (b, kind) in carried.items():
            n, a = loc
            if kind == "list":
                st.cells[n] = st.cells[n].with_(v.cat(v.spl(b)))
            elif kind == "dict":
                st.cells[n] = st.cells[n].with_(v.dct(raw("dspl", b)))
            elif kind == "set":
                st.cells[n] = st.cells[n].with_(v.sett(v.spl(b)))
            elif kind == "ext":
                st.cells[n] = st.cells[n].with_(b)
            else:
                saved = self.st
                self.st = st
                if kind == "vlist":
                    x = self.new_list(v.cat(v.spl(b)))
                elif kind == "vdict":
                    x = self.new_dict(v.dct(raw("dspl", b)))
                elif kind == "vset":
                    x = self.new_set(v.sett(v.spl(b)))
                else:
                    x = b
                self.st = saved
                c = st.cells[n]
                d = dict(c.content)
                d[a] = x
                st.cells[n] = c.with_(d)
            inst[loc] = self.get_loc(st, loc)
        return inst

    def changed(self, S0, installed, end, carried):
        res = set()
        for n, c in S0.cells.items():
            e = end.cells.get(n)
            if e is None or e is c:
                continue
            if c.kind in ("frame", "obj"):
                for a in set(c.content) | set(e.content):
                    x = installed.get((n, a), c.content.get(a, UNDEF))
                    y = e.content.get(a, UNDEF)
                    if x is not y and isinstance(y, T):
                        res.add((n, a))
            else:
                x = installed.get((n, None), c.content)
                if e.content is not x:
                    res.add((n, None))
        return res

    def frozen_loc(self, st, loc, kind):
        saved = self.st
        self.st = st
        try:
            x = self.get_loc(st, loc)
            if x is UNDEF:
                return UNDEF
            return self.freeze(x)
        finally:
            self.st = saved

    def finish_loop(self, dom, i, S0, end, exits, carried, live):
        syms = {loc: b for loc, (b, k) in carried.items()}
        new, init = {}, {}
        for loc, (b, kind) in list(carried.items()):
            n, a = loc
            if (
                a is not None
                and S0.cells[n].kind == "frame"
                and live is not None
                and a not in live
                and n == self.frame
            ):
                if not any(
                    b in self.frozen_loc(end, l2, k2)._fb
                    for l2, (b2, k2) in carried.items()
                    if self.is_live(l2, S0, live)
                ) and not any(b in e.cond._fb or (isinstance(e.value, T) and b in e.value._fb) for e in exits):
                    # a temporary of the loop body
                    continue
            new[loc] = self.frozen_loc(end, loc, kind)
            init[loc] = self.frozen_loc(S0, loc, kind)
        temps = [l for l in carried if l not in new]
        self.st = S0.fork()
        for n, a in temps:
            c = self.st.cells[n]
            d = dict(c.content)
            d[a] = UNDEF
            self.st.cells[n] = c.with_(d)

        rets = [e for e in exits if e.kind in ("return", "raise")]
        brks = [e for e in exits if e.kind == "break"]
        symset = [syms[l] for l in new]

        # ------- leaving the loop early
        pc0 = self.st.pc
        leave = FALSE
        if brks:
            P = Or(*[e.cond for e in brks])
            bval = {}
            for loc in new:
                x = None
                for e in brks:
                    y = self.frozen_loc(e.state, loc, carried[loc][1])
                    x = y if x is None else ite(e.cond, y, x)
                bval[loc] = x
            if all(self.same_as_symbol(new[l], syms[l], carried[l][1]) for l in new) and not any(
                s in P._fb for s in symset
            ):
                E = v.exists(dom, i, P)
                for loc in new:
                    val = self.first(dom, i, P, bval[loc])
                    self.set_loc(loc, ite(E, val, init[loc]), carried[loc][1])
                new = {}
            elif not any(b in P._fb for b, _ in carried.values()):
                # the elements up to the first one with the condition
                dom = raw("until", dom, lam([i], P))
                v.DOM_OF[i] = dom
                for loc in new:
                    new[loc] = ite(P, bval[loc], new[loc])
            else:
                fl = fresh("br")
                flc = atom(fl)
                fin = {}
                for loc in new:
                    s = self.symbol_value(syms[loc], carried[loc][1])
                    fin[loc] = ite(flc, s, ite(P, bval[loc], new[loc]))
                new = fin
                brloc = ("break", None)
                new[brloc] = ite(flc, TRUE, P)
                init[brloc] = FALSE
                syms[brloc] = fl
                carried = dict(carried)
                carried[brloc] = (fl, "val")
                rets = []
                self.notes.append("loop with break and state")
        for e in rets:
            P = e.cond
            if any(s in P._fb for s in symset) or (
                isinstance(e.value, T) and any(s in e.value._fb for s in symset)
            ):
                E = atom(raw("loopexit", dom, lam([i] + symset, raw("tuple", P, self.freeze_in(e)))))
                val = raw("unk", "exit of a loop with state")
            else:
                E = v.exists(dom, i, P)
                val = self.first(dom, i, P, self.freeze_in(e))
            E = And(E, Not(leave))
            if E is FALSE:
                continue
            leave = Or(leave, E)
            st = self.st.fork(And(pc0, E))
            self.exits.append(Exit(e.kind, And(pc0, E), val, st))
        # ------- distinct keys: reads of an entry that only this iteration writes
        if v.distinct_domain(dom):
            self.localise_keys(dom, i, new, init, syms, carried)
        # ------- counters
        for loc in list(new):
            b = syms[loc]
            if carried[loc][1] == "val" and new[loc] is not None:
                d = v.sub_(new[loc], b) if new[loc].op in ("add",) else None
                if d is not None and v.is_num(d) and b not in d._fb:
                    step = d.args[0]
                    m = {b: v.add_(init[loc], v.mul_(const(step), i))}
                    for l2 in new:
                        if l2 != loc:
                            new[l2] = tm.subst(new[l2], m)
                    self.set_loc(
                        loc, v.add_(init[loc], v.mul_(const(step), v.dom_len(dom))), "val"
                    )
                    del new[loc]
        # ------- closed forms
        for loc in list(new):
            b = syms[loc]
            kind = carried[loc][1]
            x = new[loc]
            r = self.closed_form(dom, i, b, kind, x, init[loc], [syms[l] for l in new])
            if r is not None:
                self.set_loc(loc, r, kind)
            else:
                r = self.fold(dom, i, loc, new, init, syms, carried)
                self.set_loc(loc, r, kind)
        self.st.pc = And(pc0, Not(leave))

    def is_live(self, loc, S0, live):
        n, a = loc
        if a is None or live is None or n not in S0.cells:
            return True
        if S0.cells[n].kind != "frame" or n != self.frame:
            return True
        return a in live

    def freeze_in(self, e):
        saved = self.st
        self.st = e.state
        try:
            return self.freeze(e.value)
        finally:
            self.st = saved

    def symbol_value(self, b, kind):
        if kind in ("list", "vlist"):
            return v.cat(v.spl(b))
        if kind in ("dict", "vdict"):
            return v.dct(raw("dspl", b))
        if kind in ("set", "vset"):
            return v.sett(v.spl(b))
        return b

    def same_as_symbol(self, x, b, kind):
        return x is self.symbol_value(b, kind)

    def first(self, dom, i, P, val):
        if i not in val._fb:
            return val
        return raw("first", dom, lam(i, v.tup(P, val)))

    def set_loc(self, loc, val, kind):
        n, a = loc
        if n == "break":
            return
        if a is None:
            if kind == "list":
                val = v.seq_of(val) if val.op != "ite" else map_leaves(val, v.seq_of)
            elif kind == "dict":
                val = v.dict_of(val)
            elif kind == "set":
                val = v.set_of(val)
            self.st.cells[n] = self.st.cells[n].with_(val)
            return
        if kind == "vlist":
            val = self.new_list(v.seq_of(val))
        elif kind == "vdict":
            val = self.new_dict(v.dict_of(val))
        elif kind == "vset":
            val = self.new_set(v.set_of(val))
        c = self.st.cells[n]
        d = dict(c.content)
        d[a] = val
        self.st.cells[n] = c.with_(d)

    def localise_keys(self, dom, i, new, init, syms, carried):
        for loc in list(new):
            kind = carried[loc][1]
            if kind not in ("dict", "vdict"):
                continue
            b = syms[loc]
            keys = set()
            ok = True
            x = new[loc]
            for leaf in tm.leaves(x):
                if leaf.op != "dct" or not leaf.args or leaf.args[0] is not raw("dspl", b):
                    ok = False
                    break
                if not self.write_keys(leaf.args[1:], keys, b):
                    ok = False
                    break
            if not ok:
                continue
            # the keys must identify the iteration
            inj = [k for k in keys if self.injective(k, dom, i)]
            if len(inj) != len(keys):
                continue
            m = {}
            for l2, y in new.items():
                for t in tm.walk(y):
                    if t.op == "idx" and t.args[0] is b and t.args[1] in keys:
                        m[t] = v.dget(init[loc], t.args[1])
                    elif t.op == "in" and t.args[1] is b and t.args[0] in keys:
                        m[t] = v.contains(t.args[0], init[loc])
            if m:
                for l2 in new:
                    new[l2] = tm.subst(new[l2], m)

    def injective(self, k, dom, i):
        return k is v.at(dom, i)

    def write_keys(self, pieces, keys, b):
        for p in pieces:
            if p.op in ("kv", "ddel"):
                keys.add(p.args[0])
            elif p.op == "dopt":
                if not self.write_keys(p.args[1].args, keys, b):
                    return False
                if not self.write_keys(p.args[2].args, keys, b):
                    return False
            else:
                return False
        return True

    def closed_form(self, dom, i, b, kind, x, init, symset):
        others = [s for s in symset if s is not b]
        if any(s in x._fb for s in others):
            return None
        if b not in x._fb:
            # recomputed in every iteration: the last one counts
            val = x
            if i in x._fb:
                val = raw("last", dom, lam(i, v.tup(TRUE, x)))
            if init is UNDEF:
                return val
            return ite(v.truth(dom), val, init)
        if kind in ("list", "vlist") and x.op == "cat":
            S = v.spl(b)
            if x.args and x.args[0] is S and not any(b in p._fb for p in x.args[1:]):
                return v.cat(*v.seq_of(init).args, v.fm(dom, i, v.cat(*x.args[1:]))) if init.op != "ite" else v.cat(v.spl(init), v.fm(dom, i, v.cat(*x.args[1:])))
            if x.args and x.args[-1] is S and not any(b in p._fb for p in x.args[:-1]):
                return v.cat(v.fm(v.revdom(dom), i, v.cat(*x.args[:-1])), *v.seq_of(init).args)
            return None
        if kind in ("dict", "vdict") and x.op == "dct":
            S = raw("dspl", b)
            if x.args and x.args[0] is S and not any(b in p._fb for p in x.args[1:]):
                rest = x.args[1:]
                if any(self.has_del(p) for p in rest):
                    ks = self.del_keys(rest)
                    if ks is None:
                        return None
                    return v.dct(v.dict_of(init), raw("ddelfm", dom, lam(i, ks)))
                return v.dct(v.dict_of(init), v.dfm(dom, i, v.dct(*rest)))
            return None
        if kind in ("set", "vset") and x.op == "sett":
            S = v.spl(b)
            rest = [p for p in x.args if p is not S]
            if S in x.args and not any(b in p._fb for p in rest):
                return v.sett(v.set_of(init), v.fm(dom, i, v.cat(*rest)))
            return None
        if kind == "val":
            # x = ite(P, val, b)
            ls = tm.leaves(x)
            if b in ls and not any(b in l._fb for l in ls if l is not b):
                P = v._cond_map(x, lambda l: FALSE if l is b else TRUE)
                if b not in P._fb:
                    rest = tm.assume_cond(x, P)
                    if b not in rest._fb:
                        if i not in rest._fb:
                            return ite(v.exists(dom, i, P), rest, init)
                        val = raw("last", dom, lam(i, v.tup(P, rest)))
                        return ite(v.exists(dom, i, P), val, init)
            if tm.is_cond(x) or x.op == "ite":
                # flags: or / and with the previous value
                fb = atom(raw("truthy", b))
                hi = tm.assume_cond(x, fb)
                lo = tm.assume_cond(x, Not(fb))
                if b not in hi._fb and b not in lo._fb:
                    if hi is TRUE:
                        return ite(v.truth(init), TRUE, v.exists(dom, i, lo))
                    if lo is FALSE:
                        return ite(
                            v.truth(init), Not(v.exists(dom, i, Not(hi))), FALSE
                        )
            if x.op == "add" and b in x.args:
                rest = v.sub_(x, b)
                if b not in rest._fb:
                    return v.add_(init, raw("sumover", dom, lam(i, rest)))
        return None

    def has_del(self, p):
        if p.op in ("ddel", "ddelfm"):
            return True
        if p.op == "dopt":
            return any(self.has_del(q) for q in p.args[1].args + p.args[2].args)
        return False

    def del_keys(self, ps):
        out = []
        for p in ps:
            if p.op == "ddel":
                out.append(v.one(p.args[0]))
            elif p.op == "dopt" and not p.args[2].args:
                k = self.del_keys(p.args[1].args)
                if k is None:
                    return None
                out.append(raw("opt", p.args[0], k, v.EMPTY))
            else:
                return None
        return v.cat(*out)

    def fold(self, dom, i, loc, new, init, syms, carried):
        """The value of ``loc`` after the loop, as a fold over the smallest
        set of locations that it depends on."""
        need = [loc]
        for l in need:
            for l2 in new:
                if l2 not in need and syms[l2] in new[l]._fb:
                    need.append(l2)
        by_init = {}
        for l in need:
            by_init.setdefault(init[l].id, []).append(l)
        groups = [by_init[k] for k in sorted(by_init)]
        best = None
        n = 1
        for g in groups:
            for q in range(2, len(g) + 1):
                n *= q
        perms = itertools.product(*[itertools.permutations(g) for g in groups]) if n <= 120 else [groups]
        for perm in perms:
            order = [l for g in perm for l in g]
            f = lam(
                [i] + [syms[l] for l in order],
                raw("tuple", *[new[l] for l in order]),
            )
            t = raw(
                "fold",
                dom,
                f,
                raw("tuple", *[init[l] for l in order]),
                order.index(loc),
            )
            if best is None or t.id < best.id:
                best = t
        return best

    def s_While(self, s):
        if isinstance(s.test, ast.Constant) and not s.test.value:
            return
        t = without_breaks(s)
        if t is not None:
            for x in t:
                self.stmt(x)
            return
        S0 = self.st
        outer_exits, outer_assumed = self.exits, self.assumed
        carried = {}
        self.loop_depth += 1
        for _ in range(12):
            st = S0.fork(TRUE)
            self.st = st
            self.exits = []
            self.assumed = outer_assumed
            installed = self.install(st, carried)
            c = self.cond(s.test)
            st = self.st
            st.pc = And(st.pc, c)
            self.one_iteration(lambda _: self.block(s.body), None)
            end = self.st
            exits = self.exits
            changed = self.changed(S0, installed, end, carried)
            new = changed - set(carried)
            if not new:
                break
            for loc in sorted(new, key=lambda l: (l[0], str(l[1]))):
                carried[loc] = self.carry_kind(S0, end, loc)
        else:
            raise Unsupported("loop does not stabilise")
        self.loop_depth -= 1
        self.assumed, self.exits = outer_assumed, outer_exits
        newv, init, order = {}, {}, []
        for loc, (b, kind) in carried.items():
            newv[loc] = self.frozen_loc(end, loc, kind)
            init[loc] = self.frozen_loc(S0, loc, kind)
            order.append(loc)
        sym_ = {l: carried[l][0] for l in carried}
        test = [l for l in order if sym_[l] in c._fb]

        def loop(build):
            """The best representation, with the smallest set of locations that it depends on."""
            best = None
            for ls in build[0]:
                bvs = [sym_[l] for l in ls]
                step = lam(bvs, raw("tuple", c, *[newv[l] for l in ls])) if bvs else raw("thunk", c)
                t = build[1](step, raw("tuple", *[init[l] for l in ls]), ls, bvs)
                if best is None or t.id < best.id:
                    best = t
            return best

        def orders(need):
            need = list(need)
            for l in need:
                need += [k for k in order if k not in need and sym_[k] in newv[l]._fb]
            by_init = {}
            for l in need:
                by_init.setdefault(init[l].id, []).append(l)
            groups = [by_init[k] for k in sorted(by_init)]
            n = 1
            for g in groups:
                n *= math.factorial(len(g))
            perms = itertools.product(*[itertools.permutations(g) for g in groups]) if n <= 120 else [groups]
            return [[l for g in perm for l in g] for perm in perms]

        closed, visit = reach.worklist(c, sym_, newv, init)
        rets = [e for e in exits if e.kind in ("return", "raise")]
        self.st = S0.fork()
        for e in exits:
            if e.kind in ("return", "raise"):
                at_ = raw("tuple", e.cond, self.freeze_in(e))
                need = test + [l for l in order if l not in test and sym_[l] in at_._fb]
                if visit is not None and len(rets) == 1:
                    R, k, seen = visit
                    P, val = seen(e.cond), seen(self.freeze_in(e))
                    if not any(b in P._fb or b in val._fb for b in sym_.values()):
                        E = v.exists(R, k, P)
                        self.exits.append(
                            Exit(e.kind, And(self.st.pc, E), self.first(R, k, P, val), self.st.fork(And(self.st.pc, E)))
                        )
                        self.st.pc = And(self.st.pc, Not(E))
                        continue
                E = atom(loop((orders(need), lambda step, inits, ls, bvs: raw("whileexit", step, inits, lam(bvs, at_)))))
                self.exits.append(
                    Exit(e.kind, And(self.st.pc, E), raw("unk", "exit of a while loop"), self.st.fork())
                )
                self.st.pc = And(self.st.pc, Not(E))
        for l in order:
            if l in closed:
                self.set_loc(l, closed[l], carried[l][1])
                continue
            need = test + ([l] if l not in test else [])
            self.set_loc(l, loop((orders(need), lambda step, inits, ls, bvs: raw("while", step, inits, ls.index(l)))), carried[l][1])
        self.block(s.orelse)

    # ------------------------------------------------------------ expressions

    def where(self):
        m = self.cur[-1] if self.cur else None
        return (m[2] if m else "?", getattr(self, "line", 0))

    def ev(self, n):
        if hasattr(n, "lineno"):
            self.line = n.lineno
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            raise Unsupported(type(n).__name__)
        r = m(n)
        if isinstance(r, T) and r.op == "ite" and self.st.pc is not FALSE:
            r = self.simp(r)
        if isinstance(r, T) and r.id not in self.loc and self.cur:
            mod = self.cur[-1][0]
            self.loc[r.id] = (os.path.relpath(mod.path, self.root), getattr(n, "lineno", 0), self.cur[-1][2])
        return r

    def cond(self, n):
        """The condition under which the expression ``n`` is true."""
        if isinstance(n, ast.BoolOp):
            isand = isinstance(n.op, ast.And)

            def go(vals):
                c = self.cond(vals[0])
                if len(vals) == 1:
                    return c
                if isand:
                    return self.branch(c, lambda: go(vals[1:]), lambda: FALSE)
                return self.branch(c, lambda: TRUE, lambda: go(vals[1:]))

            return go(n.values)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            return Not(self.cond(n.operand))
        return self.truth(self.ev(n))

    def truth(self, x):
        if x.op == "ite":
            return v._cond_map(x, self.truth)
        if x.op == "ref":
            c = self.cell(x)
            if c.kind in ("list", "dict", "set"):
                return v.truth(c.content)
            return TRUE
        if x.op == "slot":
            return v.truth(self.deref(x))
        return v.truth(x)

    def e_Constant(self, n):
        return const(n.value)

    def e_Name(self, n):
        return self.lookup(n.id)

    def e_NamedExpr(self, n):
        x = self.ev(n.value)
        self.assign(n.target, x)
        return x

    def e_JoinedStr(self, n):
        for x in n.values:
            if isinstance(x, ast.FormattedValue):
                pass
        return raw("str", "f")

    def e_Tuple(self, n):
        return v.cat(*self.elems(n.elts))

    def e_List(self, n):
        return self.new_list(v.cat(*self.elems(n.elts)))

    def e_Set(self, n):
        return self.new_set(v.sett(*self.elems(n.elts)))

    def elems(self, elts):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                out.extend(self.iter_seq(self.ev(e.value)).args) if True else None
            else:
                out.append(v.one(self.ev(e)))
        return out

    def e_Dict(self, n):
        d = v.DEMPTY
        for k, x in zip(n.keys, n.values):
            if k is None:
                y = self.deref(self.ev(x))
                d = v.dct(*d.args, *v.dict_of(y).args) if y.op != "ite" else v.dct(*d.args, raw("dspl", y))
            else:
                kk = self.key(self.ev(k))
                d = v.dstore(d, kk, self.ev(x))
        return self.new_dict(d)

    def e_IfExp(self, n):
        c = self.cond(n.test)
        return self.branch(c, lambda: self.ev(n.body), lambda: self.ev(n.orelse))

    def e_BoolOp(self, n):
        isand = isinstance(n.op, ast.And)

        def go(vals):
            x = self.ev(vals[0])
            if len(vals) == 1:
                return x
            c = self.truth(x)
            if isand:
                return self.branch(c, lambda: go(vals[1:]), lambda: x)
            return self.branch(c, lambda: x, lambda: go(vals[1:]))

        return go(n.values)

    def e_UnaryOp(self, n):
        if isinstance(n.op, ast.Not):
            return Not(self.cond(n.operand))
        x = self.ev(n.operand)
        if isinstance(n.op, ast.USub):
            return v.neg(x)
        if isinstance(n.op, ast.UAdd):
            return x
        return mk("call", "op:invert", self.freeze(x))

    def e_BinOp(self, n):
        a = self.ev(n.left)
        b = self.ev(n.right)
        return self.binop(type(n.op).__name__, a, b)

    def binop(self, op, a, b):
        if a.op == "ite" or b.op == "ite":
            if any(l.op in ("ref", "slot", "cat", "dct", "sett") for l in tm.leaves(a) + tm.leaves(b)):
                return lift(lambda x, y: self.binop(op, x, y), a, b)
        da, db = self.deref(a), self.deref(b)
        if op == "Add":
            if da.op == "cat" and is_tensor_shape(db) or db.op == "cat" and is_tensor_shape(da):
                # the shape of a tensor is a tensor, so this adds numbers
                return raw("call", "ae:sum of shapes", self.freeze(da), self.freeze(db))
            if da.op == "cat" or db.op == "cat":
                r = v.cat(*(v.seq_of(da).args + v.seq_of(db).args))
                return self.new_list(r) if a.op == "ref" else r
            if (da.op == "const" and isinstance(da.args[0], str)) or da.op == "str":
                return raw("str", "+")
            return v.add_(da, db)
        if op == "Sub":
            if da.op == "sett" or db.op == "sett" or "setdiff" in (da.op,):
                return self.models.set_diff(self, da, db)
            return v.sub_(da, db)
        if op == "Mult":
            if da.op == "cat" and is_const(db) and isinstance(db.args[0], int):
                return v.cat(*(da.args * db.args[0]))
            for x, n in ((da, db), (db, da)):
                if x.op == "cat" and n.op == "len":
                    return v.cat(raw("fm", n.args[0], tm.lam(tm.fresh(), x)))
            return v.mul_(da, db)
        if op == "Div":
            return v.div_(da, db)
        if op == "Pow":
            return v.pow_(da, db)
        if op == "MatMult":
            return mk("call", "ae:dot", da, db)
        if op == "BitOr":
            if da.op == "dct" or db.op == "dct":
                return self.new_dict(v.dct(*v.dict_of(da).args, *v.dict_of(db).args))
            if da.op == "sett" or db.op == "sett":
                return self.new_set(v.sett(v.set_of(da), v.set_of(db)))
            if is_cond(da) and is_cond(db):
                return Or(da, db)
        if op == "BitAnd" and is_cond(da) and is_cond(db):
            return And(da, db)
        if op == "FloorDiv" and v.is_num(da) and v.is_num(db):
            return const(da.args[0] // db.args[0])
        if op == "Mod":
            if da.op == "const" and isinstance(da.args[0], str):
                return raw("str", "%")
        return mk("call", "op:" + op, self.freeze(da), self.freeze(db))

    def e_Compare(self, n):
        left = self.ev(n.left)
        res = TRUE

        def go(left, ops, comps):
            right = self.ev(comps[0])
            c = self.compare(type(ops[0]).__name__, left, right)
            if len(ops) == 1:
                return c
            return self.branch(c, lambda: go(right, ops[1:], comps[1:]), lambda: FALSE)

        return go(left, n.ops, n.comparators)

    def compare(self, op, a, b):
        if op in ("Is", "IsNot"):
            r = self.models.identical(self, a, b)
            return r if op == "Is" else Not(r)
        if op in ("In", "NotIn"):
            r = v.contains(self.key(a), self.freeze(b))
            return r if op == "In" else Not(r)
        a, b = self.freeze(a), self.freeze(b)
        if op in ("Eq", "NotEq") and any(
            v.is_array(l) for x in (a, b) for l in tm.leaves(x)
        ):
            return v.elt("eq" if op == "Eq" else "ne", a, b)
        if op == "Eq":
            return v.eq(a, b)
        if op == "NotEq":
            return Not(v.eq(a, b))
        if op in ("Lt", "Gt", "LtE", "GtE") and all(l.op == "sett" for x in (a, b) for l in tm.leaves(x)):
            # sets: inclusion
            a, b = (a, b) if op in ("Lt", "LtE") else (b, a)
            c = self.models.subset(self, a, b)
            return c if op in ("LtE", "GtE") else And(c, Not(self.models.subset(self, b, a)))
        if op == "Lt":
            return v.lt(a, b)
        if op == "Gt":
            return v.lt(b, a)
        if op == "LtE":
            return Not(v.lt(b, a))
        if op == "GtE":
            return Not(v.lt(a, b))
        raise Unsupported(op)

    def e_Attribute(self, n):
        return self.getattr(self.ev(n.value), n.attr)

    def getattr(self, x, name):
        if x.op == "ite":
            return self.lift_eval(lambda y: self.getattr(y, name), x)
        return self.models.get_attribute(self, x, name)

    def lift_eval(self, f, x):
        """Apply ``f`` at every leaf of a gated value under its gate."""
        x = self.simp(x) if self.st.pc is not FALSE else x
        if x.op != "ite":
            return f(x)
        ls = tm.leaves(x)
        if set(ls) <= {TRUE, FALSE}:
            return self.branch(x, lambda: f(TRUE), lambda: f(FALSE))

        def go(k):
            if k == len(ls) - 1:
                return f(ls[k])
            c = map_leaves(x, lambda l: TRUE if l is ls[k] else FALSE)
            return self.branch(c, lambda: f(ls[k]), lambda: go(k + 1))

        return go(0)

    def ev_slice(self, n):
        if isinstance(n, ast.Slice):
            return raw(
                "sl",
                NONE if n.lower is None else self.ev(n.lower),
                NONE if n.upper is None else self.ev(n.upper),
                NONE if n.step is None else self.ev(n.step),
            )
        if isinstance(n, ast.Tuple):
            return v.cat(
                *[
                    v.one(self.ev_slice(e))
                    if not isinstance(e, ast.Starred)
                    else v.spl(self.ev(e.value))
                    for e in n.elts
                ]
            )
        return self.ev(n)

    def e_Subscript(self, n):
        x = self.ev(n.value)
        k = self.ev_slice(n.slice)
        return self.sub(x, k)

    def sub(self, x, k, unpack=None):
        if x.op == "ite":
            return self.lift_eval(lambda y: self.sub(y, k, unpack), x)
        return self.models.subscript(self, x, k, unpack)

    def e_Lambda(self, n):
        return self.make_fn(n, "<lambda>")

    def e_Starred(self, n):
        raise Unsupported("starred")

    def e_ListComp(self, n):
        return self.comp(n, "list")

    def e_GeneratorExp(self, n):
        return self.deref(self.comp(n, "list"))

    def e_SetComp(self, n):
        return self.comp(n, "set")

    def e_DictComp(self, n):
        return self.comp(n, "dict")

    def comp(self, n, kind):
        if kind == "list":
            acc = self.new_list(v.EMPTY)
        elif kind == "set":
            acc = self.new_set(v.SEMPTY)
        else:
            acc = self.new_dict(v.DEMPTY)
        mod = self.cur[-1]
        fid = self.new_cell(Cell("frame", {}, self.frame))
        self.cur.append((mod[0], fid, mod[2]) + tuple(mod[3:]))

        def gen(k):
            if k == len(n.generators):
                if kind == "list":
                    x = self.ev(n.elt)
                    c = self.cell(acc)
                    self.set_content(acc, v.cat(*v.seq_of(c.content).args, v.one(x)))
                elif kind == "set":
                    x = self.key(self.ev(n.elt))
                    c = self.cell(acc)
                    self.set_content(acc, v.sett(c.content, v.one(x)))
                else:
                    kk = self.key(self.ev(n.key))
                    x = self.ev(n.value)
                    c = self.cell(acc)
                    self.set_content(acc, v.dstore(v.dict_of(c.content), kk, x))
                return
            g = n.generators[k]
            seq = self.iter_seq(self.ev(g.iter))

            def body(elem):
                self.assign(g.target, elem)

                def conds(cs):
                    if not cs:
                        gen(k + 1)
                        return
                    c = self.cond(cs[0])
                    self.branch(c, lambda: conds(cs[1:]), lambda: None)

                conds(g.ifs)

            self.for_loop(seq, body, set())

        gen(0)
        self.cur.pop()
        return acc

    def iter_seq(self, x):
        """The sequence of elements that iterating over ``x`` yields."""
        x = self.deref(x)
        if x.op == "cat":
            return x
        if x.op == "ite":
            if all(l.op in ("cat",) for l in tm.leaves(x)):
                return v.seq_of(x)
            return v.cat(v.spl(map_leaves(x, lambda y: self.iter_seq(y))))
        if x.op == "dct":
            return v.dkeys(x)
        if x.op == "sett":
            self.setiters.append((x, self.where()))
            return v.cat(v.spl(raw("call", "setiter", x)))
        if x.op == "const" and isinstance(x.args[0], str):
            return v.tup(*[const(c) for c in x.args[0]])
        if x.op == "ref":
            c = self.cell(x)
            if c.kind == "ext":
                return v.cat(v.spl(self.freeze(x)))
        return v.cat(v.spl(x))

    def e_Yield(self, n):
        val = NONE if n.value is None else self.ev(n.value)
        acc = self.lookup("__yield__")
        c = self.cell(acc)
        self.set_content(acc, v.cat(*v.seq_of(c.content).args, v.one(val)))
        return NONE

    def e_YieldFrom(self, n):
        seq = self.iter_seq(self.ev(n.value))
        acc = self.lookup("__yield__")
        c = self.cell(acc)
        self.set_content(acc, v.cat(*v.seq_of(c.content).args, *seq.args))
        return NONE

    # ------------------------------------------------------------ calls

    def e_Call(self, n):
        self.call_sites += 1
        f = n.func
        if isinstance(f, ast.Attribute):
            if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super":
                args, kwargs = self.args(n)
                return self.models.super_call(self, f.attr, args, kwargs)
            obj = self.ev(f.value)
            if isinstance(f.value, ast.Subscript) and f.attr in MUTATORS and obj.op == "ite":
                obj = self.as_slot(f.value, obj)
            args, kwargs = self.args(n)
            return self.method(obj, f.attr, args, kwargs)
        fv = self.ev(f)
        args, kwargs = self.args(n)
        return self.call(fv, args, kwargs)

    def as_slot(self, n, val):
        """The item of a dictionary as a place, when it can be one of several containers."""
        d = self.ev(n.value)
        if d.op != "ref" or self.cell(d).kind != "dict" or isinstance(n.slice, ast.Slice):
            return val
        k = self.key(self.ev(n.slice))
        content = map_leaves(val, lambda x: self.deref(x) if x.op == "ref" else v.seq_of(x))
        if not all(x.op == "cat" for x in tm.leaves(content)):
            return val
        self.set_content(d, v.dstore(v.dict_of(self.cell(d).content), k, content))
        return raw("slot", d, k)

    def args(self, n):
        pieces = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                pieces.extend(self.iter_seq(self.ev(a.value)).args)
            else:
                pieces.append(v.one(self.ev(a)))
        kwargs = {}
        for k in n.keywords:
            if k.arg is None:
                d = v.dict_of(self.deref(self.ev(k.value)))
                if d.op == "dct" and all(
                    p.op == "kv" and p.args[0].op == "const" for p in d.args
                ):
                    for p in d.args:
                        kwargs[p.args[0].args[0]] = p.args[1]
                else:
                    kwargs["**"] = d
            else:
                kwargs[k.arg] = self.ev(k.value)
        return pieces, kwargs

    def method(self, obj, name, args, kwargs):
        if obj.op == "ite":
            return self.lift_eval(lambda o: self.method(o, name, args, kwargs), obj)
        return self.models.call_method(self, obj, name, args, kwargs)

    def call(self, f, args, kwargs):
        if f.op == "ite":
            return self.lift_eval(lambda g: self.call(g, args, kwargs), f)
        return self.models.call_value(self, f, args, kwargs)

    def call_fn(self, ft, args, kwargs):
        f = self.fns[ft.args[0]]
        if f.qualname in self.stubs:
            return self.stubs[f.qualname](self, args, kwargs)
        if self.depth > self.MAXDEPTH:
            raise Unsupported("recursion in " + f.qualname)
        self.analysed.add(f.qualname)
        node = f.node
        bound = self.bind(f, args, kwargs)
        fid = self.new_cell(Cell("frame", bound, f.frame if f.cls is None else self.st.cells[f.frame].extra))
        isgen = not isinstance(node, ast.Lambda) and self.is_generator(node)
        if isgen:
            acc = self.new_list(v.EMPTY)
            c = self.st.cells[fid]
            self.st.cells[fid] = c.with_({**c.content, "__yield__": acc})
        saved = self.exits, self.assumed, self.st.pc
        outer_pc = self.st.pc
        self.exits = []
        self.assumed = And(self.assumed, outer_pc)
        self.st.pc = TRUE
        self.cur.append((f.module, fid, f.qualname, node))
        self.depth += 1
        try:
            if isinstance(node, ast.Lambda):
                val = self.ev(node.body)
                if self.st.pc is not FALSE:
                    self.exit("return", val)
            else:
                self.block(node.body)
                if self.st.pc is not FALSE:
                    self.exit("return", NONE)
        finally:
            self.cur.pop()
            self.depth -= 1
        mine = self.exits
        end = self.st
        self.exits, self.assumed, _ = saved
        rets = [(e.cond, e.value, e.state) for e in mine if e.kind == "return"]
        for e in mine:
            if e.kind == "raise":
                self.exits.append(Exit("raise", And(outer_pc, e.cond), e.value, e.state))
        if not rets:
            self.st = end.fork(FALSE)
            return raw("unk", "no return")
        for c, _, s in rets:
            s.pc = c
        val, st = self.join(rets)
        self.st = st
        self.st.pc = And(outer_pc, Or(*[c for c, _, _ in rets]))
        if isgen:
            return self.cell(acc).content
        return val

    def is_generator(self, node):
        stack = list(node.body)
        while stack:
            x = stack.pop()
            if isinstance(x, (ast.Yield, ast.YieldFrom)):
                return True
            if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            stack.extend(ast.iter_child_nodes(x))
        return False

    def bind(self, f, args, kwargs):
        a = f.node.args
        params = [x.arg for x in a.posonlyargs + a.args]
        bound = {}
        pos = list(args)
        kwargs = dict(kwargs)
        k = 0
        for idx, p in enumerate(params):
            if k < len(pos):
                q = pos[k]
                if q.op == "one":
                    bound[p] = q.args[0]
                    k += 1
                    continue
                # an opaque splice fills the remaining parameters
                bound[p] = v.subscript(v.cat(*pos[k:]), const(idx - k)) if q.op == "spl" else raw("unk", "argument")
                if q.op == "spl":
                    n = len(params) - idx
                    for j, p2 in enumerate(params[idx:]):
                        bound[p2] = raw("idx", q.args[0], const(j))
                    k = len(pos)
                    break
                continue
            if p in kwargs:
                bound[p] = kwargs.pop(p)
                continue
            d = idx - (len(params) - len(f.defaults))
            if d >= 0:
                bound[p] = f.defaults[d]
            else:
                bound[p] = raw("unk", "argument:" + p)
        if a.vararg is not None:
            bound[a.vararg.arg] = v.cat(*pos[k:])
        for p, d in zip(a.kwonlyargs, f.kwdefaults):
            if p.arg in kwargs:
                bound[p.arg] = kwargs.pop(p.arg)
            elif d is not None:
                bound[p.arg] = d
        if a.kwarg is not None:
            d = v.DEMPTY
            for n, x in kwargs.items():
                d = v.dct(*d.args, x) if n == "**" else v.dstore(d, const(n), x)
            bound[a.kwarg.arg] = self.new_dict(d)
        return bound
