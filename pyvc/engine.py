"""A deductive verifier for the Python subset used by /repo/pyactr.

Forward symbolic execution of the *real* AST (parsed from /repo on every run), one function at a
time.  Calls to functions that have a registered contract are replaced by the contract (precondition
checked, postcondition assumed); other repository functions are executed from their own source.
Loops over collections of unknown length are cut with inductive invariants (LoopSpec) or, when their
body is stateless, with an automatically derived quantified summary.  Every obligation goes to z3.

Execution is direct style: a run follows one path, forks are recorded as a decision prefix, and the
function is re-executed for every other feasible prefix.
"""
import ast
import builtins
import importlib
import os
import time
import collections
from fractions import Fraction

import z3

from . import values as V
from .values import (Sym, HeapV, ListV, SetV, DictV, NTClass, NT, ModuleV, Ext, FuncV, PropV, BoundV,
                     BuiltinMethod, PyFn, ClassV, ObjV, SuperV, GenV, SeqV, Model, ValV, SlotV,
                     UNBOUND, POISON, is_num, is_str, is_boolv, next_uid)

INF = float("inf")


class Unsupported(Exception):
    """The verifier cannot express this; the function is undecided."""


class PathEnd(Exception):
    """This path needs no further exploration (infeasible, or an induction step closed)."""


class ReturnX(Exception):
    def __init__(self, v):
        self.v = v


class BreakX(Exception):
    pass


class ContinueX(Exception):
    pass


class NeedFork(Exception):
    pass


class RestartX(Exception):
    """An optimistic assumption (a local unchanged by a loop) turned out wrong: start the task again without it."""
    pass


class PyExc(Exception):
    """A Python exception raised by the program under verification."""
    def __init__(self, cls, args=(), obj=None):
        self.cls = cls
        self.pargs = list(args)
        self.obj = obj

    def __str__(self):
        return "%s(%s)" % (exc_name(self.cls), ", ".join(map(str, self.pargs)))


def exc_name(cls):
    return cls.name.split(".")[-1] if isinstance(cls, Ext) else cls.name


def bexc(name, *args):
    return PyExc(Ext("builtins." + name), args)


class SimpyInterrupt(Exception):
    """stands for simpy.Interrupt (simpy is outside)"""


class SimpyEmpty(Exception):
    """stands for simpy.core.EmptySchedule"""


SIMPY = {"simpy.Interrupt": SimpyInterrupt, "simpy.exceptions.Interrupt": SimpyInterrupt, "simpy.core.EmptySchedule": SimpyEmpty}


def real_class(ext):
    if ext.name in SIMPY:
        return SIMPY[ext.name]
    mod, _, nm = ext.name.rpartition(".")
    try:
        return getattr(importlib.import_module(mod), nm)
    except Exception:
        return None


class Frame:
    def __init__(self, module, func=None, closure=None, cls=None, localnames=()):
        self.locals = {}
        self.module = module
        self.func = func
        self.closure = closure
        self.cls = cls
        self.localnames = set(localnames)
        self.globals_ = set()
        self.nonlocals = set()
        self.yield_cb = None
        self.cur_exc = None


class Obligation:
    __slots__ = ("name", "status", "time", "backend", "detail", "pathid")

    def __init__(self, name, status, t, backend, detail="", pathid=0):
        self.name, self.status, self.time, self.backend, self.detail, self.pathid = name, status, t, backend, detail, pathid


def assigned_names(stmts):
    """Names stored by these statements (not inside nested functions/classes/comprehensions)."""
    out = []

    class W(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)) and n.id not in out:
                out.append(n.id)

        def visit_FunctionDef(self, n):
            if n.name not in out:
                out.append(n.name)

        def visit_ClassDef(self, n):
            if n.name not in out:
                out.append(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            for g in n.generators:
                self.visit_nx(g.iter)
        visit_SetComp = visit_GeneratorExp = visit_ListComp

        def visit_DictComp(self, n):
            for g in n.generators:
                self.visit_nx(g.iter)

        def visit_nx(self, n):
            for c in ast.walk(n):
                if isinstance(c, ast.NamedExpr):
                    self.visit(c.target)

        def visit_Import(self, n):
            for a in n.names:
                out.append((a.asname or a.name).split(".")[0])

        def visit_ImportFrom(self, n):
            for a in n.names:
                out.append(a.asname or a.name)

        def visit_ExceptHandler(self, n):
            if n.name and n.name not in out:
                out.append(n.name)
            self.generic_visit(n)
    w = W()
    for s in stmts:
        w.visit(s)
    return out


class _Subst(ast.NodeTransformer):
    def __init__(self, env):
        self.env = env

    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Load) and n.id in self.env:
            return self.env[n.id]
        return n


def path_root(e):
    """the variable a chain of attributes starts from, or None"""
    while isinstance(e, ast.Attribute):
        e = e.value
    return e.id if isinstance(e, ast.Name) else None


def collection_form(target, body):
    """-> (kind, container name, comprehension node) when the loop only fills one container, else None"""
    import copy
    env, conds = {}, []
    tn = set(assigned_names([ast.Assign(targets=[target], value=ast.Constant(0))]))

    def sub(e):
        return _Subst(env).visit(copy.deepcopy(e))
    stmts = list(body)
    while stmts:
        s = stmts.pop(0)
        if isinstance(s, ast.Pass) or (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
            continue
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and stmts:
            nm = s.targets[0].id
            if nm in tn or nm in env:
                return None
            env[nm] = sub(s.value)
            continue
        if isinstance(s, ast.If) and len(s.body) == 1 and isinstance(s.body[0], ast.Continue) and not s.orelse and stmts:
            conds.append(ast.UnaryOp(op=ast.Not(), operand=sub(s.test)))
            continue
        if isinstance(s, ast.If) and not s.orelse and not stmts:
            conds.append(sub(s.test))
            stmts = list(s.body)
            continue
        if stmts:
            return None
        kind = None
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Subscript) and path_root(s.targets[0].value):
            kind, cont = "dict", s.targets[0].value
            parts = [sub(s.targets[0].slice), sub(s.value)]
        elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and path_root(s.value.func.value) \
                and s.value.func.attr in ("append", "add") and len(s.value.args) == 1 and not s.value.keywords:
            kind, cont = ("list" if s.value.func.attr == "append" else "set"), s.value.func.value
            parts = [sub(s.value.args[0])]
        if kind is None or path_root(cont) in tn or path_root(cont) in env:
            return None
        txt = ast.unparse(cont)
        for e in parts + conds:
            if any(isinstance(n, (ast.Name, ast.Attribute)) and ast.unparse(n) == txt for n in ast.walk(e)) or any(isinstance(n, (ast.Yield, ast.YieldFrom, ast.NamedExpr, ast.Await)) for n in ast.walk(e)):
                return None
        gen = [ast.comprehension(target=target, iter=ast.Constant(0), ifs=conds, is_async=0)]
        if kind == "dict":
            c = ast.DictComp(key=parts[0], value=parts[1], generators=gen)
        else:
            c = (ast.ListComp if kind == "list" else ast.SetComp)(elt=parts[0], generators=gen)
        ast.copy_location(c, s)
        ast.fix_missing_locations(c)
        return kind, cont, c
    return None


def become(o, r):
    """Object o continues with the state of r (same identity)."""
    d = dict(r.__dict__)
    d.pop("uid", None)
    uid = o.uid
    o.__class__ = r.__class__
    o.__dict__.clear()
    o.__dict__.update(d)
    o.uid = uid


MUTATORS = {"add", "append", "extend", "update", "discard", "remove", "clear", "pop", "popleft", "appendleft", "insert", "setdefault", "sort", "reverse"}


def mutated_names(stmts):
    """Names of which these statements may change the object in place."""
    out = []
    for s in stmts:
        for n in ast.walk(s):
            b = None
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
                b = n.func.value
            elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
                b = n.value
            if isinstance(b, ast.Name) and b.id not in out:
                out.append(b.id)
    return out


_has_q = {}


def has_quant(t):
    """Whether a formula contains a quantifier or a lambda."""
    r = _has_q.get(t.get_id())
    if r is not None and r[1].eq(t):
        return r[0]
    seen = set()
    stack = [t]
    found = False
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            found = True
            break
        stack.extend(x.children())
    _has_q[t.get_id()] = (found, t)
    return found


def nested_quant(t):
    """Whether a quantifier of the formula has another one in its scope."""
    seen, stack = set(), [t]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            if has_quant(x.body()):
                return True
            continue
        stack.extend(x.children())
    return False


class PathSolver:
    """The path condition: a solver without the quantified assumptions (enough to prune paths), and all of them."""
    def __init__(self, ms):
        self.ms = ms
        self.qf = z3.Solver()
        self.qf.set("timeout", ms)
        self.quant = []
        self.marks = []

    def add(self, *fs):
        for f in fs:
            if isinstance(f, bool):
                f = z3.BoolVal(f)
            if has_quant(f):
                self.quant.append(f)
            else:
                self.qf.add(f)

    def push(self):
        self.qf.push()
        self.marks.append(len(self.quant))

    def pop(self):
        self.qf.pop()
        del self.quant[self.marks.pop():]

    def weak_check(self):
        return self.qf.check()

    def check(self):
        self.last = self.qf
        r = self.qf.check()
        if r == z3.unsat or not self.quant:
            return r
        s = z3.Solver()
        s.set("timeout", self.ms)
        s.add(*self.qf.assertions())
        s.add(*self.quant)
        self.last = s
        return s.check()

    def model(self):
        return self.last.model()


def always_assigned(body):
    """Names assigned by every execution of the statements (temporaries of an iteration)."""
    out = set()
    for st in body:
        if isinstance(st, (ast.Assign, ast.AnnAssign, ast.For, ast.With)):
            out.update(assigned_names([st]) if not isinstance(st, (ast.For, ast.With)) else [])
    return out


def is_generator(node):
    class W(ast.NodeVisitor):
        found = False

        def visit_Yield(self, n):
            self.found = True
        visit_YieldFrom = visit_Yield

        def visit_FunctionDef(self, n):
            pass
        visit_Lambda = visit_ClassDef = visit_FunctionDef
    w = W()
    for s in node.body:
        w.visit(s)
    return w.found


class Recorder:
    """Yield callback that records what a pure iterator yields."""
    def __init__(self):
        self.items = []

    def __call__(self, v):
        self.items.append(("one", v))
        return None


class Stream(Model):
    """What a pure iterator yields when it is not one item per element: ("one", v) | ("loop", seq, paths, at)."""
    def __init__(self, items):
        super().__init__()
        self.items = items


def subst_value(E, v, i, j):
    """v with the index term i replaced by j."""
    if v is None or isinstance(v, (bool, int, str, Fraction)):
        return v
    if isinstance(v, Sym):
        return Sym(z3.substitute(v.t, (i, j)))
    if isinstance(v, ValV):
        return ValV(z3.substitute(v.t, (i, j)))
    if isinstance(v, SlotV):
        return SlotV(z3.substitute(v.t, (i, j)))
    if isinstance(v, tuple):
        return tuple(subst_value(E, x, i, j) for x in v)
    if isinstance(v, ObjV) and "cid" in v.meta:
        from . import lib
        return lib.chunk_obj(E, z3.substitute(v.meta["cid"], (i, j)))
    raise Unsupported("value of an iterator")


def struct_eq(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, (Sym, ValV, SlotV)):
        return a.t.eq(b.t)
    if isinstance(a, tuple):
        return len(a) == len(b) and all(struct_eq(x, y) for x, y in zip(a, b))
    if isinstance(a, ObjV):
        return a is b
    return a == b


class Role:
    """A local variable that carries state through a loop: value at iteration i, and its check."""
    def __init__(self, hint, inject, check, optional=False, strong=False):
        self.hint, self.inject, self.check, self.optional, self.strong = hint, inject, check, optional, strong


class LoopSpec:
    """Loop invariant, given functionally: the state after i iterations."""
    name = "loop"
    roles = ()
    modifies = ()          # (uid, key) pairs of heap locations the loop may change
    join = None            # join the ways through each statement of the body; the objects whose state may differ

    def base(self, E):
        pass

    def unfold(self, E, i):
        pass

    def heap_inject(self, E, i):
        pass

    def heap_check(self, E, i):
        return []

    def assume_iter(self, E, i):
        pass


class Fold:
    """Uninterpreted state functions of the iteration index with step axioms instantiated on demand.

    expand: at(0) and at(i+1) for an unfolded i are given as their definitions (same terms up to the axioms)."""
    def __init__(self, E, name, sorts, init, step, params=(), expand=False):
        self.E = E
        self.name = name
        self.init = init
        self.step = step
        self.fns = [z3.Function("%s_%d" % (name, k), *([p.sort() for p in params] + [z3.IntSort(), s])) for k, s in enumerate(sorts)]
        self.params = list(params)
        self.expand = expand
        self.unfolded = {}

    def raw(self, i):
        return [f(*self.params, i) for f in self.fns]

    def at(self, i):
        if isinstance(i, int):
            i = z3.IntVal(i)
        if self.expand:
            if z3.is_int_value(i) and i.as_long() == 0:
                return list(self.init)
            r = self.unfolded.get(z3.simplify(i).get_id())
            if r is not None:
                return list(r[1])
        return self.raw(i)

    def base(self):
        for a, b in zip(self.raw(z3.IntVal(0)), self.init):
            self.E.assume(a == b)

    def unfold(self, i):
        cur = self.at(i)
        nxt = self.raw(i + 1)
        new = self.step(cur, i)
        for a, b in zip(nxt, new):
            self.E.assume(a == b)
        k = z3.simplify(i + 1)
        self.unfolded[k.get_id()] = (k, new)


_STDSRC = {}


def stdlib_source(k, name):
    import os
    import sysconfig
    mod = "_collections_abc" if k.__module__ in ("collections.abc", "_collections_abc") else k.__module__
    if mod not in _STDSRC:
        with open(os.path.join(sysconfig.get_paths()["stdlib"], *mod.split(".")) + ".py") as f:
            _STDSRC[mod] = ast.parse(f.read())
    import copy
    c = [x for x in _STDSRC[mod].body if isinstance(x, ast.ClassDef) and x.name == k.__name__][0]
    return copy.deepcopy([x for x in c.body if isinstance(x, ast.FunctionDef) and x.name == name][0])


class Engine:
    def __init__(self, repo="/repo", package="pyactr", timeout_ms=20000):
        self.repo = repo
        self.package = package
        self.modules = {}
        self.contracts = {}
        self.loops = {}
        self.timeout_ms = timeout_ms
        self.keep_fail = set()
        self.role_drop = set()
        self.weak_roles = set()
        self.whiles = None
        self.no_join = set()
        self.joining = False
        self.n_choose = 0
        self.join_cache = {}
        self.deadline = time.time() + 1e9
        self.keep = []
        self.feas_ms = 2000
        self.inline_log = set()
        self.contract_log = set()
        self.ext_log = set()
        self.loop_log = set()
        self.solver_time = 0.0
        self.obligations = []
        self.undecided = []
        self.yield_handlers = []
        self.undo = {}
        self.global_birth = 0
        self._path_reset()
        self.max_paths = 4000
        self.max_seconds = 600
        self.role_choice = {}
        self.collect_cache = {}
        self.role_options = {}
        self.files_read = set()

    # ------------------------------------------------------------------ path machinery
    def _path_reset(self, prefix=()):
        self._restore_globals()
        self.chunk_objs = []
        self.draws = 0
        self.prefix = list(prefix)
        self.pos = 0
        self.decisions = []
        self.pc = []
        self.solver = PathSolver(self.feas_ms)
        self.fresh_n = 0
        self.facts = {}
        self.spec_depth = 0
        self.write_stack = []
        self.joining = False
        self.n_join = 0
        self.n_choose = 0
        self.warn_error = 0
        self.call_depth = 0
        self.alive_hooks = []
        self.path_notes = []
        self.cache = {}
        self.spec_alts = None

    def fresh(self, name, sort):
        self.fresh_n += 1
        return z3.Const("%s!%d" % (name, self.fresh_n), sort)

    def next_q(self):
        self.fresh_n += 1
        return self.fresh_n

    def fresh_fn(self, name, *sorts):
        self.fresh_n += 1
        return z3.Function("%s!%d" % (name, self.fresh_n), *sorts)

    def assume(self, f):
        if isinstance(f, bool):
            if not f:
                raise PathEnd()
            return
        self.pc.append(f)
        self.solver.add(f)

    def fact(self, f):
        """Assume something that holds by definition of the model (never part of a derived condition)."""
        if isinstance(f, bool):
            return self.assume(f)
        self.facts[f.get_id()] = f
        self.assume(f)

    def _check(self, f, weak=False):
        t0 = time.time()
        self.solver.push()
        self.solver.add(f)
        r = self.solver.weak_check() if weak else self.solver.check()
        self.solver.pop()
        self.solver_time += time.time() - t0
        return r

    def feasible(self, f):
        return self._check(f, weak=not has_quant(f)) != z3.unsat

    def entails(self, f):
        if z3.is_true(z3.simplify(f)):
            return True
        return self._check(z3.Not(f)) == z3.unsat

    def branch(self, f):
        """Take a side on a condition; the other side is explored in another run."""
        if isinstance(f, bool):
            return f
        f = z3.simplify(f)
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.decisions.append(d)
            self.assume(f if d else z3.Not(f))
            return d
        ft = self.feasible(f)
        ff = self.feasible(z3.Not(f)) if ft else True
        if ft and ff:
            if self.spec_depth:
                raise NeedFork()
            self.worklist.append(self.decisions + [False])
            d = True
        else:
            d = ft
            if self.spec_depth:
                # inside speculation decisions are not recorded
                return d
        self.decisions.append(d)
        self.pos += 1
        self.prefix.append(d)
        self.assume(f if d else z3.Not(f))
        return d

    def choose(self, k, what=""):
        """Nondeterministic choice among k alternatives (no condition)."""
        if self.spec_depth:
            raise NeedFork()
        self.n_choose += 1
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.decisions.append(d)
            return d
        for a in range(k - 1, 0, -1):
            self.worklist.append(self.decisions + [a])
        self.decisions.append(0)
        self.prefix.append(0)
        self.pos += 1
        return 0

    def explore(self, thunk, label):
        """Run thunk over all feasible paths. Returns number of completed paths."""
        self.worklist = [[]]
        self.cur_label = label
        paths = 0
        done = 0
        t0 = time.time()
        self.prove_cache = {}
        self.join_cache = {}
        self.deadline = t0 + self.max_seconds
        restarts = 0
        while self.worklist:
            prefix = self.worklist.pop()
            self._path_reset(prefix)
            paths += 1
            if paths > self.max_paths or time.time() - t0 > self.max_seconds:
                self.undecided.append((label, "path or time budget exceeded (%d paths, %.0f s)" % (paths, time.time() - t0)))
                break
            try:
                thunk()
                done += 1
            except PathEnd:
                done += 1
            except RestartX:
                restarts += 1
                if restarts > 40:
                    self.undecided.append((label, "internal: too many restarts"))
                    break
                self.worklist = [[]]
                self.obligations, self.undecided = [], []
                self.prove_cache = {}
                self.join_cache = {}
                done = 0
            except Unsupported as e:
                self.undecided.append((label, "outside the verified subset: %s" % e))
            except (ReturnX, BreakX, ContinueX) as e:
                self.undecided.append((label, "internal: stray %s" % type(e).__name__))
            except PyExc as e:
                self.fail("%s/no unexpected exception" % label, "raises %s" % e)
            except NeedFork:
                self.undecided.append((label, "internal: fork inside speculation"))
            except RecursionError:
                import os, traceback
                if os.environ.get("PYVC_TB"): print(traceback.format_exc()[-3000:])
                self.undecided.append((label, "recursion too deep"))
        return done

    # ------------------------------------------------------------------ obligations
    def fail(self, name, detail):
        # only if the path is feasible
        r = self._check(z3.BoolVal(True))
        if r == z3.unsat:
            return
        self.obligations.append(Obligation(name, "failed" if r == z3.sat else "unknown", 0.0, "z3", detail + self._model_txt(r), len(self.obligations)))

    def _model_txt(self, r):
        if r != z3.sat:
            return " [path feasibility: %s]" % r
        try:
            self.solver.check()
            m = self.solver.model()
            return " [path model: %s]" % str(m)[:1500].replace("\n", " ")
        except Exception:
            return ""

    def decided(self, f):
        """f with the atoms decided by the path condition replaced by their truth value."""
        subs = []
        seen = set()

        def lit(c, v):
            if z3.is_not(c):
                return lit(c.arg(0), not v)
            if (z3.is_and(c) and v) or (z3.is_or(c) and not v):
                for x in c.children():
                    lit(x, v)
                return
            if z3.is_quantifier(c) or z3.is_true(c) or z3.is_false(c) or c.get_id() in seen:
                return
            seen.add(c.get_id())
            subs.append((c, z3.BoolVal(v)))
        for c in self.pc:
            if c.get_id() not in self.facts:
                lit(z3.simplify(c), True)
        return z3.simplify(z3.substitute(f, *subs)) if subs else f

    def prove(self, name, f, detail=""):
        if self.spec_depth:
            raise NeedFork()
        full = "%s" % name
        t0 = time.time()
        if isinstance(f, bool):
            f = z3.BoolVal(f)
        f = z3.simplify(f, som=True)
        key = (full, f.get_id(), tuple(c.get_id() for c in self.pc))
        if key in self.prove_cache:
            return self.prove_cache[key][0]
        f0 = f
        if not z3.is_true(f):
            f = self.decided(f)
        if not z3.is_true(f):
            f = self.resolve_ites(f)
        goals = []

        def split(g, pos):
            if z3.is_not(g):
                split(g.arg(0), not pos)
            elif (z3.is_and(g) and pos) or (z3.is_or(g) and not pos):
                for x in g.children():
                    split(x, pos)
            elif pos and z3.is_true(g) or not pos and z3.is_false(g):
                pass
            else:
                goals.append(g if pos else z3.Not(g))
        split(f, True)
        status, backend, txt = "proved", "z3-simplify" if not goals else "z3", ""
        qf = [c for c in self.pc if not has_quant(c)] if goals else []
        for g in goals:
            st, be, tx = self.decide(g, qf)
            if be == "cvc5":
                backend = "cvc5"
            if st != "proved":
                status, txt = st, tx + " goal: " + str(g)[:600]
                break
        dt = time.time() - t0
        self.solver_time += dt
        if status != "proved":
            txt = (detail + " " + txt).strip()
            if os.environ.get("PYVC_PC"):
                txt = "path: " + " & ".join(str(c) for c in self.pc[-int(os.environ["PYVC_PC"]):]) + " " + txt[-700:]
        self.obligations.append(Obligation(full, status, dt, backend, txt, len(self.obligations)))
        self.prove_cache[key] = (status == "proved", f0, list(self.pc))      # keeps the terms alive: ids stay unique
        return status == "proved"

    def resolve_ites(self, f):
        """Replace if-then-else conditions that the (quantifier-free) path condition decides."""
        def conds(t):
            seen, out, stack = set(), [], [t]
            while stack:
                x = stack.pop()
                if x.get_id() in seen:
                    continue
                seen.add(x.get_id())
                if z3.is_quantifier(x):
                    continue
                if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE and not z3.is_bool(x):
                    out.append(x.arg(0))
                stack.extend(x.children())
            return out
        asked = set()
        for _ in range(12):
            todo = [c for c in conds(f) if c.get_id() not in asked and not has_quant(c)]
            if not todo or len(asked) > 12:
                break
            # smallest first: inner conditions
            c = min(todo, key=lambda x: len(x.sexpr()))
            asked.add(c.get_id())
            self.keep.append(c)
            if self._check(z3.Not(c), weak=True) == z3.unsat:
                f = z3.simplify(z3.substitute(f, (c, z3.BoolVal(True))))
            elif self._check(c, weak=True) == z3.unsat:
                f = z3.simplify(z3.substitute(f, (c, z3.BoolVal(False))))
        return f

    def decide(self, f, qf):
        """-> (status, back end, text) of one goal under the path condition."""
        fresh_n = self.fresh_n
        lems = self.sum_lemmas(f)
        self.fresh_n = fresh_n
        if len(qf) < len(self.pc):
            # most obligations do not need the quantified assumptions
            s = z3.Solver()
            s.set("timeout", min(2500, self.timeout_ms))
            s.add(*qf)
            s.add(*lems)
            s.add(z3.Not(f))
            if s.check() == z3.unsat:
                return "proved", "z3", ""
            simple = [c for c in self.pc if not nested_quant(c)]
            if len(qf) < len(simple) < len(self.pc):
                s = z3.Solver()
                s.set("timeout", min(5000, self.timeout_ms))
                s.add(*simple)
                s.add(*lems)
                s.add(z3.Not(f))
                if s.check() == z3.unsat:
                    return "proved", "z3", ""
        s = z3.Solver()
        s.set("timeout", self.timeout_ms)
        s.add(*self.pc)
        s.add(*lems)
        s.add(z3.Not(f))
        r = s.check()
        if r == z3.unknown:
            # second attempt: drop to a plain tactic-free solver with another seed, then cvc5
            s2 = z3.SimpleSolver()
            s2.set("timeout", self.timeout_ms)
            s2.set("random_seed", 7)
            s2.add(*s.assertions())
            r = s2.check()
            if r != z3.unknown:
                s = s2
        if r == z3.unknown:
            rr = cvc5_check(s, self.timeout_ms)
            if rr == "unsat":
                return "proved", "cvc5", ""
            return "unknown", "z3", "z3: unknown (%s); cvc5: %s" % (s.reason_unknown(), rr)
        if r == z3.unsat:
            return "proved", "z3", ""
        try:
            txt = "counterexample: " + str(s.model())[:2500].replace("\n", " ")
        except Exception as e:
            txt = "counterexample unavailable: %s" % e
        return "failed", "z3", txt

    def unchanged(self, a, b):
        if a is b:
            return True
        if a is POISON or b is POISON or a is UNBOUND or b is UNBOUND:
            return False
        try:
            if struct_eq(a, b):
                return True
            if isinstance(a, (int, str, bool, float, Fraction, type(None))) and isinstance(b, (int, str, bool, float, Fraction, type(None))):
                return type(a) == type(b) and a == b
            if isinstance(a, Sym) and isinstance(b, Sym) and a.t.sort() == b.t.sort():
                return self.entails(a.t == b.t)
        except (Unsupported, z3.Z3Exception):
            pass
        return False

    def kept_names(self, node, body, asg, fr, taken=()):
        """Locals a loop body may assign but (optimistically) leaves unchanged on every completed iteration."""
        tmp = always_assigned(body)
        return {nm: fr.locals[nm] for nm in asg if nm not in taken and nm not in tmp and (id(node), nm) not in self.keep_fail
                and fr.locals.get(nm, UNBOUND) is not UNBOUND and fr.locals.get(nm) is not POISON}

    def check_kept(self, node, kept, fr):
        bad = [nm for nm, v in kept.items() if not self.unchanged(v, fr.locals.get(nm, UNBOUND))]
        if bad:
            for nm in bad:
                self.keep_fail.add((id(node), nm))
            raise RestartX()

    def sum_lemmas(self, goal):
        """Congruence for functionals of lambda terms: F(lam1,..)==F(lam2,..) when pointwise equal."""
        apps = {}

        def walk(t, seen):
            if t.get_id() in seen:
                return
            seen.add(t.get_id())
            if z3.is_app(t):
                if t.num_args() and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and any(z3.is_array(t.arg(k)) for k in range(t.num_args())):
                    apps.setdefault(t.decl().name(), {})[t.get_id()] = t
                for k in range(t.num_args()):
                    walk(t.arg(k), seen)
            elif z3.is_quantifier(t) and not t.is_lambda():
                pass
        seen = set()
        walk(goal, seen)
        gl = {k: dict(v) for k, v in apps.items()}
        for p in self.pc:
            walk(p, seen)
        out = []
        for nm, d in gl.items():
            alls = list(apps[nm].values())
            for a in d.values():
                for b in alls:
                    if a.get_id() == b.get_id():
                        continue
                    ok = True
                    eqs = []
                    for k in range(a.num_args()):
                        x, y = a.arg(k), b.arg(k)
                        if x.eq(y):
                            continue
                        if z3.is_array(x) and (has_quant(x) or has_quant(y)):
                            idx = [self.fresh("ext", x.sort().domain())]
                            goalk = z3.simplify(z3.Select(x, *idx) == z3.Select(y, *idx))
                            if nm == "SUMF":
                                goalk = z3.Implies(z3.And(idx[0] >= 0, idx[0] < a.arg(1)), goalk)
                            eqs.append(goalk)
                        else:
                            eqs.append(x == y)
                    if eqs:
                        ss = z3.Solver()
                        ss.set("timeout", 4000)
                        ss.add(*self.pc)
                        ss.add(z3.Not(z3.And(*eqs)))
                        if ss.check() == z3.unsat:
                            out.append(a == b)
        return out

    def cover(self, name):
        """Vacuity guard: the current path condition must be satisfiable (not refuted)."""
        t0 = time.time()
        r = self.solver.check()
        self.obligations.append(Obligation(name, "failed" if r == z3.unsat else "proved", time.time() - t0, "z3", "precondition is contradictory" if r == z3.unsat else "reachable(%s)" % r))

    # ------------------------------------------------------------------ module loading
    def load_all(self):
        pk = os.path.join(self.repo, self.package)
        for fn in sorted(os.listdir(pk)):
            if fn.endswith(".py"):
                name = self.package if fn == "__init__.py" else self.package + "." + fn[:-3]
                self.load_module(name)
        self.undo = {}
        self.class_undo = []
        self.global_birth = next_uid()

    def load_module(self, name):
        if name in self.modules:
            return self.modules[name]
        rel = name.replace(".", "/")
        path = os.path.join(self.repo, rel + ".py")
        if not os.path.exists(path):
            path = os.path.join(self.repo, rel, "__init__.py")
        if not os.path.exists(path):
            raise Unsupported("module %s not found" % name)
        m = ModuleV(name)
        self.modules[name] = m
        m.src = open(path).read()
        m.path = path
        self.files_read.add(path)
        m.tree = ast.parse(m.src)
        m.ns["__name__"] = name
        fr = Frame(m)
        fr.locals = m.ns
        m.load_errors = []
        saved = self.__dict__.get("worklist")
        self.worklist = []
        for st in m.tree.body:
            try:
                self.exec_stmt(st, fr)
            except (Unsupported, PyExc, PathEnd, NeedFork) as e:
                m.load_errors.append((getattr(st, "lineno", 0), str(e)))
        if saved is not None:
            self.worklist = saved
        return m

    def lookup_qual(self, qual):
        """'pyactr.mod.Class.meth' -> FuncV (methods unbound)."""
        parts = qual.split(".")
        mod = self.load_module(".".join(parts[:2]))
        v = mod.ns.get(parts[2])
        for p in parts[3:]:
            if not isinstance(v, ClassV):
                return None
            v2 = v.ns.get(p)
            if v2 is None:
                v2 = self.class_lookup(v, p)
            v = v2
        return v

    # ------------------------------------------------------------------ statements
    def exec_block(self, stmts, fr):
        for s in stmts:
            self.exec_stmt(s, fr)

    def exec_stmt(self, s, fr):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported("statement %s at line %s" % (type(s).__name__, getattr(s, "lineno", "?")))
        return m(s, fr)

    def s_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, fr)

    def s_Pass(self, s, fr):
        pass

    def s_Import(self, s, fr):
        for a in s.names:
            nm = a.name
            if nm.split(".")[0] == self.package:
                mod = self.load_module(nm)
                if a.asname:
                    self.store_name(a.asname, mod, fr)
                else:
                    self.store_name(self.package, self.load_module(self.package), fr)
            else:
                if a.asname:
                    self.store_name(a.asname, Ext(nm), fr)
                else:
                    self.store_name(nm.split(".")[0], Ext(nm.split(".")[0]), fr)

    def s_ImportFrom(self, s, fr):
        base = s.module or ""
        if s.level:
            base = self.package + ("." + base if base else "")
        for a in s.names:
            if a.name == "*":
                if base.split(".")[0] == self.package:
                    for k, v in self.load_module(base).ns.items():
                        if not k.startswith("_"):
                            self.store_name(k, v, fr)
                    continue
                raise Unsupported("star import")
            if base.split(".")[0] == self.package:
                full = base + "." + a.name
                p = os.path.join(self.repo, full.replace(".", "/") + ".py")
                if os.path.exists(p):
                    v = self.load_module(full)
                else:
                    mod = self.load_module(base)
                    if a.name not in mod.ns:
                        raise bexc("ImportError", a.name)
                    v = mod.ns[a.name]
                self.store_name(a.asname or a.name, v, fr)
            else:
                if base == "tkinter" or base.startswith("tkinter"):
                    raise bexc("ImportError", base)
                self.store_name(a.asname or a.name, Ext(base + "." + a.name), fr)

    def s_FunctionDef(self, s, fr):
        f = self.make_func(s, fr)
        for d in reversed(s.decorator_list):
            f = self.apply_decorator(d, f, fr)
        self.store_name(s.name, f, fr)

    def make_func(self, s, fr):
        qual = (fr.cls.qual if fr.cls is not None and getattr(fr, "is_class_body", False) else (fr.func.qual + ".<locals>" if fr.func else fr.module.name)) + "." + getattr(s, "name", "<lambda>")
        defaults = [self.ev(d, fr) for d in s.args.defaults]
        kwdefaults = {a.arg: self.ev(d, fr) for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults) if d is not None}
        closure = fr if (fr.func is not None and not getattr(fr, "is_class_body", False)) else None
        return FuncV(s, fr.module, qual, closure, fr.cls, defaults=defaults, kwdefaults=kwdefaults)

    def apply_decorator(self, d, f, fr):
        if isinstance(d, ast.Name) and d.id == "property":
            return PropV(f)
        if isinstance(d, ast.Name) and d.id == "staticmethod":
            f.kind = "static"
            return f
        if isinstance(d, ast.Name) and d.id == "classmethod":
            f.kind = "classm"
            return f
        if isinstance(d, ast.Attribute) and d.attr == "setter":
            p = self.ev(d.value, fr)
            return PropV(p.getter, f)
        if isinstance(d, ast.Attribute) and d.attr in ("wraps",):
            return f
        if isinstance(d, ast.Call) or isinstance(d, ast.Name) or isinstance(d, ast.Attribute):
            dv = self.ev(d, fr)
            return self.call(dv, [f], {})
        raise Unsupported("decorator")

    def s_ClassDef(self, s, fr):
        bases = [self.ev(b, fr) for b in s.bases]
        qual = (fr.cls.qual if getattr(fr, "is_class_body", False) else fr.module.name) + "." + s.name
        c = ClassV(s.name, bases, fr.module, qual)
        c.node = s
        cf = Frame(fr.module, fr.func, fr.closure, c)
        cf.is_class_body = True
        cf.parent_class_frame = fr
        cf.locals = c.ns
        for st in s.body:
            self.exec_stmt(st, cf)
        self.store_name(s.name, c, fr)

    def s_Return(self, s, fr):
        raise ReturnX(self.ev(s.value, fr) if s.value is not None else None)

    def s_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr), fr)

    def s_AugAssign(self, s, fr):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.load_name(t.id, fr)
            self.store_name(t.id, self.inplace(s.op, old, self.ev(s.value, fr)), fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            nm = self.mangle(t.attr, fr)
            old = self.getattr(o, nm)
            self.setattr(o, nm, self.inplace(s.op, old, self.ev(s.value, fr)))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            k = self.ev_slice(t.slice, fr)
            old = self.getitem(o, k)
            self.setitem(o, k, self.inplace(s.op, old, self.ev(s.value, fr)))
        else:
            raise Unsupported("augassign target")

    def inplace(self, op, old, val):
        if isinstance(op, ast.Add) and isinstance(old, ListV):
            self.method(old, "extend", [val], {})
            return old
        if isinstance(op, ast.Add) and isinstance(old, SeqV) and old.pyclass is list:
            from . import lib
            r = lib.seq_concat(self, old, val)
            self.write(old, "items")
            for a in ("contains", "vs_arr", "cid", "base", "ix", "count", "sorted_seq", "fromkeys", "as_dict"):
                if hasattr(r, a):
                    setattr(old, a, getattr(r, a))
                elif hasattr(old, a):
                    delattr(old, a)
            old.n, old.elem, old.tag, old.guard = r.n, r.elem, r.tag, r.guard
            return old
        if (isinstance(old, SetV) or type(old).__name__ == 'ValSet') and isinstance(op, ast.BitOr):
            self.method(old, "update", [val], {})
            return old
        if isinstance(old, SetV) and isinstance(op, ast.Sub):
            self.method(old, "difference_update", [val], {})
            return old
        return self.binop(op, old, val)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), self.mangle(t.attr, fr), v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            self.setitem(o, self.ev_slice(t.slice, fr), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [k for k, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            items = self.to_list(v, n=None if star else len(t.elts))
            if star:
                k = star[0]
                after = len(t.elts) - k - 1
                if len(items) < len(t.elts) - 1:
                    raise bexc("ValueError", "not enough values to unpack")
                for e, x in zip(t.elts[:k], items[:k]):
                    self.assign(e, x, fr)
                self.assign(t.elts[k].value, ListV(items[k:len(items) - after]), fr)
                for e, x in zip(t.elts[k + 1:], items[len(items) - after:]):
                    self.assign(e, x, fr)
                return
            if len(items) != len(t.elts):
                raise bexc("ValueError", "unpacking")
            for e, x in zip(t.elts, items):
                self.assign(e, x, fr)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fr)
        else:
            raise Unsupported("assignment target %s" % type(t).__name__)

    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.load_name(t.id, fr)
                fr.locals.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, fr)
                self.delitem(o, self.ev_slice(t.slice, fr))
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, fr)
                nm = self.mangle(t.attr, fr)
                if isinstance(o, ObjV):
                    self.write(o, nm)
                    if nm in o.attrs:
                        del o.attrs[nm]
                        continue
                    raise bexc("AttributeError", nm)
                raise Unsupported("del attribute")

    def s_Global(self, s, fr):
        fr.globals_.update(s.names)

    def s_Nonlocal(self, s, fr):
        fr.nonlocals.update(s.names)

    def s_If(self, s, fr):
        if self.truth(self.ev(s.test, fr)):
            self.exec_block(s.body, fr)
        else:
            self.exec_block(s.orelse, fr)

    def s_Assert(self, s, fr):
        if not self.truth(self.ev(s.test, fr)):
            raise bexc("AssertionError")

    def s_Break(self, s, fr):
        raise BreakX()

    def s_Continue(self, s, fr):
        raise ContinueX()

    def s_Raise(self, s, fr):
        if s.exc is None:
            f = fr
            while f is not None:
                if f.cur_exc is not None:
                    raise f.cur_exc
                f = f.closure
            raise bexc("RuntimeError", "no active exception")
        v = self.ev(s.exc, fr)
        if s.cause is not None:
            self.ev(s.cause, fr)
        raise self.to_exc(v)

    def to_exc(self, v):
        if isinstance(v, PyExc):
            return v
        if isinstance(v, Ext):
            return PyExc(v, ())
        if isinstance(v, ClassV):
            return PyExc(v, ())
        if isinstance(v, ObjV) and "__exc__" in v.meta:
            return v.meta["__exc__"]
        raise Unsupported("raise of %r" % (v,))

    def exc_match(self, exc, target):
        if isinstance(target, tuple):
            return any(self.exc_match(exc, t) for t in target)
        return self.issubclass(exc.cls, target)

    def issubclass(self, c, target):
        if isinstance(target, tuple):
            return any(self.issubclass(c, t) for t in target)
        if isinstance(c, ClassV):
            for b in c.mro():
                if b is target:
                    return True
                if isinstance(b, Ext) and isinstance(target, Ext) and self.issubclass(b, target):
                    return True
            return False
        if isinstance(c, Ext):
            if isinstance(target, ClassV):
                return False
            if c == target:
                return True
            a, b = real_class(c), real_class(target)
            if a is None or b is None:
                raise Unsupported("unknown class %r / %r" % (c, target))
            return issubclass(a, b)
        raise Unsupported("issubclass of %r" % (c,))

    def s_Try(self, s, fr):
        def run_main():
            try:
                self.exec_block(s.body, fr)
            except PyExc as e:
                for h in s.handlers:
                    if h.type is None or self.exc_match(e, self.ev(h.type, fr)):
                        saved = fr.cur_exc
                        fr.cur_exc = e
                        if h.name:
                            fr.locals[h.name] = e
                        try:
                            self.exec_block(h.body, fr)
                        finally:
                            fr.cur_exc = saved
                            if h.name:
                                fr.locals.pop(h.name, None)
                        break
                else:
                    raise
            else:
                self.exec_block(s.orelse, fr)
        if not s.finalbody:
            run_main()
            return
        try:
            run_main()
        except (PathEnd, Unsupported, NeedFork):
            raise
        except (PyExc, ReturnX, BreakX, ContinueX):
            self.exec_block(s.finalbody, fr)
            raise
        self.exec_block(s.finalbody, fr)

    def s_With(self, s, fr):
        names = []
        for it in s.items:
            v = self.ev(it.context_expr, fr)
            names.append(v)
            if isinstance(v, Ext) or (isinstance(v, Model) and hasattr(v, "cm_enter")):
                pass
            elif isinstance(v, ObjV):
                ent = self.call(self.getattr(v, "__enter__"), [], {})
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, ent, fr)
                continue
            else:
                raise Unsupported("with %r" % (v,))
            if isinstance(v, Model):
                ent = v.cm_enter(self)
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, ent, fr)
        if any(isinstance(v, ObjV) for v in names):
            raise Unsupported("with on repository object")
        try:
            self.exec_block(s.body, fr)
        finally:
            for v in reversed(names):
                if isinstance(v, Model):
                    v.cm_exit(self)

    # ------------------------------------------------------------------ loops
    def while_with_spec(self, s, fr, spec):
        """Cut at the loop head: an arbitrary state satisfying the invariant (spec.head), one iteration, the invariant again (spec.end)."""
        self.loop_log.add(spec.name)
        for nm, f in spec.entry(self):
            self.prove("%s/%s:entry:%s" % (self.cur_label, spec.name, nm), f)
        flags = {}
        for nm in assigned_names(s.body):
            old = fr.locals.get(nm, POISON)
            if (isinstance(old, bool) or old is None) and (id(s), nm) not in self.role_drop:
                flags[nm] = old         # a flag: unchanged while the loop goes on (checked below)
            else:
                fr.locals[nm] = spec.local(self, nm, old)
        spec.head(self)
        if not self.truth(self.ev(s.test, fr)):
            self.exec_block(s.orelse, fr)
            return
        try:
            self.exec_block(s.body, fr)
        except BreakX:
            return
        except ContinueX:
            pass
        if flags:
            if not self.truth(self.ev(s.test, fr)):
                self.exec_block(s.orelse, fr)
                return
            lost = [(id(s), nm) for nm, v in flags.items() if fr.locals.get(nm, POISON) is not v]
            if lost:
                self.role_drop.update(lost)
                raise RestartX()
        spec.end(self)
        raise PathEnd()

    def s_While(self, s, fr):
        spec = self.whiles(self, fr, s) if self.whiles is not None else None
        if spec is not None:
            return self.while_with_spec(s, fr, spec)
        n = 0
        it = 0
        while True:
            # a while loop whose guard stays symbolic has no summary here
            c = self.ev(s.test, fr)
            if isinstance(c, Sym) and not (z3.is_true(z3.simplify(c.t)) or z3.is_false(z3.simplify(c.t))):
                it += 1
                if it > 40:
                    raise Unsupported("while loop without invariant at line %d" % s.lineno)
            if not self.truth(c):
                self.exec_block(s.orelse, fr)
                return
            n += 1
            if n > 500:
                raise Unsupported("while loop too long at line %d" % s.lineno)
            try:
                self.exec_block(s.body, fr)
            except BreakX:
                return
            except ContinueX:
                pass

    def s_For(self, s, fr):
        it = self.ev(s.iter, fr)
        if self.whiles is not None and isinstance(it, Model) and hasattr(it, "m___next__"):
            spec = self.whiles(self, fr, s)
            if spec is not None:
                return self.for_with_while_spec(it, s, fr, spec)
        self.for_over(it, s.target, s.body, s.orelse, fr, s)

    def for_with_while_spec(self, it, s, fr, spec):
        """for x in it == while True: x = next(it), until it stops"""
        self.loop_log.add(spec.name)
        for nm, f in spec.entry(self):
            self.prove("%s/%s:entry:%s" % (self.cur_label, spec.name, nm), f)
        for nm in assigned_names([s]):
            fr.locals[nm] = spec.local(self, nm, fr.locals.get(nm, POISON))
        spec.head(self)
        try:
            v = it.m___next__(self)
        except PyExc as e:
            if not self.exc_match(e, Ext("builtins.StopIteration")):
                raise
            self.exec_block(s.orelse, fr)
            return
        self.assign(s.target, v, fr)
        try:
            self.exec_block(s.body, fr)
        except BreakX:
            return
        except ContinueX:
            pass
        spec.end(self)
        raise PathEnd()

    def for_over(self, it, target, body, orelse, fr, node):
        seq = self.iterate(it)
        if isinstance(seq, list):
            for x in seq:
                self.assign(target, x, fr)
                try:
                    self.exec_block(body, fr)
                except BreakX:
                    return
                except ContinueX:
                    pass
            self.exec_block(orelse, fr)
            return
        if isinstance(seq, GenV):
            class _Stop(Exception):
                pass

            class _Pass(Exception):
                def __init__(self, e):
                    self.e = e

            def cb(v):
                self.assign(target, v, fr)
                try:
                    self.exec_block(body, fr)
                except BreakX:
                    raise _Stop()
                except ContinueX:
                    pass
                except ReturnX as e:
                    raise _Pass(e)
                except PyExc as e:
                    raise _Pass(e)
                return None
            try:
                seq.run(cb)
            except _Stop:
                return
            except _Pass as p:
                raise p.e
            self.exec_block(orelse, fr)
            return
        # symbolic length
        if isinstance(fr.yield_cb, Recorder) and not getattr(fr, "comp", False):
            return self.loop_record(seq, target, body, orelse, fr, node)
        spec = self.find_loop(seq, fr, node)
        if spec is not None:
            return self.loop_with_spec(seq, spec, target, body, orelse, fr, node)
        c = self.as_collection(target, body, fr, node)
        if c is not None:
            return self.loop_collects(seq, c, target, body, orelse, fr)
        return self.loop_stateless(seq, target, body, orelse, fr, node)

    def find_loop(self, seq, fr, node):
        cands = self.loops.get(seq.tag)
        if not cands and isinstance(seq.tag, tuple):
            cands = self.loops.get(seq.tag[0])
        if not cands:
            return None
        q = fr.func.qual if fr.func else ""
        for f in cands if isinstance(cands, list) else [cands]:
            r = f(self, fr, seq)
            if r is not None:
                return r
        return None

    def loop_with_spec(self, seq, spec, target, body, orelse, fr, node):
        label = "%s/%s" % (self.cur_label, spec.name)
        self.loop_log.add(spec.name)
        birth = next_uid()
        spec.base(self)
        n = seq.n
        asg = [x for x in assigned_names(body) if x not in assigned_names([ast.Assign(targets=[target], value=ast.Constant(0))])]
        tgt_names = assigned_names([ast.Assign(targets=[target], value=ast.Constant(0))])
        roles = [r for r in (spec.roles(self) if callable(spec.roles) else spec.roles) if (id(node), r.hint) not in self.role_drop]
        given = {}
        for x in mutated_names(body):           # containers of the enclosing function that the body fills
            if x not in fr.locals and x not in fr.localnames:
                o = self.enclosing(x, fr)
                if isinstance(o, (ListV, SetV, DictV, Model)):
                    fr.locals[x] = o
        mut = [x for x in mutated_names(body) if x not in asg and x not in tgt_names and isinstance(fr.locals.get(x, None), (ListV, SetV, DictV, Model))]
        mapping = self.map_roles(roles, asg + mut, fr, spec, node)
        mapping.sort(key=lambda x: next(k for k, r in enumerate(roles) if r is x[0]))
        mut = {nm: fr.locals[nm] for _, nm in mapping if nm in mut}
        own = {(o.uid, "*") for o in mut.values()}
        zero = z3.IntVal(0)
        for r, nm in mapping:
            f = r.check(self, zero, fr.locals.get(nm, UNBOUND))
            self.prove("%s:entry:%s" % (label, r.hint), f)
        for nm, f in spec.heap_check(self, zero):
            self.prove("%s:entry:%s" % (label, nm), f)
        which = self.choose(2, "loop")
        rolenames = {nm for _, nm in mapping}

        kept = self.kept_names(node, body, asg, fr, rolenames)

        def inject(i):
            for nm in asg:
                if nm not in rolenames and nm not in kept:
                    fr.locals[nm] = POISON
            for r, nm in mapping:
                v = r.inject(self, i)
                given[nm] = v
                if nm in mut and v is not UNBOUND:          # the same object with the state after i iterations
                    become(mut[nm], v)
                elif v is UNBOUND:
                    fr.locals.pop(nm, None)
                else:
                    fr.locals[nm] = v
            spec.heap_inject(self, i)
        if which == 0:
            i = self.fresh("it", z3.IntSort())
            self.assume(i >= 0)
            self.assume(i < n)
            inject(i)
            spec.assume_iter(self, i)
            if not self.feasible(z3.BoolVal(True)):
                raise PathEnd()
            spec.unfold(self, i)
            skip = seq.guard is not None and not self.branch(seq.guard(i))
            if not skip:
                self.assign(target, seq.elem(i), fr)
            w = set()
            self.write_stack.append((birth, w))
            try:
                try:
                    if not skip and spec.join is not None and not self.joining:
                        self.exec_joined(body, fr, spec.join)
                    elif not skip:
                        self.exec_block(body, fr)
                except ContinueX:
                    pass
            except BreakX:
                self.write_stack.pop()
                self._frame_check({x for x in w if (x[0], "*") not in own}, spec, label)
                spec_brk = getattr(spec, "on_break", None)
                if spec_brk:
                    spec_brk(self, i)
                return
            except (ReturnX, PyExc):
                self.write_stack.pop()
                self._frame_check({x for x in w if (x[0], "*") not in own}, spec, label)
                raise
            self.write_stack.pop()
            self.check_kept(node, kept, fr)
            for r, nm in mapping:
                val = fr.locals.get(nm, UNBOUND)
                if val is POISON:
                    self.prove("%s:step:%s" % (label, r.hint), False, "value lost")
                    continue
                f = r.check(self, i + 1, val)
                if r.optional and nm in given and self.unchanged(given[nm], val) and f is not True and (f is False or not self.entails(f)):
                    self.role_drop.add((id(node), r.hint))      # not kept by this loop (perhaps set after it): no invariant for it
                    raise RestartX()
                if r.strong and (spec.name, r.hint) not in self.weak_roles and f is not True and (f is False or not self.entails(f)):
                    self.weak_roles.add((spec.name, r.hint))        # the contract has a weaker invariant for this local
                    raise RestartX()
                self.prove("%s:step:%s" % (label, r.hint), f)
            for nm, f in spec.heap_check(self, i + 1):
                self.prove("%s:step:%s" % (label, nm), f)
            self._frame_check({x for x in w if (x[0], "*") not in own}, spec, label)
            raise PathEnd()
        inject(n)
        for nm in tgt_names:
            fr.locals[nm] = POISON
        ex = getattr(spec, "at_exit", None)
        if ex:
            ex(self, n)
        self.exec_block(orelse, fr)

    def _frame_check(self, w, spec, label):
        allowed = set(spec.modifies(self) if callable(spec.modifies) else spec.modifies)
        bad = [x for x in w if x not in allowed and (x[0], "*") not in allowed]
        if bad:
            self.prove("%s:frame" % label, False, "loop body writes outside its frame: %r" % (bad[:4],))

    def map_roles(self, roles, asg, fr, spec, node):
        key = (spec.name,)
        exact = [(r, r.hint) for r in roles if r.hint in asg]
        missing = [r for r in roles if r.hint not in asg]
        if not missing:
            return exact
        # renamed locals: infer by trying the remaining loop-carried names
        free = [n for n in asg if n not in [h for _, h in exact]]
        import itertools
        need = [r for r in missing]
        opts = []
        for k in range(len(need), -1, -1):
            for sub in itertools.combinations(range(len(need)), k):
                skipped = [need[j] for j in range(len(need)) if j not in sub]
                if any(not r.optional for r in skipped):
                    continue
                for perm in itertools.permutations(free, k):
                    opts.append([(need[j], nm) for j, nm in zip(sub, perm)])
        # keep those consistent with the entry state
        good = []
        for o in opts:
            ok = True
            for r, nm in o:
                try:
                    f = r.check(self, z3.IntVal(0), fr.locals.get(nm, UNBOUND))
                except (Unsupported, PyExc):
                    f = False
                if f is False or (not isinstance(f, bool) and not self.entails(f)):
                    ok = False
                    break
            if ok:
                good.append(o)
        if not good:
            return exact
        self.role_options[key] = max(len(good), self.role_options.get(key, 0))
        return exact + good[self.role_choice.get(key, 0) % len(good)]

    def loop_record(self, seq, target, body, orelse, fr, node):
        """A loop of a pure iterator: what it yields, as a function of the iteration."""
        rec = fr.yield_cb
        locals0 = dict(fr.locals)
        asg = assigned_names(body) + assigned_names([ast.Assign(targets=[target], value=ast.Constant(0))])

        def run_(i):
            sub = Recorder()
            fr.yield_cb = sub
            try:
                ok = self._run_body(i, seq, target, body, fr, asg)
            finally:
                fr.yield_cb = rec
            return sub if ok else False
        paths = []
        self.sub_paths(run_, seq, fr, locals0, collect=paths, want_all=True)

        def at(j):
            cur = dict(fr.locals)
            fr.locals.clear()
            fr.locals.update(locals0)
            try:
                sub = run_(j)
            finally:
                fr.locals.clear()
                fr.locals.update(cur)
            if not sub or len(sub.items) != 1 or sub.items[0][0] != "one":
                raise Unsupported("iterator element")
            return sub.items[0][1]
        rec.items.append(("loop", seq, paths, at))
        for nm in asg:
            fr.locals[nm] = POISON
        self.exec_block(orelse, fr)

    def pure_iterator(self, f):
        """A generator function that stores to nothing but locals and yields only inside loops."""
        r = getattr(f, "pure_iter", None)
        if r is not None:
            return r
        node = f.node
        r = True
        loops = set()
        for n in ast.walk(node):
            if isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, (ast.Store, ast.Del)):
                r = False
            if isinstance(n, (ast.Global, ast.Nonlocal, ast.YieldFrom, ast.While)):
                r = False
            if isinstance(n, ast.For):
                for m in ast.walk(n):
                    if isinstance(m, ast.Yield):
                        loops.add(id(m))
        for n in ast.walk(node):
            if isinstance(n, ast.Yield) and id(n) not in loops:
                r = False
        r = r and bool(loops)
        f.pure_iter = r
        return r

    def gen_stream(self, g):
        """Items of a pure iterator: a list, a SeqV, or a Stream."""
        rec = Recorder()
        ret = g.run(rec)
        if all(it[0] == "one" for it in rec.items):
            return [it[1] for it in rec.items]
        if len(rec.items) == 1:
            _, seq, paths, at = rec.items[0]
            if all(len(p[2].items) <= 1 and all(x[0] == "one" for x in p[2].items) for p in paths):
                guard = None
                if any(not p[2].items for p in paths) or seq.guard is not None:
                    yes = [(p[0], p[1]) for p in paths if p[2].items]
                    g0 = seq.guard

                    def guard(j):
                        f = z3.Or(*[z3.substitute(c, (i, j)) for i, c in yes])
                        return f if g0 is None else z3.And(g0(j), f)
                vals = [(p[0], p[2].items[0][1]) for p in paths if p[2].items]
                if not vals:
                    return []
                elem = at
                try:
                    first = subst_value(self, vals[0][1], vals[0][0], vals[0][0])
                    if all(struct_eq(first, subst_value(self, v, i, vals[0][0])) for i, v in vals[1:]):
                        elem = lambda j: subst_value(self, vals[0][1], vals[0][0], j)
                except Unsupported:
                    pass
                s = SeqV(seq.n, elem, tag=seq.tag)
                s.guard = guard
                s.base = getattr(seq, "base", seq)
                return s
        return Stream(rec.items)

    def as_collection(self, target, body, fr, node):
        """`for t in seq: [x = e]* [if c:] D[k] = v` (or L.append(v), S.add(v)) read as D.update({k: v for t in seq if c})."""
        key = id(node)
        if key not in self.collect_cache:
            self.collect_cache[key] = collection_form(target, body)
        c = self.collect_cache[key]
        if c is None:
            return None
        kind, cont, comp = c
        o = self.container(cont, fr)
        if isinstance(o, {"dict": DictV, "list": ListV, "set": (SetV,)}[kind]) or (type(o).__name__ in ("MapDict", "ValSet") and kind == {"MapDict": "dict", "ValSet": "set"}[type(o).__name__]):
            return c
        return None

    def container(self, cont, fr):
        if isinstance(cont, ast.Name):
            return fr.locals.get(cont.id)
        if path_root(cont) not in fr.locals:
            return None
        return self.ev(cont, fr)

    def loop_collects(self, seq, c, target, body, orelse, fr):
        kind, cont, node = c
        o = self.container(cont, fr)
        try:
            if kind == "dict":
                r = self.comp(node, fr, lambda cf: (self.ev(node.key, cf), self.ev(node.value, cf)), "dict", first=seq)
            else:
                r = self.comp(node, fr, lambda cf: self.ev(node.elt, cf), kind, first=seq)
        except PyExc:
            if not isinstance(cont, ast.Name):
                raise Unsupported("exception in a loop that fills %s" % ast.unparse(cont))
            fr.locals[cont.id] = POISON      # partly filled
            raise
        uid = o.uid
        self.write(o, "items")
        from . import lib, models
        if kind == "dict":
            if isinstance(o, DictV) and not o.pairs:
                become(o, r.copy() if hasattr(r, "copy") else r)
            elif isinstance(o, DictV):
                m = lib.mapdict_of(self, o)
                lib.mapdict_update(self, m, r)
                become(o, m)
            else:
                lib.mapdict_update(self, o, r)
        elif kind == "set":
            self.call(self.getattr(o, "update"), [r], {})
        else:
            if o.items:
                raise Unsupported("appending to a list that is not empty, symbolically often")
            become(o, r)
        for nm in assigned_names(body) + assigned_names([ast.Assign(targets=[target], value=ast.Constant(0))]):
            fr.locals[nm] = POISON
        self.exec_block(orelse, fr)

    def loop_stateless(self, seq, target, body, orelse, fr, node):
        """for x in seq: body, where body only reads: summarised as exists/forall."""
        locals0 = dict(fr.locals)
        asg = assigned_names(body) + assigned_names([ast.Assign(targets=[target], value=ast.Constant(0))])
        kept = self.kept_names(node, body, assigned_names(body), fr, assigned_names([ast.Assign(targets=[target], value=ast.Constant(0))]))
        asg = [nm for nm in asg if nm not in kept]
        which = self.choose(2, "stateless-loop")
        birth = next_uid()
        if which == 0:
            # some iteration leaves the loop (return/break/raise)
            i = self.fresh("ix", z3.IntSort())
            self.assume(i >= 0)
            self.assume(i < seq.n)
            if seq.guard is not None:
                self.assume(seq.guard(i))
            for nm in asg:
                fr.locals[nm] = POISON
            if not self.feasible(z3.BoolVal(True)):
                raise PathEnd()
            self.assign(target, seq.elem(i), fr)
            w = set()
            self.write_stack.append((birth, w))
            try:
                self.exec_block(body, fr)
            except BreakX:
                self.write_stack.pop()
                if w:
                    raise Unsupported("loop at line %d writes state and has no invariant" % node.lineno)
                return
            except ContinueX:
                pass
            except (ReturnX, PyExc):
                self.write_stack.pop()
                if w:
                    raise Unsupported("loop at line %d writes state and has no invariant" % node.lineno)
                raise
            self.write_stack.pop()
            if w:
                raise Unsupported("loop at line %d writes state and has no invariant (%s)" % (node.lineno, list(w)[:3]))
            raise PathEnd()
        # all iterations complete normally: collect the condition of a normal completion
        def iteration(i):
            ok = self._run_body(i, seq, target, body, fr, asg)
            if ok:
                self.check_kept(node, kept, fr)
            return ok
        conds = self.sub_paths(iteration, seq, fr, locals0)
        self.fresh_n += 1
        j = z3.Int("j!q%d" % self.fresh_n)
        if conds is not None:
            self.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < seq.n, *([seq.guard(j)] if seq.guard is not None else [])), conds(j))))
        for nm in asg:
            fr.locals[nm] = POISON if nm in locals0 or True else UNBOUND
        self.exec_block(orelse, fr)

    def _run_body(self, i, seq, target, body, fr, asg):
        for nm in asg:
            fr.locals[nm] = POISON
        self.assign(target, seq.elem(i), fr)
        try:
            self.exec_block(body, fr)
            return True
        except ContinueX:
            return True
        except (BreakX, ReturnX, PyExc):
            return False

    def sub_paths(self, run, seq, fr, locals0, collect=None, want_all=False):
        """Explore a pure computation at a fresh index; return j -> formula 'run returned True'.

        collect: list that receives (index, condition, collect_fn()) per path on which run returned True."""
        saved = (self.prefix, self.pos, self.decisions, self.pc, self.solver, self.worklist, self.write_stack, self.spec_depth)
        try:
            disj, i, unsupported = self._sub_paths(run, seq, fr, locals0, collect, want_all)
        finally:
            (self.prefix, self.pos, self.decisions, self.pc, self.solver, self.worklist, self.write_stack, self.spec_depth) = saved
            fr.locals.clear()
            fr.locals.update(locals0)
        if unsupported:
            raise Unsupported(unsupported)
        body = z3.Or(*disj) if disj else z3.BoolVal(False)
        return lambda j: z3.substitute(body, (i, j))

    def _sub_paths(self, run, seq, fr, locals0, collect, want_all):
        pc0 = list(self.pc)
        self.spec_depth = 0
        i = self.fresh("sub", z3.IntSort())
        disj = []
        work = [[]]
        unsupported = None
        npaths = 0
        fresh0 = self.fresh_n
        newconsts_bad = False
        while work:
            pre = work.pop()
            npaths += 1
            if npaths > 200:
                unsupported = "too many paths in loop body"
                break
            self.prefix, self.pos, self.decisions = list(pre), 0, []
            self.pc = list(pc0)
            self.solver = PathSolver(self.feas_ms)
            self.solver.add(*pc0)
            self.worklist = work
            self.write_stack = [(next_uid(), set())]
            self.assume(i >= 0)
            self.assume(i < seq.n)
            if seq.guard is not None:
                self.assume(seq.guard(i))
            k0 = len(self.pc)
            fr.locals.clear()
            fr.locals.update(locals0)
            fn0 = self.fresh_n
            try:
                ok = run(i)
                if self.write_stack[0][1]:
                    unsupported = "loop body writes state and has no invariant"
                    break
                if want_all and not ok:
                    unsupported = "an iteration of a recorded loop leaves the loop or raises"
                    break
                if ok:
                    conj = [c for c in self.pc[k0:] if c.get_id() not in self.facts]
                    if collect is not None and any(self._mentions_fresh_after(c, fn0) for c in conj):
                        unsupported = "recorded loop depends on unknown values"
                        break
                    if any(self._mentions_fresh_after(c, fn0) for c in conj):
                        # weaken: existential witnesses created in the body are dropped
                        conj = [c for c in conj if not self._mentions_fresh_after(c, fn0)]
                    cj = z3.And(*conj) if conj else z3.BoolVal(True)
                    disj.append(cj)
                    if collect is not None:
                        collect.append((i, cj, ok))
            except PathEnd:
                pass
            except Unsupported as e:
                unsupported = str(e)
                break
        return disj, i, unsupported

    def _mentions_fresh_after(self, t, n0):
        found = [False]

        def walk(x, seen):
            if x.get_id() in seen or found[0]:
                return
            seen.add(x.get_id())
            if z3.is_app(x):
                nm = x.decl().name()
                if "!" in nm and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    try:
                        if int(nm.rsplit("!", 1)[1]) > n0:
                            found[0] = True
                    except ValueError:
                        pass
                for k in range(x.num_args()):
                    walk(x.arg(k), seen)
            elif z3.is_quantifier(x):
                walk(x.body(), seen)
        walk(t, set())
        return found[0]

    # ------------------------------------------------------------------ joining paths
    def exec_joined(self, stmts, fr, objs):
        """A block, statement by statement; the ways through one statement that complete normally are joined into
        one state (locals and the objects objs, whose fields are terms) before the next statement."""
        for st in stmts:
            self.exec_join(st, fr, objs)

    def exec_join(self, st, fr, objs):
        if self.spec_depth or self.joining or id(st) in self.no_join or isinstance(st, (ast.Pass, ast.Continue, ast.Break)):
            return self.exec_stmt(st, fr)
        locals0 = dict(fr.locals)
        objs0 = [(o, dict(o.__dict__)) for o in objs]
        uids = {o.uid for o in objs}
        saved = (self.prefix, self.pos, self.decisions, self.worklist)
        pc0 = self.pc
        draws0 = self.draws
        self.n_join += 1
        key = (tuple(self.decisions), id(st), self.n_join)
        cached = self.join_cache.get(key)
        self.joining = True
        runs = []          # (decisions, kind, pc additions, locals, objs, nondeterministic, fresh_n at start)

        def reset():
            fr.locals.clear()
            fr.locals.update(locals0)
            for o, d in objs0:
                o.__dict__.clear()
                o.__dict__.update(d)

        def one(pre, fn):
            self.prefix, self.pos, self.decisions = list(pre), 0, []
            self.pc = list(pc0)
            self.solver.push()
            reset()
            birth = next_uid()
            w = set()
            self.write_stack.append((birth, w))
            c0 = self.n_choose
            self.fresh_n = fn
            kind = "end"
            try:
                self.exec_stmt(st, fr)
                kind = "normal"
            except PathEnd:
                pass
            except (ReturnX, BreakX, ContinueX, PyExc):
                kind = "exc"
            finally:
                self.write_stack.pop()
                self.solver.pop()
            if any(x[0] not in uids for x in w) or self.draws != draws0 or self.joining == "dirty":
                self.no_join.add(id(st))
                raise RestartX()
            if kind == "end":
                return
            heap = {nm for nm, v in fr.locals.items() if isinstance(v, HeapV) and v.uid > birth}
            runs.append((list(self.decisions), kind, self.pc[len(pc0):], dict(fr.locals), [dict(o.__dict__) for o in objs],
                         self.n_choose != c0 or bool(heap), fn, bool(heap)))
        fn_end = self.fresh_n
        try:
            if cached is None:
                self.worklist = [[]]
                n = 0
                while self.worklist:
                    pre = self.worklist.pop()
                    one(pre, fn_end)
                    fn_end = self.fresh_n
                    n += 1
                    if n > 400 or time.time() > self.deadline:
                        raise Unsupported("too many paths in one statement")
            else:
                self.worklist = []
                for pre, fn in cached[0]:
                    one(pre, fn)
                fn_end = cached[1]
        finally:
            (self.prefix, self.pos, self.decisions, self.worklist) = saved
            self.pc = pc0
            self.joining = False
            reset()
        self.fresh_n = fn_end
        self.join_cache[key] = ([(r[0], r[6]) for r in runs], fn_end)
        groups = []
        for r in runs:
            if r[1] == "exc" or r[7]:
                groups.append([r])
                continue
            for g in groups:
                if g[0][1] == "normal" and not g[0][7] and self.join_state(g + [r], None) is not None:
                    g.append(r)
                    break
            else:
                groups.append([r])
        if not groups:
            raise PathEnd()
        k = self.choose(len(groups), "join") if len(groups) > 1 else 0
        g = groups[k]
        if len(g) == 1:
            # replay this way through the statement
            saved = (self.prefix, self.pos, self.decisions)
            self.prefix, self.pos, self.decisions = list(g[0][0]), 0, []
            self.joining = True
            fn_end = self.fresh_n
            self.fresh_n = g[0][6]
            try:
                self.exec_stmt(st, fr)
            finally:
                self.prefix, self.pos, self.decisions = saved
                self.joining = False
                self.fresh_n = fn_end
            return
        conds, extra = [], []
        nondet = any(r[5] for r in g)
        sel = self.fresh("way", z3.IntSort()) if nondet else None
        for j, r in enumerate(g):
            cs = []
            for c in r[2]:
                if c.get_id() in self.facts:
                    extra.append(("f", c))
                elif has_quant(c):
                    q = self.fresh("q", z3.BoolSort())
                    extra.append(("a", z3.Implies(q, c)))
                    cs.append(q)
                else:
                    cs.append(c)
            if nondet:
                cs.append(sel == j)
            conds.append(z3.And(*cs) if cs else z3.BoolVal(True))
        for kind, c in extra:
            if kind == "f":
                self.fact(c)
            else:
                self.assume(c)
        self.assume(z3.Or(*conds))
        loc, obs = self.join_state(g, [sel == j for j in range(len(g))] if nondet else conds)
        fr.locals.clear()
        fr.locals.update(loc)
        for o, d in zip(objs, obs):
            o.__dict__.clear()
            o.__dict__.update(d)

    def join_state(self, g, conds):
        """The joined locals and objects (conds None: only whether they can be joined)."""
        try:
            loc = {}
            names = set()
            for r in g:
                names |= set(r[3])
            for nm in names:
                vs = [r[3].get(nm, UNBOUND) for r in g]
                if any(v is UNBOUND or v is POISON for v in vs):
                    loc[nm] = POISON
                else:
                    loc[nm] = self.join_vals(vs, conds)
            obs = []
            for k in range(len(g[0][4])):
                d = {}
                for f in g[0][4][k]:
                    d[f] = self.join_vals([r[4][k].get(f) for r in g], conds)
                obs.append(d)
            return loc, obs
        except Unsupported:
            return None

    def join_vals(self, vs, conds):
        from . import lib
        a = vs[0]
        if all(v is a for v in vs):
            return a

        def ite(ts):
            r = ts[-1]
            if conds is None:
                return r
            for c, t in list(zip(conds, ts))[-2::-1]:
                if not t.eq(r):
                    r = z3.If(c, t, r)
            return r
        if all(isinstance(v, z3.ExprRef) for v in vs):
            if any(v.sort() != a.sort() for v in vs):
                raise Unsupported("join")
            return ite(vs)
        if all(isinstance(v, (bool, int, str, Fraction, type(None))) for v in vs) and all(type(v) == type(a) and v == a for v in vs):
            return a
        if all(isinstance(v, bool) or isinstance(v, Sym) and z3.is_bool(v.t) for v in vs):
            return Sym(ite([z3.BoolVal(v) if isinstance(v, bool) else v.t for v in vs]))
        if all(V.is_num(v) and not isinstance(v, bool) for v in vs):
            ts = [v.t if isinstance(v, Sym) else None for v in vs]
            if all(isinstance(v, int) or (t is not None and t.sort() == z3.IntSort()) for v, t in zip(vs, ts)):
                return Sym(ite([z3.IntVal(v) if t is None else t for v, t in zip(vs, ts)]))
            return Sym(ite([lib.real_term(self, v) for v in vs]))
        if all(V.is_str(v) for v in vs):
            return Sym(ite([self.str_term(v) for v in vs]))
        if all(lib.is_valish(self, v) for v in vs):
            ts = [lib.val_term(self, v) for v in vs]
            return lib.mkval(self, ite(ts)) if conds is not None else a
        if all(isinstance(v, V.SlotV) for v in vs):
            return V.SlotV(ite([v.t for v in vs]))
        if all(type(v) == type(a) for v in vs):
            try:
                if all(struct_eq(a, v) for v in vs[1:]):
                    return a
            except Unsupported:
                pass
        raise Unsupported("join")

    # ------------------------------------------------------------------ names
    def store_name(self, nm, v, fr):
        if nm.startswith("__"):
            nm = self.mangle(nm, fr)
        if self.joining and (nm in fr.globals_ or nm in fr.nonlocals):
            self.joining = "dirty"
        if nm in fr.globals_:
            fr.module.ns[nm] = v
            return
        if nm in fr.nonlocals:
            f = fr.closure
            while f is not None:
                if nm in f.locals or nm in f.localnames:
                    f.locals[nm] = v
                    return
                f = f.closure
            raise Unsupported("nonlocal %s" % nm)
        fr.locals[nm] = v

    def enclosing(self, nm, fr):
        """the value of a variable of an enclosing function, or None"""
        f = fr.closure
        while f is not None:
            if nm in f.locals:
                return f.locals[nm]
            if nm in f.localnames:
                return None
            f = f.closure
        return None

    def load_name(self, nm, fr):
        if nm.startswith("__"):
            nm = self.mangle(nm, fr)
        if nm in fr.globals_:
            return self.load_global(nm, fr)
        if nm in fr.locals:
            v = fr.locals[nm]
            if v is POISON:
                raise Unsupported("local '%s' read after a loop that may have changed it, and no invariant names it" % nm)
            if v is UNBOUND:
                raise bexc("UnboundLocalError", nm)
            return v
        if nm in fr.localnames and nm not in fr.nonlocals:
            raise bexc("UnboundLocalError", nm)
        f = fr.closure
        while f is not None:
            if nm in f.locals:
                v = f.locals[nm]
                if v is POISON:
                    raise Unsupported("closure variable '%s' unknown" % nm)
                return v
            if nm in f.localnames:
                raise bexc("NameError", nm)
            f = f.closure
        if getattr(fr, "is_class_body", False):
            pf = fr.parent_class_frame
            if pf is not None and not getattr(pf, "is_class_body", False) and nm in pf.locals:
                return pf.locals[nm]
        return self.load_global(nm, fr)

    def load_global(self, nm, fr):
        if nm in fr.module.ns:
            return fr.module.ns[nm]
        if hasattr(builtins, nm):
            return Ext("builtins." + nm)
        raise bexc("NameError", nm)

    def mangle(self, nm, fr):
        if nm.startswith("__") and not nm.endswith("__") and fr.cls is not None:
            return "_" + fr.cls.name.lstrip("_") + nm
        return nm

    def _snapshot(self, o):
        if isinstance(o, (ListV, SetV)):
            return list(o.items)
        if isinstance(o, DictV):
            return [list(p) for p in o.pairs]
        if isinstance(o, ObjV):
            return dict(o.attrs)
        return None

    def _restore_globals(self):
        for o, snap in self.undo.values():
            if isinstance(o, (ListV, SetV)):
                o.items[:] = snap
            elif isinstance(o, DictV):
                o.pairs[:] = snap
            elif isinstance(o, ObjV):
                o.attrs.clear()
                o.attrs.update(snap)
        self.undo = {}
        self.undo_class_writes()

    def write(self, obj, key):
        if 0 < obj.uid < self.global_birth and obj.uid not in self.undo:
            self.undo[obj.uid] = (obj, self._snapshot(obj))
        for birth, w in self.write_stack:
            if obj.uid < birth:
                w.add((obj.uid, key))
        if self.spec_depth and getattr(self, "spec_birth", 0) > obj.uid:
            raise NeedFork()

    # ------------------------------------------------------------------ expressions
    def ev(self, n, fr):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            raise Unsupported("expression %s at line %s" % (type(n).__name__, getattr(n, "lineno", "?")))
        return m(n, fr)

    def e_Constant(self, n, fr):
        v = n.value
        if isinstance(v, float):
            return Fraction(repr(v)) if v == v and v not in (INF, -INF) else v
        if isinstance(v, (complex, bytes)) or v is Ellipsis:
            return Ext("constant.%r" % (v,))
        return v

    def e_Name(self, n, fr):
        return self.load_name(n.id, fr)

    def e_Attribute(self, n, fr):
        return self.getattr(self.ev(n.value, fr), self.mangle(n.attr, fr))

    def e_NamedExpr(self, n, fr):
        v = self.ev(n.value, fr)
        self.assign(n.target, v, fr)
        return v

    def e_Subscript(self, n, fr):
        return self.getitem(self.ev(n.value, fr), self.ev_slice(n.slice, fr))

    def ev_slice(self, s, fr):
        if isinstance(s, ast.Slice):
            return slice(self.ev(s.lower, fr) if s.lower else None, self.ev(s.upper, fr) if s.upper else None, self.ev(s.step, fr) if s.step else None)
        return self.ev(s, fr)

    def e_Tuple(self, n, fr):
        return tuple(self._elts(n.elts, fr))

    def e_List(self, n, fr):
        return ListV(self._elts(n.elts, fr))

    def e_Set(self, n, fr):
        return self.make_set(self._elts(n.elts, fr))

    def _elts(self, elts, fr):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                out.extend(self.to_list(self.ev(e.value, fr)))
            else:
                out.append(self.ev(e, fr))
        return out

    def e_Dict(self, n, fr):
        d = DictV()
        for j, (k, v) in enumerate(zip(n.keys, n.values)):
            if k is None:
                x = self.ev(v, fr)
                if j == 0 and isinstance(x, V.Model) and hasattr(x, "m_copy"):
                    d = self.method(x, "copy", [], {})         # {**x, ...}: a copy of x, updated
                    continue
                self.method(d, "update", [x], {})
            else:
                kk = self.ev(k, fr)
                self.setitem(d, kk, self.ev(v, fr))
        return d

    def e_JoinedStr(self, n, fr):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.ev(v.value, fr)
                if v.conversion == 114:
                    parts.append(self.fresh_str("repr"))
                else:
                    if v.format_spec is not None:
                        parts.append(self.fresh_str("fmt"))
                    else:
                        parts.append(self.to_str(x))
        return self.concat(parts)

    def fresh_str(self, nm):
        return Sym(self.fresh(nm, z3.StringSort()))

    def concat(self, parts):
        out = []
        for p in parts:
            if isinstance(p, str):
                if p == "":
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += p
                    continue
                out.append(p)
            else:
                out.append(p)
        if not out:
            return ""
        if len(out) == 1:
            return out[0]
        return Sym(z3.Concat(*[self.str_term(p) for p in out]))

    def str_term(self, v):
        if isinstance(v, str):
            return z3.StringVal(v)
        if isinstance(v, Sym) and v.t.sort() == z3.StringSort():
            return v.t
        if isinstance(v, ValV):
            return self.str_term(self.resolve(v))
        raise Unsupported("not a string: %r" % (v,))

    def e_Lambda(self, n, fr):
        return self.make_func(n, fr)

    def e_IfExp(self, n, fr):
        return self.ev(n.body, fr) if self.truth(self.ev(n.test, fr)) else self.ev(n.orelse, fr)

    def e_BoolOp(self, n, fr):
        isand = isinstance(n.op, ast.And)
        cur = self.ev(n.values[0], fr)
        for nx in n.values[1:]:
            f = self.formula(cur)
            if f is not None and not isinstance(f, bool):
                fs = z3.simplify(f)
                if z3.is_true(fs) or z3.is_false(fs):
                    f = z3.is_true(fs)
            if f is None or isinstance(f, bool):
                tv = self.truth(cur) if f is None else f
                if tv != isand:
                    return cur if not isinstance(f, bool) or not isinstance(cur, Sym) else f
                cur = self.ev(nx, fr)
                continue
            # symbolic boolean: try to evaluate the right operand without forking
            r = self.speculate(lambda: self.ev(nx, fr), f if isand else z3.Not(f), fr) if is_boolv(cur) else None
            if r is not None and is_boolv(r[0]):
                g = self.bool_term(r[0])
                cur = Sym(z3.And(f, g) if isand else z3.Or(f, g))
            else:
                tv = self.branch(f)
                if tv != isand:
                    return cur if not is_boolv(cur) else tv
                cur = self.ev(nx, fr)
        return cur

    def speculate(self, thunk, cond, fr):
        """Evaluate a pure expression under an extra assumption; None if it forks, writes or raises."""
        saved_locals = dict(fr.locals)
        pc0 = list(self.pc)
        st = (self.prefix, self.pos, self.decisions, self.fresh_n)
        self.prefix, self.pos, self.decisions = [], 0, []
        self.solver.push()
        sb = getattr(self, "spec_birth", 0)
        if not self.spec_depth:
            self.spec_birth = next_uid()
        self.spec_depth += 1
        ok = None
        try:
            self.pc.append(cond)
            self.solver.add(cond)
            n0 = len(self.pc)
            v = thunk()
            extra = self.pc[n0:]
            ok = (v, extra)
        except (NeedFork, PyExc, Unsupported, PathEnd):
            ok = None
        finally:
            self.spec_depth -= 1
            self.spec_birth = sb
            self.solver.pop()
            self.pc = pc0
            self.prefix, self.pos, self.decisions = st[0], st[1], st[2]
            fr.locals.clear()
            fr.locals.update(saved_locals)
        if ok is not None:
            for e in ok[1]:
                self.assume(z3.Implies(cond, e))
        return ok

    def e_UnaryOp(self, n, fr):
        v = self.ev(n.operand, fr)
        if isinstance(n.op, ast.Not):
            f = self.formula(v)
            if f is None:
                return not self.truth(v)
            return (not f) if isinstance(f, bool) else Sym(z3.Not(f))
        if isinstance(n.op, ast.USub):
            return self.neg(v)
        if isinstance(n.op, ast.UAdd):
            return v
        raise Unsupported("unary op")

    def neg(self, v):
        if isinstance(v, bool):
            return -int(v)
        if isinstance(v, (int, Fraction, float)):
            return -v
        if is_num(v):
            return Sym(-v.t)
        if hasattr(v, "op_neg"):
            return v.op_neg(self)
        if isinstance(v, ValV):
            return self.neg(self.resolve(v))
        raise bexc("TypeError", "bad operand for unary -")

    def e_BinOp(self, n, fr):
        a = self.ev(n.left, fr)
        b = self.ev(n.right, fr)
        return self.binop(n.op, a, b)

    def e_Compare(self, n, fr):
        left = self.ev(n.left, fr)
        res = None
        for op, rn in zip(n.ops, n.comparators):
            right = self.ev(rn, fr)
            r = self.compare(op, left, right)
            if res is None:
                res = r
            else:
                fa, fb = self.formula(res), self.formula(r)
                if fa is None or fb is None:
                    if not self.truth(res):
                        return res
                    res = r
                elif isinstance(fa, bool) and isinstance(fb, bool):
                    res = fa and fb
                else:
                    res = Sym(z3.And(self.bool_term(res), self.bool_term(r)))
            left = right
            if res is False:
                return False
        return res

    def bool_term(self, v):
        if isinstance(v, bool):
            return z3.BoolVal(v)
        if isinstance(v, Sym) and z3.is_bool(v.t):
            return v.t
        raise Unsupported("bool expected, got %r" % (v,))

    def e_Call(self, n, fr):
        if isinstance(n.func, ast.Name) and n.func.id == "super" and "super" not in fr.locals:
            return self.make_super(n, fr)
        if isinstance(n.func, ast.Name) and n.func.id == "locals":
            raise Unsupported("locals()")
        f = self.ev(n.func, fr)
        args, kwargs = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                args.extend(self.to_list(self.ev(a.value, fr)))
            else:
                args.append(self.ev(a, fr))
        for k in n.keywords:
            if k.arg is None:
                d = self.ev(k.value, fr)
                if isinstance(d, DictV):
                    for kk, vv in d.pairs:
                        if not isinstance(kk, str):
                            raise Unsupported("symbolic keyword name")
                        if kk in kwargs:
                            raise bexc("TypeError", "multiple values for keyword")
                        kwargs[kk] = vv
                else:
                    if "**" in kwargs:
                        raise Unsupported("two symbolic ** arguments")
                    kwargs["**"] = d
            else:
                kwargs[k.arg] = self.ev(k.value, fr)
        return self.call(f, args, kwargs, fr=fr)

    def make_super(self, n, fr):
        f = fr
        while f.func is None or f.func.cls is None:
            f = f.closure
        slf = f.locals[f.func.node.args.args[0].arg]
        if n.args:
            a = [self.ev(x, fr) for x in n.args]
            return SuperV(a[0], a[1])
        return SuperV(f.func.cls, slf)

    # comprehension ----------------------------------------------------
    def comp_frame(self, fr):
        cf = Frame(fr.module, fr.func, fr, fr.cls)
        cf.comp = True
        cf.yield_cb = fr.yield_cb
        return cf

    def e_ListComp(self, n, fr):
        r = self.comp(n, fr, lambda cf: self.ev(n.elt, cf), "list")
        return ListV(r) if isinstance(r, list) else r

    def e_SetComp(self, n, fr):
        r = self.comp(n, fr, lambda cf: self.ev(n.elt, cf), "set")
        if isinstance(r, list):
            return self.make_set(r)
        h = getattr(getattr(r, "base", None), "as_set", None)
        if h is not None:
            return h(r)
        from . import lib
        try:
            from .models import ValSet
            return ValSet(lib.seq_arr(self, r))
        except Unsupported:
            return r

    def e_GeneratorExp(self, n, fr):
        first = self.ev(n.generators[0].iter, fr)
        g = GenV(None, name="<genexpr>")
        seq0 = self.iterate(first)

        def run(cb):
            if isinstance(seq0, SeqV):
                sq = self.comp(n, fr, lambda cf: self.ev(n.elt, cf), "gen", first=seq0)
                raise Unsupported("pull from symbolic generator expression")
            self.comp(n, fr, lambda cf: cb(self.ev(n.elt, cf)), "gen", first=seq0)
            return None
        g.run = run
        if isinstance(seq0, SeqV):
            g.seq = lambda: self.comp(n, fr, lambda cf: self.ev(n.elt, cf), "gen", first=seq0)
            g.qform = (n, fr, seq0)
        return g

    def e_DictComp(self, n, fr):
        r = self.comp(n, fr, lambda cf: (self.ev(n.key, cf), self.ev(n.value, cf)), "dict")
        if isinstance(r, list):
            d = DictV()
            for k, v in r:
                self.setitem(d, k, v)
            return d
        return r

    def comp(self, n, fr, elt, kind, first=None):
        out = []
        gens = n.generators
        symbolic = []

        def rec(k, cf):
            if k == len(gens):
                out.append(elt(cf))
                return
            g = gens[k]
            it = first if (k == 0 and first is not None) else self.ev(g.iter, cf if k else fr)
            seq = self.iterate(it)
            if isinstance(seq, GenV):
                def cb(v):
                    self.assign(g.target, v, cf)
                    if all(self.truth(self.ev(c, cf)) for c in g.ifs):
                        rec(k + 1, cf)
                seq.run(cb)
                return
            if isinstance(seq, SeqV):
                if len(gens) == 1:
                    symbolic.append(seq)
                    return
                raise Unsupported("nested comprehension over a symbolic sequence")
            for v in seq:
                self.assign(g.target, v, cf)
                if all(self.truth(self.ev(c, cf)) for c in g.ifs):
                    rec(k + 1, cf)
        cf = self.comp_frame(fr)
        rec(0, cf)
        if symbolic:
            return self.symbolic_comp(n, fr, elt, kind, symbolic[0])
        return out

    def symbolic_comp(self, n, fr, elt, kind, seq):
        g = n.generators[0]
        snapshot = dict(fr.locals)

        def at(i):
            # evaluated in the state of the comprehension (closure locals are snapshotted)
            cur = dict(fr.locals)
            fr.locals.clear()
            fr.locals.update(snapshot)
            try:
                cf = self.comp_frame(fr)
                self.assign(g.target, seq.elem(i), cf)
                conds = [self.ev(c, cf) for c in g.ifs]
                return conds, (lambda: elt(cf))
            finally:
                fr.locals.clear()
                fr.locals.update(cur)
        # exceptions: either some element raises, or none does
        which = 1
        if not self._comp_total(seq, g, elt, at):
            which = self.choose(2, "comp-raise")
        if which == 0:
            i = self.fresh("ci", z3.IntSort())
            self.assume(i >= 0)
            self.assume(i < seq.n)
            if seq.guard is not None:
                self.assume(seq.guard(i))
            conds, ev = at(i)
            for c in conds:
                if not self.truth(c):
                    raise PathEnd()
            ev()              # normal completion: not the raising path
            raise PathEnd()
        if g.ifs:
            return self.filtered(seq, at, kind)
        cache = {}

        def elem(i):
            k = i.get_id() if not isinstance(i, int) else ("c", i)
            try:
                _, ev = at(i)
                return ev()
            except PyExc:
                raise PathEnd()   # no element raises on this path
        if kind == "dict":
            return self.sym_dict_from(seq, elem)
        r = SeqV(seq.n, elem, tag=seq.tag, pyclass={"list": list, "set": set, "gen": tuple}[kind])
        r.guard = seq.guard
        r.base = getattr(seq, "base", seq)
        return r

    def _comp_total(self, seq, g, elt, at):
        i = self.fresh("ct", z3.IntSort())
        fr = Frame(None)

        def go():
            conds, ev = at(i)
            ev()
            return True
        r = self.speculate(go, z3.And(i >= 0, i < seq.n, *([seq.guard(i)] if seq.guard is not None else [])), fr)
        return r is not None

    def filtered(self, seq, at, kind):
        """[elt for x in seq if cond]: the same index set with a guard."""
        paths = []
        fr = Frame(None)

        def run_(i):
            conds, ev = at(i)
            return all(self.truth(c) for c in conds)
        f = self.sub_paths(run_, seq, fr, {}, collect=paths)
        g0 = seq.guard

        def guard(j):
            return f(j) if g0 is None else z3.And(g0(j), f(j))

        def elem(i):
            return at(i)[1]()
        sub = SeqV(seq.n, seq.elem, tag=seq.tag)
        sub.guard = guard
        sub.base = getattr(seq, "base", seq)
        for a in ("as_dict",):
            if hasattr(seq, a):
                setattr(sub, a, getattr(seq, a))
        if kind == "dict":
            return self.sym_dict_from(sub, elem)
        sub.elem = elem
        sub.pyclass = {"list": list, "set": set, "gen": tuple}[kind]
        return sub

    def sym_dict_from(self, seq, elem):
        h = getattr(getattr(seq, "base", seq), "as_part", None)
        if h is not None:               # a dictionary over (a part of) a sequence of different names
            return h(elem, seq.guard)
        h = getattr(seq, "as_dict", None)
        if h is None and getattr(getattr(seq, "base", seq), "cid", None) is not None:
            from . import abschunk
            return abschunk.dict_from(self, seq, elem)
        if h is None:
            raise Unsupported("dict comprehension over symbolic sequence %r" % (seq.tag,))
        if seq.guard is not None and seq.guard is not getattr(getattr(seq, "base", seq), "guard", None):
            raise Unsupported("dict comprehension over a part of symbolic sequence %r" % (seq.tag,))
        return h(elem)

    # yield ---------------------------------------------------------------
    def e_Yield(self, n, fr):
        v = self.ev(n.value, fr) if n.value is not None else None
        return self.do_yield(v, fr)

    def do_yield(self, v, fr):
        f = fr
        while f is not None and f.yield_cb is None:
            f = f.closure
        if f is None:
            raise Unsupported("yield outside generator run")
        if self.spec_depth:
            raise NeedFork()
        return f.yield_cb(v)

    def e_YieldFrom(self, n, fr):
        v = self.ev(n.value, fr)
        if isinstance(v, GenV):
            return v.run(lambda x: self.do_yield(x, fr))
        seq = self.iterate(v)
        if isinstance(seq, list):
            for x in seq:
                self.do_yield(x, fr)
            return None
        raise Unsupported("yield from symbolic sequence")

    # ------------------------------------------------------------------ calls
    def call(self, f, args, kwargs, fr=None):
        if isinstance(f, PyFn):
            return f.fn(self, args, kwargs)
        if isinstance(f, BoundV):
            return self.call(f.func, [f.self_] + list(args), kwargs)
        if isinstance(f, FuncV):
            return self.call_func(f, args, kwargs)
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, BuiltinMethod):
            return self.method(f.self_, f.name, args, kwargs)
        if isinstance(f, NTClass):
            return self.make_nt(f, args, kwargs)
        if isinstance(f, Ext):
            return self.call_ext(f, args, kwargs)
        if isinstance(f, Model) and hasattr(f, "m___call__"):
            return f.m___call__(self, *args, **kwargs)
        if isinstance(f, ObjV):
            return self.call(self.getattr(f, "__call__"), args, kwargs)
        if isinstance(f, (ValV, SlotV)):
            raise bexc("TypeError", "not callable")
        raise bexc("TypeError", "not callable %r" % (f,))

    def make_nt(self, c, args, kwargs):
        if "**" in kwargs:
            d = kwargs.pop("**")
            kw = self.dict_items(d)
            kwargs.update(kw)
        vals = list(args)
        for fld in c.fields[len(vals):]:
            if fld in kwargs:
                vals.append(kwargs.pop(fld))
            else:
                k = c.fields.index(fld) - (len(c.fields) - len(c.defaults))
                if 0 <= k < len(c.defaults):
                    vals.append(c.defaults[k])
                else:
                    raise bexc("TypeError", "missing namedtuple field %s" % fld)
        if kwargs or len(vals) > len(c.fields):
            raise bexc("TypeError", "unexpected namedtuple argument")
        return NT(c, vals)

    def dict_items(self, d):
        if isinstance(d, DictV):
            if not all(isinstance(k, str) for k, _ in d.pairs):
                raise Unsupported("symbolic keyword name")
            return {k: v for k, v in d.pairs}
        raise Unsupported("** of %r" % (d,))

    def call_func(self, f, args, kwargs):
        c = self.contracts.get(f.qual)
        if c is not None:
            self.contract_log.add(f.qual)
            return c(self, args, kwargs)
        self.inline_log.add(f.qual)
        return self.run_func(f, args, kwargs)

    def bind(self, f, args, kwargs):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        args = list(args)
        kwargs = dict(kwargs)
        for nm, v in zip(names, args):
            env[nm] = v
        extra = args[len(names):]
        if extra:
            if a.vararg is None:
                raise bexc("TypeError", "%s() takes %d positional arguments" % (f.qual, len(names)))
        if a.vararg is not None:
            env[a.vararg.arg] = tuple(extra)
        star = kwargs.pop("**", None)
        nd = len(f.defaults)
        for k in list(kwargs):
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                if k in env:
                    raise bexc("TypeError", "multiple values for argument %s" % k)
                env[k] = kwargs.pop(k)
        if a.kwarg is not None:
            if star is not None and not kwargs:
                env[a.kwarg.arg] = self.copy_dict(star)
            elif star is not None:
                raise Unsupported("mixed ** arguments")
            else:
                env[a.kwarg.arg] = DictV([[k, v] for k, v in kwargs.items()])
        elif kwargs:
            raise bexc("TypeError", "unexpected keyword %s" % list(kwargs))
        elif star is not None:
            if isinstance(star, DictV):
                for k, v in star.pairs:
                    env[k] = v
            else:
                raise Unsupported("symbolic ** into plain parameters")
        for k, nm in enumerate(names):
            if nm not in env:
                j = k - (len(names) - nd)
                if j < 0:
                    raise bexc("TypeError", "%s() missing argument %s" % (f.qual, nm))
                env[nm] = f.defaults[j]
        for x in a.kwonlyargs:
            if x.arg not in env:
                if x.arg not in f.kwdefaults:
                    raise bexc("TypeError", "missing keyword-only %s" % x.arg)
                env[x.arg] = f.kwdefaults[x.arg]
        return env

    def copy_dict(self, d):
        return self.method(d, "copy", [], {})

    def run_func(self, f, args, kwargs):
        """Execute the function's own body (generators: return a GenV)."""
        env = self.bind(f, args, kwargs)
        node = f.node
        if isinstance(node, ast.Lambda):
            fr = Frame(f.module, f, f.closure, f.cls, list(env))
            fr.locals = env
            return self.ev(node.body, fr)
        if f.is_gen is None:
            f.is_gen = is_generator(node)
            params = [x.arg for x in node.args.posonlyargs + node.args.args + node.args.kwonlyargs]
            if node.args.vararg:
                params.append(node.args.vararg.arg)
            if node.args.kwarg:
                params.append(node.args.kwarg.arg)
            f.localset = set(params) | set(assigned_names(node.body))
        fr = Frame(f.module, f, f.closure, f.cls, f.localset)
        fr.locals = env
        if f.is_gen:
            def run(cb):
                fr.yield_cb = cb
                self.call_depth += 1
                try:
                    self.exec_block(node.body, fr)
                except ReturnX as r:
                    return r.v
                finally:
                    self.call_depth -= 1
                return None
            g = GenV(run, name=node.name, qual=f.qual, args=env)
            g.func = f
            return g
        self.call_depth += 1
        if self.call_depth > 60:
            self.call_depth = 0
            raise Unsupported("call depth in %s" % f.qual)
        try:
            self.exec_block(node.body, fr)
        except ReturnX as r:
            return r.v
        finally:
            self.call_depth -= 1
        return None

    def instantiate(self, c, args, kwargs):
        ct = self.contracts.get(c.qual)
        if ct is not None:
            self.contract_log.add(c.qual)
            return ct(self, args, kwargs)
        if any(isinstance(b, Ext) and real_class(b) is not None and isinstance(real_class(b), type) and issubclass(real_class(b), BaseException) for b in c.mro() if isinstance(b, Ext)):
            return PyExc(c, args)
        o = ObjV(c)
        init = self.class_lookup(c, "__init__")
        if init is not None and not isinstance(init, Ext):
            self.call(init, [o] + list(args), kwargs)
        return o

    def class_lookup(self, c, name):
        for b in c.mro():
            if isinstance(b, ClassV):
                if name in b.ns:
                    return b.ns[name]
            elif isinstance(b, Ext):
                v = self.ext_class_member(b, name)
                if v is not None:
                    return v
        return None

    def ext_class_member(self, ext, name):
        """Mixin methods that stdlib ABCs provide: executed from the stdlib's own source."""
        key = (ext.name, name)
        if ext.name.startswith("collections."):
            try:
                rc = real_class(ext)
            except Exception:
                return None
            if rc is None:
                return None
            for k in rc.__mro__:
                if name in k.__dict__ and k is not object:
                    return self.stdlib_func(k, name)
        return None

    _std = {}

    def stdlib_func(self, k, name):
        import inspect
        key = (k, name)
        if key in self._std:
            return self._std[key]
        obj = k.__dict__[name]
        if isinstance(obj, property) or getattr(obj, "__isabstractmethod__", False):
            return None
        try:
            import textwrap
            fn = obj.__func__ if isinstance(obj, classmethod) else obj
            try:
                src = textwrap.dedent(inspect.getsource(fn))
                node = ast.parse(src).body[0]
            except OSError:         # frozen module: read the source file of the standard library
                node = stdlib_source(k, fn.__name__)
        except Exception:
            return None
        m = self.modules.get("<stdlib:%s>" % k.__module__)
        if m is None:
            m = ModuleV("<stdlib:%s>" % k.__module__)
            for cand in ("Mapping", "MutableMapping", "Set", "MutableSet", "Sequence", "Iterable", "Sized", "Container", "Collection"):
                m.ns[cand] = Ext("collections.abc." + cand)
            self.modules[m.name] = m
        node.decorator_list = []
        fr = Frame(m)
        f = self.make_func(node, fr)
        f.qual = "<stdlib>.%s.%s" % (k.__name__, name)
        clsv = ClassV(k.__name__, [], m, "<stdlib>." + k.__name__)
        f.cls = clsv
        if isinstance(obj, classmethod):
            f.kind = "classm"
        if name == "__init__" and k.__name__ != "UserDict":
            pass
        if name == "pop":
            m.ns.setdefault("marker", None)
        # class-level private sentinel of MutableMapping.pop
        f.std_marker = getattr(k, "_MutableMapping__marker", None)
        if "_MutableMapping__marker" in k.__dict__ or hasattr(k, "_MutableMapping__marker"):
            mk = ObjV(ClassV("marker", [], m, "<stdlib>.marker"))
            clsv.ns["_MutableMapping__marker"] = mk
            # the default argument refers to the class attribute of the same name
            f.defaults = [mk if (isinstance(d, ast.Name)) else d for d in f.defaults]
        self._std[key] = f
        return f

    # ------------------------------------------------------------------ attribute access
    def bind_member(self, v, obj, cls):
        if isinstance(v, FuncV):
            if v.kind == "static":
                return v
            if v.kind == "classm":
                return BoundV(v, cls)
            return BoundV(v, obj)
        if isinstance(v, PropV):
            return self.call(v.getter, [obj], {})
        if isinstance(v, PyFn) and getattr(v, "is_method", False):
            return BoundV(v, obj)
        return v

    def getattr(self, o, nm):
        from . import lib
        if isinstance(o, ObjV):
            if nm in ("__class__",):
                return o.cls
            if nm == "__dict__":
                raise Unsupported("__dict__")
            hook = o.meta.get("getattr")
            if hook is not None:
                r = hook(self, o, nm)
                if r is not NotImplemented:
                    return r
            cv = self.class_lookup(o.cls, nm)
            if isinstance(cv, PropV):
                return self.call(cv.getter, [o], {})
            if nm in o.attrs:
                v = o.attrs[nm]
                if v is UNBOUND:
                    raise bexc("AttributeError", nm)
                return v
            if cv is not None:
                return self.bind_member(cv, o, o.cls)
            ga = self.class_lookup(o.cls, "__getattr__")
            if ga is not None and "no_getattr" not in o.meta:
                return self.call(ga, [o, nm], {})
            raise bexc("AttributeError", nm)
        if isinstance(o, ClassV):
            if nm == "__name__":
                return o.name
            v = self.class_lookup(o, nm)
            if v is None:
                raise bexc("AttributeError", nm)
            if isinstance(v, FuncV) and v.kind == "classm":
                return BoundV(v, o)
            return v
        if isinstance(o, ModuleV):
            if nm in o.ns:
                return o.ns[nm]
            sub = o.name + "." + nm
            if sub in self.modules:
                return self.modules[sub]
            if o.name == self.package and os.path.exists(os.path.join(self.repo, sub.replace(".", "/") + ".py")):
                return self.load_module(sub)
            raise bexc("AttributeError", nm)
        if isinstance(o, Ext):
            return lib.ext_attr(self, o, nm)
        if isinstance(o, NT):
            if nm in o.cls.fields:
                return o.get(nm)
            if nm == "_fields":
                return o.cls.fields
            if nm in o.cls.ns:
                return self.bind_member(o.cls.ns[nm], o, o.cls)
            if nm in ("_asdict", "_replace", "count", "index"):
                return BuiltinMethod(o, nm)
            raise bexc("AttributeError", nm)
        if isinstance(o, NTClass):
            if nm == "_fields":
                return o.fields
            if nm == "__name__":
                return o.name
            if nm in o.ns:
                return o.ns[nm]
            raise bexc("AttributeError", nm)
        if isinstance(o, Model):
            g = getattr(o, "get_" + nm, None)
            if g is not None:
                return g(self)
            if hasattr(o, "m_" + nm) or type(o).__name__ in ("VarMap", "MapDict", "ValSet"):
                return BuiltinMethod(o, nm)
            r = getattr(o, "getattr", None)
            if r is not None:
                x = r(self, nm)
                if x is not NotImplemented:
                    return x
            raise Unsupported("attribute %s of abstract %s" % (nm, type(o).__name__))
        if isinstance(o, SuperV):
            mro = self.mro_of(o.self_)
            k = mro.index(o.cls)
            for b in mro[k + 1:]:
                v = b.ns.get(nm) if isinstance(b, ClassV) else self.ext_class_member(b, nm)
                if v is not None:
                    return self.bind_member(v, o.self_, None)
            if nm == "__init__":
                return PyFn(lambda E, a, k: None)
            raise bexc("AttributeError", nm)
        if isinstance(o, (FuncV, PyFn, BoundV)):
            if nm == "__name__":
                f = o.func if isinstance(o, BoundV) else o
                return f.node.name if isinstance(f, FuncV) else f.name
            if nm in getattr(o, "fattrs", {}):
                return o.fattrs[nm]
            raise bexc("AttributeError", nm)
        if isinstance(o, GenV):
            if nm == "__name__":
                return o.name
            return BuiltinMethod(o, nm)
        if isinstance(o, PropV):
            if nm == "setter":
                return PyFn(lambda E, a, k: PropV(o.getter, a[0]))
        if isinstance(o, PyExc):
            if nm == "args":
                return tuple(o.pargs)
            raise bexc("AttributeError", nm)
        if isinstance(o, SlotV):
            return lib.slot_attr(self, o, nm)
        if isinstance(o, ValV):
            return self.getattr(self.resolve(o), nm)
        return lib.builtin_attr(self, o, nm)

    def mro_of(self, o):
        return o.cls.mro()

    def hasattr(self, o, nm):
        try:
            self.getattr(o, nm)
            return True
        except PyExc as e:
            if self.issubclass(e.cls, Ext("builtins.AttributeError")):
                return False
            raise

    def setattr(self, o, nm, v):
        if isinstance(o, ObjV):
            cv = self.class_lookup(o.cls, nm)
            if isinstance(cv, PropV):
                if cv.setter is None:
                    raise bexc("AttributeError", nm)
                self.call(cv.setter, [o, v], {})
                return
            hook = o.meta.get("setattr")
            self.write(o, nm)
            if hook is not None and hook(self, o, nm, v):
                return
            o.attrs[nm] = v
            return
        if isinstance(o, ClassV):
            self.write_class(o, nm, v)
            return
        if isinstance(o, ModuleV):
            o.ns[nm] = v
            return
        if isinstance(o, NTClass):
            o.ns[nm] = v
            return
        if isinstance(o, FuncV):
            if not hasattr(o, "fattrs"):
                o.fattrs = {}
            o.fattrs[nm] = v
            return
        if isinstance(o, Model):
            s = getattr(o, "set_" + nm, None)
            if s is not None:
                self.write(o, nm)
                s(self, v)
                return
            sa = getattr(o, "setattr", None)
            if sa is not None:
                self.write(o, nm)
                sa(self, nm, v)
                return
        raise Unsupported("set attribute %s on %r" % (nm, o))

    def write_class(self, c, nm, v):
        # class attributes are global state; record so that paths do not leak into each other
        if not hasattr(self, "class_undo"):
            self.class_undo = []
        self.class_undo.append((c, nm, c.ns.get(nm, UNBOUND)))
        c.ns[nm] = v

    def undo_class_writes(self):
        for c, nm, old in reversed(getattr(self, "class_undo", [])):
            if old is UNBOUND:
                c.ns.pop(nm, None)
            else:
                c.ns[nm] = old
        self.class_undo = []

    # delegated to lib -----------------------------------------------------
    def truth(self, v):
        from . import lib
        return lib.truth(self, v)

    def formula(self, v):
        """Boolean value of v as bool/z3 term without forking, or None."""
        if isinstance(v, bool):
            return v
        if isinstance(v, Sym) and z3.is_bool(v.t):
            return v.t
        return None

    def resolve(self, v):
        from . import lib
        return lib.resolve(self, v)

    def getitem(self, o, k):
        from . import lib
        return lib.getitem(self, o, k)

    def setitem(self, o, k, v):
        from . import lib
        return lib.setitem(self, o, k, v)

    def delitem(self, o, k):
        from . import lib
        return lib.delitem(self, o, k)

    def method(self, o, nm, args, kwargs):
        from . import lib
        return lib.method(self, o, nm, args, kwargs)

    def iterate(self, v):
        from . import lib
        return lib.iterate(self, v)

    def to_list(self, v, n=None):
        from . import lib
        return lib.to_list(self, v, n)

    def to_str(self, v):
        from . import lib
        return lib.to_str(self, v)

    def binop(self, op, a, b):
        from . import lib
        return lib.binop(self, op, a, b)

    def compare(self, op, a, b):
        from . import lib
        return lib.compare(self, op, a, b)

    def eq(self, a, b):
        from . import lib
        return lib.py_eq(self, a, b)

    def make_set(self, items):
        from . import lib
        return lib.make_set(self, items)

    def call_ext(self, f, args, kwargs):
        from . import lib
        return lib.call_ext(self, f, args, kwargs)


def cvc5_check(solver, timeout_ms):
    """Second back end: the same query through SMT-LIB to cvc5."""
    import subprocess
    import tempfile
    try:
        txt = "(set-logic ALL)\n" + solver.to_smt2()
        with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as fh:
            fh.write(txt)
            p = fh.name
        try:
            r = subprocess.run(["cvc5", "--tlimit=%d" % timeout_ms, "--strings-exp", p], capture_output=True, text=True, timeout=timeout_ms / 1000 + 5)
            out = r.stdout.strip().splitlines()
            return out[0] if out else "error"
        finally:
            os.unlink(p)
    except Exception as e:
        return "error %s" % type(e).__name__
