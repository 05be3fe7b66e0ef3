"""C05: modifying a buffer changes only the named slots."""
from .cbv import *
from .c04 import spy_add, make, KINDS

PROPERTY = "C05"
REG = []
ASSUME = ["C05: a new Chunk has the slots it is constructed with (proved in C22); check_bound_vars resolves content as proved in C06"]


def mk(kind):
    short = kind.split(".")[-1]

    def run_(E):
        setup(E)
        log, news, adds = [], [], []
        install(E, log)
        install_chunk(E, news)
        spy_add(E, adds)
        dm = E.instantiate(cls(E, "pyactr.declarative.DecMem"), [], {})
        g = make(E, kind, dm)
        c0 = achunk(E, "old")
        run(E, "pyactr.buffers.Buffer.add", [g, c0])
        o = achunk(E, "modification")
        vm = abschunk.bindings(E.fresh("bound", L.I))
        nobind = E.choose(2, "no bindings given")
        H, V = (z3.K(L.S, z3.BoolVal(False)), z3.K(L.S, Val.none)) if nobind else (vm.has, vm.val)
        s = E.fresh("slot", L.S)
        co, cc = cid(E, o), cid(E, c0)
        for c in (co, cc):
            abschunk.name_fact(E, c, s)
            wf_content(E, L.SLOT(c, s))
        old_attrs = dict(c0.attrs)
        bv0 = bv_of(c0).snapshot()
        E.cover("precondition satisfiable")
        args = [g, o]
        if short == "VisualLocation":
            args.append(None if E.choose(2, "stim") else DictV([["text", string(E, "t")]]))
        if not nobind:
            args.append(vm)
        st, r = attempt(E, lambda: run(E, kind + ".modify", args))
        content = L.SLOT(co, s)
        named = z3.And(L.HASN(co, s), used(E, content))
        true = z3.BoolVal(True)
        if st == "exc":
            E.prove("an error is an ACTRError", z3.BoolVal(is_exc(E, r, "ACTRError")))
            j = z3.Int("j!md")
            c = L.SLOT(co, L.NAMEAT(co, j))
            E.prove("an error is raised only if some slot of the modification cannot be resolved", z3.Exists([j], z3.And(j >= 0, j < L.NSLOTS(co), used(E, c), ERR(c, H, V, true))))
        else:
            E.prove("exactly one chunk is created", len(news) == 1)
            has, got = slot_of_new(E, news[0], s)
            E.prove("a modification that cannot be resolved is an error", z3.Not(z3.And(named, ERR(content, H, V, true))))
            E.prove("the new chunk has the slots of the old one and those named", has == z3.Or(named, L.HASN(cc, s)))
            E.prove("a named slot has the resolved value", z3.Implies(named, got == resolved(E, content, H, V)))
            E.prove("every other slot keeps its content", z3.Implies(z3.And(z3.Not(named), L.HASN(cc, s)), got == L.SLOT(cc, s)))
            E.prove("negations are not allowed in a modification", all(n is True for _, _, _, n in log))
            items = E.to_list(g)
            E.prove("the buffer holds exactly the new chunk", len(items) == 1 and items[0] is news[0].obj)
        E.prove("nothing is harvested", len(adds) == 0)
        same_ = all(c0.attrs.get(k) is v for k, v in old_attrs.items() if k not in ("_Chunk__unused", "_Chunk__empty", "_Chunk__hash", "boundvars"))
        E.prove("the old chunk object is not altered", z3.And(z3.BoolVal(same_), bv_of(c0).same(bv0)))
    return run_


for _k in KINDS:
    _s = _k.split(".")[-1]
    REG.append(Task(_s + ".modify", mk(_k), ["pyactr.buffers.Buffer.modify", "pyactr.chunks.Chunk.removeunused", "pyactr.chunks.Chunk.__iter__"] + ([_k + ".modify"] if _s in ("Visual", "VisualLocation") else [])))
