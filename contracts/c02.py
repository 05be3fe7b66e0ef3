"""C02: equality and hashing of chunks."""
from .chunklayer import *
from pyvc.values import Model, GenV

PROPERTY = "C02"
REG = []
CH = "pyactr.chunks.Chunk."
ASSUME = ["equal hashes mean equal things (no hash collisions); strings hash by content, the empty value by None, chunks by this property",
          "slot contents are as the constructor makes them (C22)"]


def key(v):
    return z3.If(L.nil(v), Val.none, z3.If(Val.is_vchk(v), Val.vchk(L.CANON(Val.c(v))), v))


def noval(v):
    """== the empty value"""
    return z3.Or(L.nil(v), L.nonestr(v))


def text(v):
    return z3.And(Val.is_vstr(v), z3.Length(Val.s(v)) > 0)


def filled(s):
    """The slot content has a value, a variable, a negated value or a negated variable."""
    return z3.And(SV.is_sv(s), z3.Or(z3.Not(noval(SV.vals(s))), text(SV.vars(s)), L.NLEN(SV.negvals(s)) > 0, L.NLEN(SV.negvars(s)) > 0))


def facts(E, c, s):
    """about the content of slot s of chunk c"""
    abschunk.name_fact(E, c, s)
    wf_content(E, L.SLOT(c, s))


@task(REG, "removeempty", [CH + "removeempty", CH + "__iter__"])
def removeempty(E):
    setup(E)
    o = achunk(E, "chunk", nonempty=False)
    c = cid(E, o)
    n = L.NSLOTS(c)
    i = E.fresh("i", L.I)
    E.assume(z3.And(i >= 0, i < n))
    abschunk.at_fact(E, c, i)
    nm = L.NAMEAT(c, i)
    facts(E, c, nm)
    again = E.choose(2, "asked before")
    r = run(E, CH + "removeempty", [o])
    if again:
        r = run(E, CH + "removeempty", [o])
    if r == () or isinstance(r, ListV) and not r.items:
        E.prove("nothing is left only if no slot is filled", z3.Not(filled(L.SLOT(c, nm))))
        return
    E.prove("the result goes through the chunk's slots", isinstance(r, SeqV) and r.tag == ("chunk", c))
    g = r.guard(i) if r.guard is not None else z3.BoolVal(True)
    E.prove("exactly the filled slots are kept", g == filled(L.SLOT(c, nm)))
    if E.branch(filled(L.SLOT(c, nm))):
        x = r.elem(i)
        E.prove("with their names", b(eqv(E, x[0], Sym(nm))))
        E.prove("and their contents", isinstance(x[1], SlotV) and x[1].t == L.SLOT(c, nm))


class HashV(Model):
    """hash of a slot value or variable"""
    pyclass = int

    def __init__(self, t):
        super().__init__()
        self.t = t


class Entries(Model):
    """The frozen set of (slot, kind, hash) entries, seen at one arbitrary entry."""
    pyclass = frozenset

    def __init__(self, slot, kind, v):
        super().__init__()
        self.e = (slot, kind, v)
        self.seen = z3.BoolVal(False)

    def test(self, E, x):
        flat = []

        def go(t):
            for y in t if isinstance(t, tuple) else [t]:
                go(y) if isinstance(y, tuple) else flat.append(y)
        go(x)
        if len(flat) != 3 or not isinstance(flat[2], HashV):
            raise engine.Unsupported("an entry of the hash: %r" % (x,))
        return z3.And(self.e[0] == E.str_term(flat[0]), self.e[1] == E.str_term(flat[1]), self.e[2] == flat[2].t)

    def put(self, E, x):
        E.write(self, "seen")
        self.seen = z3.Or(self.seen, self.test(E, x))


@task(REG, "__hash__", [CH + "__hash__", "pyactr.utilities.splitting"])
def hash_(E):
    setup(E)
    o = achunk(E, "chunk", nonempty=False)
    c = cid(E, o)
    n = L.NSLOTS(c)
    bv = bv_of(o)
    es, ek, ev = E.fresh("slot", L.S), E.fresh("kind", L.S), E.fresh("value", Val)
    abschunk.name_fact(E, c, es)
    wf_content(E, L.SLOT(c, es))
    E.fact(ev == key(ev))
    ghost = Entries(es, ek, ev)
    SE = L.SLOT(c, es)
    j = z3.Int("j!h")

    def kind(k):
        return ek == z3.StringVal(k)

    def bound(x):
        return z3.Select(bv.has, x), z3.Select(bv.val, x)

    def part(nv_upto=None):
        """entry e belongs to its slot's content"""
        x = Val.s(SV.vars(SE))
        nv = SV.negvars(SE)
        y = L.NVARS(nv, j)
        ng = SV.negvals(SE)
        return z3.And(filled(SE), z3.Or(
            z3.And(kind("variables"), text(SV.vars(SE)), z3.Not(bound(x)[0]), ev == Val.vstr(x)),
            z3.And(kind("negvariables"), z3.Exists([j], z3.And(j >= 0, j < L.NLEN(nv), z3.Not(bound(y)[0]), ev == Val.vstr(y)))),
            z3.And(kind("values"), z3.Or(z3.And(text(SV.vars(SE)), bound(x)[0], key(bound(x)[1]) == ev), z3.And(z3.Not(noval(SV.vals(SE))), key(SV.vals(SE)) == ev))),
            z3.And(kind("negvalues"), z3.Or(z3.Exists([j], z3.And(j >= 0, j < L.NLEN(nv), bound(y)[0], key(bound(y)[1]) == ev)),
                                            z3.Exists([j], z3.And(j >= 0, j < L.NLEN(ng), key(L.NVAL(ng, j)) == ev))))))
    spec = z3.And(L.HASN(c, es), part())
    cur = {}

    class Slots(LoopSpec):
        name = "slots of the chunk"
        modifies = [(ghost.uid, "seen")]

        def upto(self, i):
            return z3.And(spec, abschunk.IDX(c, es) < i)

        def heap_inject(self, E, i):
            ghost.seen = self.upto(i)
            cur["i"] = i

        def heap_check(self, E, i):
            return [("the entries of the slots so far", ghost.seen == self.upto(i))]

        def unfold(self, E, i):
            abschunk.at_fact(E, c, i)
            wf_content(E, L.SLOT(c, L.NAMEAT(c, i)))

    class Negvars(LoopSpec):
        name = "negated variables of a slot"

        def __init__(self, E, fr, seq):
            self.nv = seq.tag[1]
            self.it = None
            self.seen0 = ghost.seen
            self.slot = L.NAMEAT(c, cur["i"])
            # the set that collects the values of bound negated variables
            self.sets = [v for d in list(fr.locals.values()) if isinstance(d, DictV) for _, v in d.pairs if isinstance(v, (SetV,)) or type(v).__name__ == "ValSet"]
            self.sets += [v for v in fr.locals.values() if isinstance(v, SetV) or type(v).__name__ == "ValSet"]
            self.arr0 = [lib.seq_arr(E, v) if not isinstance(v, SetV) else lib.items_arr(E, v.items) for v in self.sets]
            for v in self.sets:
                if isinstance(v, SetV):
                    lib.become_valset(E, v)
            self.modifies = [(ghost.uid, "seen")] + [(v.uid, "*") for v in self.sets]
            self.target = None

        def ent(self, k):
            y = L.NVARS(self.nv, k)
            return z3.And(es == self.slot, kind("negvariables"), z3.Not(bound(y)[0]), ev == Val.vstr(y))

        def upto(self, k):
            if self.it is not None and k.eq(self.it + 1):
                return z3.Or(self.upto(self.it), self.ent(self.it))
            jj = z3.Int("j!nv")
            return z3.Or(self.seen0, z3.Exists([jj], z3.And(jj >= 0, jj < k, self.ent(jj))))

        def member(self, a, u, k):
            """u was recorded among the first k"""
            if self.it is not None and k.eq(self.it + 1):
                y = L.NVARS(self.nv, self.it)
                return z3.Or(self.member(a, u, self.it), z3.And(bound(y)[0], bound(y)[1] == u))
            jj = z3.Int("j!ns")
            y = L.NVARS(self.nv, jj)
            return z3.Or(z3.Select(a, u), z3.Exists([jj], z3.And(jj >= 0, jj < k, bound(y)[0], bound(y)[1] == u)))

        def heap_inject(self, E, k):
            ghost.seen = self.upto(k)
            u = z3.Const("u!ns", Val)
            for v, a in zip(self.sets, self.arr0):
                neg = self.is_neg(v)
                v.arr = z3.Lambda([u], self.member(a, u, k)) if neg else a

        def is_neg(self, v):
            if len(self.sets) == 1:
                return True
            for d in list(self.fr.locals.values()):
                if isinstance(d, DictV):
                    for kk, x in d.pairs:
                        if x is v:
                            return "neg" in str(kk)
            return any("neg" in nm for nm, x in self.fr.locals.items() if x is v)

        def heap_check(self, E, k):
            u = E.fresh("u", Val)
            out = [("the unbound ones so far are entries", ghost.seen == self.upto(k))]
            for v, a in zip(self.sets, self.arr0):
                m = z3.Select(v.arr, u) if not isinstance(v, SetV) else None
                out.append(("the values of the bound ones are collected", m == self.member(a, u, k) if self.is_neg(v) else m == z3.Select(a, u)))
            return out

        def unfold(self, E, k):
            self.it = k

    class Vals(LoopSpec):
        """a set of values, one entry each"""
        name = "values collected for a slot"

        def __init__(self, E, fr, seq):
            self.it = None
            self.seen0 = ghost.seen
            self.slot = L.NAMEAT(c, cur["i"])
            self.seq = seq
            self.modifies = [(ghost.uid, "seen")]
            ks = [x for x in fr.locals.values() if isinstance(x, str) and x in ("values", "negvalues")]
            self.kind = ks[0] if len(set(ks)) == 1 else None
            if self.kind is None:
                raise engine.Unsupported("which kind of values")

        def ent(self, u):
            return z3.And(es == self.slot, kind(self.kind), ev == key(u))

        def upto(self, k):
            if self.it is not None and k.eq(self.it + 1):
                return z3.Or(self.upto(self.it), self.ent(lib.val_term(E, self.seq.elem(self.it))))
            if k.eq(self.seq.n) and isinstance(self.seq.tag, tuple) and self.seq.tag[0] == "valset":
                u = z3.Const("u!vs", Val)
                return z3.Or(self.seen0, z3.Exists([u], z3.And(z3.Select(self.seq.tag[1], u), self.ent(u))))
            jj = z3.Int("j!vs")
            return z3.Or(self.seen0, z3.Exists([jj], z3.And(jj >= 0, jj < k, self.ent(lib.val_term(E, self.seq.elem(jj))))))

        def heap_inject(self, E, k):
            ghost.seen = self.upto(k)

        def heap_check(self, E, k):
            return [("one entry per value so far", ghost.seen == self.upto(k))]

        def unfold(self, E, k):
            self.it = k
    E.loops[("chunk", c)] = lambda E, fr, seq: Slots()

    def negvars(E, fr, seq):
        s = Negvars(E, fr, seq)
        s.fr = fr
        return s
    E.loops["negvars"] = negvars
    E.loops["valset"] = lambda E, fr, seq: Vals(E, fr, seq)

    def re_(E, args, kwargs):
        s = SeqV(n, lambda i: (Sym(L.NAMEAT(c, i)), SlotV(L.SLOT(c, L.NAMEAT(c, i)))), tag=("chunk", c))
        s.guard = lambda i: filled(L.SLOT(c, L.NAMEAT(c, i)))
        s.cid = c
        return s
    E.contracts[CH + "removeempty"] = re_
    made = []

    def fset(E, args, kwargs):
        (g,) = args
        if not isinstance(g, GenV):
            raise engine.Unsupported("frozenset of %r" % (g,))
        g.run(lambda x: ghost.put(E, x))
        return ghost
    E.contracts["ext:builtins.frozenset"] = fset
    H = E.fresh("H", L.I)

    def bhash(E, args, kwargs):
        (x,) = args
        if x is ghost:
            made.append(ghost.seen)
            return Sym(H)
        return HashV(key(lib.val_term(E, x)))
    E.contracts["ext:builtins.hash"] = bhash
    old = E.choose(2, "a hash is remembered")
    h0 = E.fresh("h0", L.I)
    bv0 = VarMap(*[E.fresh(k, s) for k, s in zip(("oldhas", "oldval", "oldnhas", "oldnset"), [bv.has.sort(), bv.val.sort(), bv.nhas.sort(), bv.nset.sort()])])
    if old:
        o.attrs["_Chunk__hash"] = (Sym(h0), bv0)
    before = [bv.has, bv.val, bv.nhas, bv.nset]
    E.cover("precondition satisfiable")
    r = run(E, CH + "__hash__", [o])
    E.prove("hashing leaves the bindings alone", z3.And(*[x == y for x, y in zip([bv.has, bv.val, bv.nhas, bv.nset], before)]))
    if not made:
        E.prove("a remembered hash is used only for the same bindings", z3.And(old == 1, bv.has == bv0.has, bv.val == bv0.val))
        E.prove("and it is the remembered one", b(eqv(E, r, Sym(h0))))
        return
    E.prove("the hash is that of the set of entries", len(made) == 1 and b(eqv(E, r, Sym(H))))
    E.prove("the entries are the filled slots' values, variables, negated values and negated variables, bound ones by their value", made[0] == spec)
    hh = o.attrs["_Chunk__hash"]
    E.prove("it is remembered", isinstance(hh, tuple) and len(hh) == 2 and b(eqv(E, hh[0], Sym(H))))
    E.prove("with the bindings it was computed for", isinstance(hh[1], VarMap) and hh[1] is not bv and hh[1].uid != bv.uid and z3.And(hh[1].has == bv.has, hh[1].val == bv.val))


@task(REG, "__eq__", [CH + "__eq__"])
def eq_(E):
    setup(E, eq=False)
    a, c = achunk(E, "a", nonempty=False), achunk(E, "b", nonempty=False)
    ha, hb = E.fresh("ha", L.I), E.fresh("hb", L.I)

    def hsh(E, args, kwargs):
        if same(E, args[0], a):
            return Sym(ha)
        return Sym(hb)
    E.contracts[CH + "__hash__"] = hsh
    E.contracts["ext:builtins.hash"] = hsh
    r = run(E, CH + "__eq__", [a, c])
    E.prove("chunks are equal exactly if their hashes are", b(E.truth(r)) == (ha == hb))
