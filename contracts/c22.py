"""C22: chunk types and the slots of chunks."""
from .cbv import *
from pyvc import models
from pyvc.engine import LoopSpec, Role, Fold

PROPERTY = "C22"
REG = []
CT = "pyactr.chunks.chunktype"
ASSUME = ["C22: declared slot names are different identifiers; the types that exist have no slot 'isa' and their slots carry the internal suffix '_'"]
US = z3.StringVal("_")
VS = lambda s: Val.vstr(s)
TYHAS = z3.Function("TYHAS", L.S, L.B)
TYID = z3.Function("TYID", L.S, L.I)
SAME = z3.Function("SAMETEXT", L.I, L.S, L.B)


class Field:
    """An arbitrary string f: the field of the slot g (g followed by '_'), or no field."""
    def __init__(self, E):
        self.f = E.fresh("field", L.S)
        self.g = E.fresh("slot", L.S) if E.choose(2, "field") == 0 else None
        if self.g is not None:
            E.assume(self.f == z3.Concat(self.g, US))
        else:
            E.assume(z3.Not(z3.SuffixOf(US, self.f)))

    def of(self, E, c):
        """f is the field of one of the names of c (the definition of FIELDOF at f)"""
        for nm in ("isa", "ISA"):
            abschunk.name_fact(E, c, z3.StringVal(nm))
            E.fact(L.FIELDOF(c, z3.StringVal(nm + "_")) == L.HASN(c, z3.StringVal(nm)))
        if self.g is None:
            E.fact(z3.Not(L.FIELDOF(c, self.f)))
            return z3.BoolVal(False)
        abschunk.name_fact(E, c, self.g)
        E.fact(L.FIELDOF(c, self.f) == L.HASN(c, self.g))
        return L.HASN(c, self.g)


class NType(Model):
    """A chunk type: a namedtuple with these fields."""
    pyclass = type

    def __init__(self, fields, make=None):
        super().__init__()
        self.fields, self.make = fields, make

    def get__fields(self, E):
        return self.fields

    def m___call__(self, E, *a, **k):
        return self.make(E, *a, **k)


class Types(Model):
    """Chunk._chunktypes: any types."""
    pyclass = dict

    def __init__(self, E):
        super().__init__()
        self.made, self.missed = [], []
        E.assume(z3.Not(TYHAS(z3.StringVal(""))))

    def known(self, E, s):
        abschunk.name_fact(E, TYID(s), z3.StringVal("isa"))
        E.fact(z3.And(z3.Not(L.HASN(TYID(s), z3.StringVal("isa"))), z3.Not(L.HASN(TYID(s), z3.StringVal("ISA")))))
        return TYHAS(s)

    def old(self, E, s):
        return NType(abschunk.names(E, TYID(s), "_"))

    def find(self, E, k):
        s = E.str_term(k)
        for nm, t in reversed(self.made):
            if E.branch(nm == s):
                return t
        return self.old(E, s) if E.branch(self.known(E, s)) else None

    def m___getitem__(self, E, k):
        t = self.find(E, k)
        if t is None:
            self.missed.append(E.str_term(k))
            raise engine.bexc("KeyError", k)
        return t

    def m_get(self, E, k, d=None):
        t = self.find(E, k)
        if t is None:
            self.missed.append(E.str_term(k))
        return d if t is None else t

    def m___contains__(self, E, k):
        r = z3.Or(self.known(E, E.str_term(k)), *[nm == E.str_term(k) for nm, _ in self.made])
        if not E.branch(r):
            self.missed.append(E.str_term(k))
            return False
        return True

    def m___setitem__(self, E, k, v):
        E.write(self, "types")
        E.prove("only chunk types are recorded", isinstance(v, NType))
        self.made.append((E.str_term(k), v))

    def m_setdefault(self, E, k, v=None):
        t = self.find(E, k)
        if t is None:
            self.m___setitem__(E, k, v)
            return v
        return t

    def m_update(self, E, d):
        if not isinstance(d, DictV):
            raise Unsupported("types updated with %r" % (d,))
        for k, v in d.pairs:
            self.m___setitem__(E, k, v)


class Declared(Model):
    """The slots declared in one string: the names are what is between commas and blanks."""
    pyclass = str

    def __init__(self, E, d, state=0):
        super().__init__()
        self.d, self.state = d, state

    def m_replace(self, E, old, new):
        if self.state or not (isinstance(old, str) and old == "," and isinstance(new, str) and new == " "):
            raise Unsupported("replace(%r, %r) in a declaration" % (old, new))
        return Declared(E, self.d, 1)

    def m_split(self, E, *a):
        if a or not self.state:
            raise Unsupported("split%r of a declaration" % (a,))
        r = abschunk.names(E, self.d)
        r.pyclass = list
        return r

    def eq(self, E, o):
        if isinstance(o, Declared):
            return self.d is o.d
        if lib.is_str(o):
            return Sym(SAME(self.d, E.str_term(o)))
        return False


def new_type(E, made):
    def c(E, a, k):
        name, fields = a[0], a[1]
        d = k.get("defaults", a[2] if len(a) > 2 else None)
        if d is not None:
            if E.branch(d.n > lib.py_len(E, fields).t):
                raise engine.bexc("TypeError", "Got more default values than field names")
        it = lib.iterate(E, fields)
        if isinstance(it, list):
            it = lib.as_seq(E, it)
        i, j = E.fresh("field", L.I), E.fresh("other", L.I)
        x, y = it.elem(i), it.elem(j)
        E.prove("no slot is there twice", z3.Implies(z3.And(i >= 0, i < j, j < it.n), lib.val_term(E, x) != lib.val_term(E, y)))
        t = NType(it)
        made.append(t)
        return t
    E.contracts["ext:collections.namedtuple"] = c


def accumulated(E, arr):
    n, at = E.fresh("nnames", L.I), E.fresh_fn("name", L.I, L.S)
    E.assume(n >= 0)

    def elem(i):
        E.fact(z3.Implies(z3.And(i >= 0, i < n), z3.Select(arr, VS(at(i)))))
        return Sym(at(i))
    s = SeqV(n, elem, tag="accumulated", pyclass=list)
    s.contains = lambda E, x: z3.Select(arr, lib.val_term(E, x))
    s.vs_arr = arr
    return s


def declare(form, inc):
    """form: 'names' | 'string'; inc: None | 'one' | 'many'"""
    def run_(E):
        setup(E)
        types, made = Types(E), []
        cls(E, "pyactr.chunks.Chunk").ns["_chunktypes"] = types
        new_type(E, made)
        d = E.fresh("declared", L.I)
        fd = Field(E)
        f = fd.f
        decl = fd.of(E, d)
        names = abschunk.names(E, d)
        names.pyclass = E.choose(2, "list") and list or tuple
        fields = names if form == "names" else Declared(E, d)
        cname = string(E, "typename")
        args, kw = [cname, fields], {}
        if E.choose(2, "defaults"):
            dn = E.fresh("ndefaults", L.I)
            E.assume(dn >= 0)
            kw["defaults"] = SeqV(dn, lambda i: "x", tag="defaults")
        m, PAR = E.fresh("nparents", L.I), E.fresh_fn("parent", L.I, L.S)
        g = E.fresh("gparent", L.I)
        ph = None
        if inc == "one":
            E.assume(m == 1)
            E.assume(z3.Length(PAR(z3.IntVal(0))) > 0)
            kw["include"] = Sym(PAR(z3.IntVal(0)))
            inh = lambda: fd.of(E, TYID(PAR(z3.IntVal(0))))
        elif inc == "many":
            E.assume(m >= 0)

            def par(i):
                types.known(E, PAR(i))
                fd.of(E, TYID(PAR(i)))
                return Sym(PAR(i))
            kw["include"] = SeqV(m, par, tag="parents", pyclass=E.choose(2, "list of parents") and list or tuple)
            ph = Fold(E, "inherited", [L.B], [z3.BoolVal(False)], lambda cur, i: [z3.Or(cur[0], fd.of(E, TYID(PAR(i))))], [f, z3.IntVal(0) + d], expand=True)
            inh = lambda: ph.at(m)[0]

            class Parents(LoopSpec):
                name = "parents loop"

                def base(self, E):
                    ph.base()

                def unfold(self, E, i):
                    ph.unfold(i)

                def want(self, i, d_):
                    return z3.Or(decl, ph.at(i)[0]) if d_ else ph.at(i)[0]

                def value(self, E, i, d_):
                    arr = E.fresh("members", z3.ArraySort(Val, L.B))
                    E.assume(z3.Select(arr, VS(f)) == self.want(i, d_))
                    if d_:
                        s = lib.valset_seq(E, arr)
                        s.pyclass = tuple
                        return s
                    return accumulated(E, arr)

                def aset(self, E, i):
                    return models.ValSet(self.value(E, i, False).vs_arr)

                def holds(self, E, i, v, d_):
                    if not isinstance(v, (SeqV, ListV, tuple)) and type(v).__name__ != "ValSet" and not isinstance(v, SetV):
                        return False
                    return lib.fml(E, lib.contains(E, v, Sym(f))) == self.want(i, d_) if not isinstance(lib.fml(E, lib.contains(E, v, Sym(f))), bool) else z3.BoolVal(lib.fml(E, lib.contains(E, v, Sym(f)))) == self.want(i, d_)

                def roles(self, E):
                    return [Role("inherits", lambda E, i: self.aset(E, i) if self.sets else self.value(E, i, False), lambda E, i, v: self.holds(E, i, v, False), optional=True),
                            Role("field_names", lambda E, i: self.value(E, i, True), lambda E, i, v: self.holds(E, i, v, True), optional=True)]

                def at_exit(self, E, n):
                    # every parent was found: an arbitrary one too
                    pass

                def assume_iter(self, E, i):
                    pass

            def parents(E, fr, seq):
                p = Parents()
                p.sets = any(isinstance(v, SetV) for v in fr.locals.values())
                return p
            E.loops["parents"] = parents
        else:
            E.assume(m == 0)
            inh = lambda: z3.BoolVal(False)
        E.assume(z3.And(g >= 0, g < m) if inc else z3.BoolVal(True))
        special = E.modules["pyactr.utilities"].ns["SPECIALCHUNKTYPES"]
        builtin = [(E.str_term(k), E.str_term(v)) for k, v in special.pairs]
        is_builtin = z3.Or(*[cname.t == k for k, _ in builtin])
        redefined = z3.And(is_builtin, z3.Or(m > 0, z3.BoolVal(form == "names"), *[z3.And(cname.t == k, z3.Not(SAME(d, v))) for k, v in builtin]))
        isa = z3.Or(L.HASN(d, z3.StringVal("isa")), L.HASN(d, z3.StringVal("ISA")))
        E.cover("precondition satisfiable")
        st, r = attempt(E, lambda: run(E, CT, args, kw))
        if st == "exc":
            E.prove("a refusal is an ACTRError", is_exc(E, r, "ACTRError"))
            k = z3.Int("k!par")
            miss = z3.Or(*[z3.And(z3.Not(TYHAS(s)), z3.Exists([k], z3.And(k >= 0, k < m, PAR(k) == s))) for s in types.missed]) if types.missed else z3.BoolVal(False)
            E.prove("only a redefinition of a built-in type, a slot isa or an unknown parent is refused", z3.Or(redefined, isa, miss))
            E.prove("nothing is changed then", not types.made)
            return
        E.prove("a redefinition of a built-in type is refused", z3.Not(redefined))
        E.prove("the slot isa is refused", z3.Not(isa))
        if inc == "one":
            E.prove("an unknown parent is refused", TYHAS(PAR(z3.IntVal(0))))
        ok = len(types.made) == 1
        E.prove("one type is made, under the name given", conj(ok, lambda: types.made[0][0] == cname.t))
        if not ok:
            return
        t = types.made[0][1]
        h = lib.fml(E, lib.contains(E, t.fields, Sym(f)))
        h = z3.BoolVal(h) if isinstance(h, bool) else h
        E.prove("it has exactly the declared and the inherited slots", h == z3.Or(decl, inh()))
    return run_


for _f in ("names", "string"):
    for _i in (None, "one", "many"):
        REG.append(Task("a declaration as %s, %s" % (_f, {None: "no parents", "one": "a parent", "many": "any number of parents"}[_i]), declare(_f, _i), [CT]))


# ------------------------------------------------------------------ the slots of a chunk
CH = "pyactr.chunks.Chunk"
KIND = z3.Function("GIVENKIND", L.I, L.S, L.I)          # 0 chunk, 1 slot content, 2 string, 3 number, 4 None, 5 something else
CHV = z3.Function("GIVENCHUNK", L.I, L.S, L.I)
STRV = z3.Function("GIVENTEXT", L.I, L.S, L.S)
NUMV = z3.Function("GIVENNUMBER", L.I, L.S, L.R)
NUMSTR = z3.Function("NUMBERTEXT", L.R, L.S)
SPV, SPX = z3.Function("TEXTVALUE", L.S, L.S), z3.Function("TEXTVARIABLE", L.S, L.S)
HASV, HASX = z3.Function("TEXTHASVALUE", L.S, L.B), z3.Function("TEXTHASVARIABLE", L.S, L.B)
SNG, SNV = z3.Function("TEXTNEGVALUES", L.S, L.I), z3.Function("TEXTNEGVARIABLES", L.S, L.I)
SPERR = z3.Function("TEXTILLFORMED", L.S, L.B)


def of_text(t):
    return SV.sv(z3.If(HASV(t), Val.vstr(SPV(t)), Val.none), z3.If(HASX(t), Val.vstr(SPX(t)), Val.none), SNG(t), SNV(t))


def wanted(c, s):
    """the content of slot s that was given"""
    k = KIND(c, s)
    return z3.If(k == 0, SV.sv(Val.vchk(CHV(c, s)), Val.none, 0, 0), z3.If(k == 1, L.SLOT(c, s), of_text(z3.If(k == 2, STRV(c, s), z3.If(k == 3, NUMSTR(NUMV(c, s)), z3.StringVal("None"))))))


class Negs(Model):
    pyclass = set

    def __init__(self, E, i, isvar):
        super().__init__()
        self.i, self.isvar = i, isvar

    def iterate(self, E):
        return lib.neg_seq(E, self.i, self.isvar)


class Given(Model):
    """The slots a chunk is constructed with, any number; processed ones (up to stage) are not read again."""
    pyclass = dict

    def __init__(self, E, c):
        super().__init__()
        self.c, self.stage, self.T, self.stage2, self.over, self.added = c, None, None, None, [], []

    def raw(self, E, s):
        c, k = self.c, KIND(self.c, s)
        E.fact(z3.And(k >= 0, k <= 5))
        if E.branch(k == 0):
            return lib.chunk_obj(E, CHV(c, s))
        if E.branch(k == 1):
            v = L.SLOT(c, s)
            w = SV.vals(v)
            E.fact(SV.is_sv(v))
            E.fact(z3.Or(Val.is_vstr(w), Val.is_vchk(w), L.nil(w)))
            E.fact(z3.Or(Val.is_vstr(SV.vars(v)), Val.is_none(SV.vars(v))))
            return lib.slot_to_nt(E, SlotV(v))
        if E.branch(k == 2):
            return Sym(STRV(c, s))
        if E.branch(k == 3):
            return Sym(NUMV(c, s))
        return None if E.branch(k == 4) else ListV([])

    def m___getitem__(self, E, k):
        s = E.str_term(k)
        for o, v in reversed(self.over):
            if E.branch(o == s):
                return v
        abschunk.name_fact(E, self.c, s)
        if not E.branch(L.HASN(self.c, s)):
            raise engine.bexc("KeyError", k)
        if self.stage is not None and E.branch(abschunk.IDX(self.c, s) < self.stage):
            raise Unsupported("a slot given is read again")
        return self.raw(E, s)

    def m___setitem__(self, E, k, v):
        E.write(self, "d")
        s = E.str_term(k)
        self.over.append((s, v))

    def m___contains__(self, E, k):
        s = E.str_term(k)
        abschunk.name_fact(E, self.c, s)
        return Sym(self.has(s))

    def has(self, s):
        r = L.HASN(self.c, s)
        if self.T is not None:
            r = z3.Or(r, z3.And(L.HASN(self.T, s), abschunk.IDX(self.T, s) < self.stage2))
        return z3.Or(r, *[o == s for o, _ in self.over])

    def iterate(self, E):
        s = abschunk.names(E, self.c)
        s.tag = "given slots"
        if self.stage is not None:
            if self.over or self.stage2 is None and not z3.simplify(self.stage).eq(z3.simplify(L.NSLOTS(self.c))):
                raise Unsupported("going through changed slots")
            # all slots now: those given and those of the type
            v = z3.Const("v!gk", Val)
            s = accumulated(E, z3.Lambda([v], z3.And(Val.is_vstr(v), self.has(Val.s(v)))))
            s.pyclass = list
        return s
    m_keys = iterate

    def m_items(self, E):
        if self.stage is not None:
            raise Unsupported("items of changed slots")
        n = abschunk.names(E, self.c)
        return SeqV(n.n, lambda i: (n.elem(i), self.m___getitem__(E, n.elem(i))), tag="given slots")

    def m_copy(self, E):
        g = Given(E, self.c)
        g.stage, g.T, g.stage2, g.over = self.stage, self.T, self.stage2, list(self.over)
        return g


class Fields(Model):
    """The contents collected for the fields."""
    pyclass = dict

    def __init__(self, c, stage, T=None, stage2=None):
        super().__init__()
        self.c, self.stage, self.T, self.stage2, self.over = c, stage, T, stage2, []

    def base(self, E, x):
        abschunk.name_fact(E, self.c, x)
        r = L.HASN(self.c, x) if self.stage is None else z3.And(L.HASN(self.c, x), abschunk.IDX(self.c, x) < self.stage)
        if self.T is not None:
            abschunk.name_fact(E, self.T, x)
            r = z3.Or(r, z3.And(L.HASN(self.T, x), abschunk.IDX(self.T, x) < self.stage2) if self.stage2 is not None else L.HASN(self.T, x))
        return r

    def at(self, E, x):
        """(has, content) at slot x"""
        h, v = self.base(E, x), z3.If(L.HASN(self.c, x), wanted(self.c, x), SV.svEmpty)
        for s, c in self.over:
            h, v = z3.Or(s == x, h), z3.If(s == x, content_term(E, c), v)
        return h, v

    def slot(self, E, k):
        s = abschunk.strip_(E, k)
        if s is None:
            raise Unsupported("field %r" % (k,))
        return s

    def m___contains__(self, E, k):
        x = self.slot(E, k)
        return Sym(self.at(E, x)[0])

    def m___setitem__(self, E, k, v):
        E.write(self, "f")
        self.over.append((self.slot(E, k), v))

    def m_setdefault(self, E, k, v=None):
        if not E.branch(self.at(E, self.slot(E, k))[0]):
            self.m___setitem__(E, k, v)

    def iterate(self, E):
        if self.stage is not None and z3.simplify(self.stage).eq(z3.simplify(L.NSLOTS(self.c))):
            self.stage = None
        if self.over or self.stage is not None or self.stage2 is not None:
            raise Unsupported("fields read while they are collected")
        v = z3.Const("v!fk", Val)
        f = Val.s(v)
        return accumulated(E, z3.Lambda([v], z3.And(Val.is_vstr(v), z3.Or(L.FIELDOF(self.c, f), L.FIELDOF(self.T, f)) if self.T is not None else L.FIELDOF(self.c, f))))
    m_keys = iterate


def typeinfo(fields):
    """the array of the fields of a type"""
    return fields.vs_arr if getattr(fields, "vs_arr", None) is not None else None


class ChunkTypes(Types):
    """Types whose namedtuples can be used."""
    def __init__(self, E, c, gh, log):
        super().__init__(E)
        self.c, self.gh, self.log = c, gh, log

    def old(self, E, s):
        T = TYID(s)
        self.gh(E, T)
        q = abschunk.names(E, T, "_")
        q.tag = "type fields"
        q.T = T
        v = z3.Const("v!tf", Val)
        q.vs_arr = z3.Lambda([v], z3.And(Val.is_vstr(v), L.FIELDOF(T, Val.s(v))))
        return NType(q, lambda E, *a, **k: self.make(E, q, a, k))

    def make(self, E, q, a, k):
        f = k.pop("**", None)
        if a or k or not isinstance(f, (Fields, DictV)):
            raise Unsupported("contents of the fields")
        if isinstance(f, DictV):
            if f.pairs:
                raise Unsupported("contents of the fields")
            arr = z3.K(Val, z3.BoolVal(False))
        else:
            arr = f.iterate(E).vs_arr
        v = z3.Const("v!mk%d" % E.next_q(), L.S)
        agree = z3.ForAll([v], z3.Select(q.vs_arr, VS(v)) == z3.Select(arr, VS(v)))
        if not E.branch(agree):
            raise engine.bexc("TypeError", "unexpected or missing field")
        t = Model()
        t.pyclass = tuple
        self.log.append((q, f, t))
        return t


def new_chunk(known):
    def run_(E):
        setup(E)
        c = E.fresh("given", L.I)
        fd = Field(E)
        if fd.g is None:
            raise PathEnd()
        g = fd.g
        ghosts = lambda E, i: fd.of(E, i)
        made = []
        types = ChunkTypes(E, c, ghosts, made)
        tn = string(E, "typename")
        T = TYID(tn.t)
        Chunk = cls(E, CH)
        Chunk.ns["_chunktypes"] = types
        special = [E.str_term(k) for k, _ in E.modules["pyactr.utilities"].ns["SPECIALCHUNKTYPES"].pairs]
        builtin = z3.Or(*[tn.t == k for k in special])
        fd.of(E, c)
        fd.of(E, T)
        is_known = types.known(E, tn.t)
        E.assume(z3.Implies(builtin, TYHAS(tn.t)))
        E.assume(is_known if known else z3.Not(is_known))
        given = Given(E, c)

        def split(E, a, k):
            t = E.str_term(a[0] if a else k["info"])
            if E.branch(SPERR(t)):
                raise engine.PyExc(cls(E, "pyactr.utilities.ACTRError"), ["more than one value or variable"])
            E.fact(z3.And(L.NLEN(SNG(t)) >= 0, L.NLEN(SNV(t)) >= 0))
            return DictV([["variables", SetV([Sym(SPX(t))] if E.branch(HASX(t)) else [])], ["values", SetV([Sym(SPV(t))] if E.branch(HASV(t)) else [])],
                          ["negvariables", Negs(E, SNV(t), True)], ["negvalues", Negs(E, SNG(t), False)]])
        E.contracts["pyactr.utilities.stringsplitting"] = split

        def text(E, a, k):
            v = a[0]
            if isinstance(v, Sym) and v.t.sort() == L.R:
                return Sym(NUMSTR(v.t))
            return lib.HANDLERS["builtins.str"](E, a, k)
        E.contracts["ext:builtins.str"] = text
        refused = []

        def chunktype(E, a, k):
            env = E.bind(F(E, CT), a, k)
            names = lib.iterate(E, env["field_names"])
            if isinstance(names, list):
                raise Unsupported("a type with the slots %r" % (names,))
            nm = E.str_term(env["cls_name"])
            if E.branch(z3.Or(*[nm == s for s in special])):
                refused.append("builtin")
                raise engine.PyExc(cls(E, "pyactr.utilities.ACTRError"), ["built-in"])
            has = lambda s: z3.Select(names.vs_arr, VS(s)) if getattr(names, "vs_arr", None) is not None else lib.fml(E, lib.contains(E, names, Sym(s)))
            if E.branch(z3.Or(has(z3.StringVal("isa")), has(z3.StringVal("ISA")))):
                refused.append("isa")
                raise engine.PyExc(cls(E, "pyactr.utilities.ACTRError"), ["isa"])
            E.prove("a type is only made or extended with the slots given and those it has", has(g) == z3.Or(L.HASN(c, g), L.HASN(T, g) if known else z3.BoolVal(False)))
            E.prove("under the name of the chunk's type", nm == tn.t)
            v = z3.Const("v!nt", Val)
            f = Val.s(v)
            q = SeqV(E.fresh("nfields", L.I), lambda i: E.unsupported("field"), tag="new fields")
            q.vs_arr = z3.Lambda([v], z3.And(Val.is_vstr(v), z3.Or(L.FIELDOF(c, f), L.FIELDOF(T, f)) if known else L.FIELDOF(c, f)))
            types.made.append((nm, NType(q, lambda E, *a, **k: types.make(E, q, a, k))))
            return None
        E.contracts[CT] = chunktype

        gv = [given]

        def at(fr):
            gv[0] = next((v for v in fr.locals.values() if isinstance(v, Given)), gv[0])

        class Slots(LoopSpec):
            name = "slots given"
            def modifies(self, E):
                return [(gv[0].uid, "*")]

            def heap_inject(self, E, i):
                gv[0].stage, gv[0].over = i, []

            def heap_check(self, E, i):
                return [("no slot is added", z3.And(*[z3.Implies(s == g, L.HASN(c, g)) for s, _ in gv[0].over]) if gv[0].over else True)]

            def holds(self, E, i, v):
                if isinstance(v, DictV) and not v.pairs:
                    return z3.Not(z3.And(L.HASN(c, g), abschunk.IDX(c, g) < i))
                if not isinstance(v, Fields):
                    return False
                h, w = v.at(E, g)
                return z3.And(h == z3.And(L.HASN(c, g), abschunk.IDX(c, g) < i), z3.Implies(h, w == wanted(c, g)))

            def roles(self, E):
                return [Role("kwargs", lambda E, i: Fields(c, i), self.holds)]
        E.loops["given slots"] = lambda E, fr, seq: (at(fr), Slots())[1]

        def local(fr):
            return [v for v in fr.locals.values() if isinstance(v, Fields)]

        class OfType(LoopSpec):
            name = "slots of the type"

            def __init__(self, f):
                self.f = f
                self.modifies = [(gv[0].uid, "*"), (f.uid, "*")]

            def base(self, E):
                E.prove("all slots given are there first", z3.And(self.f.stage is None or z3.simplify(self.f.stage).eq(z3.simplify(L.NSLOTS(c))), not self.f.over))

            def heap_inject(self, E, i):
                gv[0].T, gv[0].stage2, gv[0].over = T, i, []
                self.f.stage, self.f.T, self.f.stage2, self.f.over = None, T, i, []

            def want(self, i):
                return z3.Or(L.HASN(c, g), z3.And(L.HASN(T, g), abschunk.IDX(T, g) < i))

            def heap_check(self, E, i):
                h, w = self.f.at(E, g)
                out = [("a slot not given is empty, the others are as given", z3.And(h == self.want(i), z3.Implies(h, w == z3.If(L.HASN(c, g), wanted(c, g), SV.svEmpty)))),
                       ("the slots of the type are added", gv[0].has(g) == self.want(i))]
                return out

            def at_exit(self, E, n):
                self.f.stage2 = None
        E.loops["type fields"] = lambda E, fr, seq: (at(fr), OfType(local(fr)[0]))[1] if len(local(fr)) == 1 else None
        E.cover("precondition satisfiable")
        st, r = attempt(E, lambda: E.call(Chunk, [tn], {"**": given}))
        q = z3.Const("q!sl", L.S)
        more = z3.Exists([q], z3.And(L.FIELDOF(c, q), z3.Not(L.FIELDOF(T, q))))
        if st == "exc":
            bad = z3.Or(z3.Exists([q], z3.And(L.HASN(c, q), z3.Or(KIND(c, q) == 5, z3.And(KIND(c, q) >= 2, SPERR(z3.If(KIND(c, q) == 2, STRV(c, q), z3.If(KIND(c, q) == 3, NUMSTR(NUMV(c, q)), z3.StringVal("None")))))))), z3.And(builtin, more), z3.BoolVal("isa" in refused))
            E.prove("a chunk is refused only for an illegal or ill-formed value, a further slot of a built-in type or a slot isa", bad)
            return
        o = E.getattr(r, "actrchunk")
        ok = len(made) >= 1 and o is made[-1][2]
        E.prove("the chunk has the contents collected last", ok)
        if not ok:
            return
        t, f, _ = made[-1]
        h, w = f.at(E, g)
        has = z3.Select(t.vs_arr, VS(fd.f))
        E.prove("it has one content for every slot of its type, and no other", h == has)
        E.prove("its type has the slots given and those it had", has == z3.Or(L.HASN(c, g), L.HASN(T, g) if known else z3.BoolVal(False)))
        E.prove("a slot given has the content given", z3.Implies(L.HASN(c, g), w == wanted(c, g)))
        E.prove("a slot not given is empty", z3.Implies(z3.Not(L.HASN(c, g)), w == SV.svEmpty))
        E.prove("the type is the chunk's", z3.And(E.str_term(E.getattr(r, "typename")) == tn.t, z3.BoolVal(types.made[-1][1].fields is t) if types.made else z3.BoolVal(known)))
        bvs = E.getattr(r, "boundvars")
        E.prove("no variable is bound", isinstance(bvs, DictV) and not bvs.pairs)
    return run_


for _k in (True, False):
    REG.append(Task("a chunk of a %s type" % ("known" if _k else "new"), new_chunk(_k), [CH + ".__init__"]))
