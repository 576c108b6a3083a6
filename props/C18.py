from dv.contract import *
from dv import core
from dv.core import ThrowEx
import z3
Is = z3.IntSort()
ID = "C18"
LEVEL = "proof"
REGS = {"srreal/PeakProfile.cpp": "PeakProfile", "srreal/PeakWidthModel.cpp": "PeakWidthModel", "srreal/PDFEnvelope.cpp": "PDFEnvelope",
        "srreal/PDFBaseline.cpp": "PDFBaseline", "srreal/ScatteringFactorTable.cpp": "ScatteringFactorTable", "srreal/AtomRadiiTable.cpp": "AtomRadiiTable"}
TUS = ["Attributes.cpp"] + sorted(REGS)
HARNESS = "C18.cpp"
BOUNDED = ["every attribute of every class of the library (getter and setter reached through function pointers), visits of the components by the PDF calculators",
           "the types registered at the start of the program"]
ASSUMPTIONS = ["accept() presents each component once to the visitor (harness); virtual type() is the type an object was created for",
               "an attribute's getter has no effect, its setter may change the values of attributes but not which are registered"]
A = "diffpy::attributes::"
AA = A + "Attributes::"

# ------------------------------------------------------------------ one component
VALS = LV("$values", (), Map(I, R, False))     # what each getter yields now
NSET = LV("$nset", (), I)                      # number of setter calls
SETP = LV("$setwhat", (), I)
SETV = LV("$setvalue", (), R)
READONLY = z3.Function("readonly", Is, z3.BoolSort())


def val(c, p, old=False):
    v = c.ex.read(VALS, c.pre) if old else c.ex.read(VALS)
    return z3.Select(v.lv[("val",)], p)


def ghost(c, lv, old=False):
    return (c.ex.read(lv, c.pre) if old else c.ex.read(lv)).lv[()]


def ptr(call):
    # identity of the attribute object
    t = call.this
    t = t.lv if hasattr(t, "lv") and not isinstance(t, LV) else t
    if isinstance(t, LV):
        for x in t.path:
            if isinstance(x, tuple) and x[0] == "i":
                return x[1]
    raise core.Unsupported("attribute object %r" % (t,))


def getvalue(ex, call):
    return ex.vR(z3.Select(ex.read(VALS).lv[("val",)], ptr(call)))


def setvalue(ex, call):
    p = ptr(call)
    if ex.decide(READONLY(p)):
        raise ThrowEx("diffpy::attributes::DoubleAttributeError")
    ex.write(NSET, ex.vI(ex.read(NSET).lv[()] + 1))
    ex.write(SETP, ex.vI(p))
    ex.write(SETV, ex.vR(ex.t(call.args[1])))
    return V(VOID, {})


BA = A + "BaseDoubleAttribute::"
BASE = [Custom(BA + "getValue", getvalue, trusted="harness", name="BaseDoubleAttribute::getValue"),
        Custom(BA + "setValue", setvalue, trusted="harness", name="BaseDoubleAttribute::setValue"),
        Custom(BA + "isreadonly", lambda ex, call: ex.vB(READONLY(ptr(call))), trusted="harness", name="BaseDoubleAttribute::isreadonly")]
GH = [VALS, NSET, SETP, SETV]


def attrs(c):
    m = c.v(c.m("mdoubleattrs", c.args[0]))
    return m


def has(c, name):
    return z3.Select(attrs(c).lv[("dom",)], name)


def att(c, name):
    return z3.Select(attrs(c).lv[("val",)], name)


def name(c):
    return c.t("mname")


def nonnull(c):
    k = z3.Int("k!")
    return [("registered attributes exist", z3.ForAll([k], z3.Implies(has(c, k), att(c, k) != 0), patterns=[att(c, k)]))]


CV = AA + "CountDoubleAttrVisitor::"
GV = AA + "GetDoubleAttrVisitor::"
SV = AA + "SetDoubleAttrVisitor::"
NV = AA + "NamesOfDoubleAttributesVisitor::"
SPECS = [
    Spec(CV + "visit", post=lambda c: [("counts the component when it has the attribute", c.t("mcount") == c.ot("mcount") + z3.If(has(c, name(c)), 1, 0))], frame=lambda c: [c.lv("mcount")]),
    Spec(CV + "count", post=lambda c: [("the count", c.rt == c.t("mcount"))], frame=lambda c: []),
    Spec(GV + "visit", use=BASE, pre=nonnull, post=lambda c: [("takes the value the getter yields", c.t("mvalue") == z3.If(has(c, name(c)), val(c, att(c, name(c))), c.ot("mvalue")))],
         frame=lambda c: [c.lv("mvalue")]),
    Spec(GV + "getValue", post=lambda c: [("the value", c.rt == c.t("mvalue"))], frame=lambda c: []),
    Spec(SV + "visit", params=["const diffpy::attributes::Attributes &"], must_return=False, noexcept=False, name="SetVisitor::visit(const)", frame=lambda c: [],
         post=lambda c: [("a constant object is never written", z3.BoolVal(False))], raises=lambda c, e: [("nothing is set", ghost(c, NSET) == ghost(c, NSET, True))]),
    Spec(SV + "visit", params=["=diffpy::attributes::Attributes &"], use=BASE, pre=nonnull, name="SetVisitor::visit", frame=lambda c: GH,
         post=lambda c: [("calls the setter once when the component has the attribute", ghost(c, NSET) == ghost(c, NSET, True) + z3.If(has(c, name(c)), 1, 0)),
                         ("of that attribute with the value", z3.Implies(has(c, name(c)), z3.And(ghost(c, SETP) == att(c, name(c)), ghost(c, SETV) == c.t("mvalue"))))],
         raises=lambda c, e: [("only for a read-only attribute", z3.And(has(c, name(c)), READONLY(att(c, name(c))))), ("without effect", ghost(c, NSET) == ghost(c, NSET, True))]),
]


def names_post(c):
    n, n0 = c.v("mnames").lv[("dom",)], c.old("mnames").lv[("dom",)]
    k = z3.Int("k!")
    return [("adds the names of the component, without the read-only ones on request", z3.ForAll([k], z3.Select(n, k) == z3.Or(
        z3.Select(n0, k), z3.And(has(c, k), z3.Not(z3.And(c.t("mexcludereadonly"), READONLY(att(c, k)))))), patterns=[z3.Select(n, k)]))]


def names_loop(c, l):
    m = attrs(c)
    LIB.mapfacts(c.ex, m)
    n, n0 = c.v("mnames").lv[("dom",)], c.old("mnames").lv[("dom",)]
    k = z3.Int("k!")
    out = []
    if True:
        p = iterpos(c, l)
        out.append(("names so far", z3.And(0 <= p, p <= m.lv[("n",)], z3.ForAll([k], z3.Select(n, k) == z3.Or(
            z3.Select(n0, k), z3.And(has(c, k), z3.Select(m.lv[("pos",)], k) < p, z3.Not(z3.And(c.t("mexcludereadonly"), READONLY(att(c, k)))))),
            patterns=[z3.Select(n, k)]))))
    return out


SPECS += [Spec(NV + "visit", use=BASE, pre=nonnull, post=names_post, loops=names_loop, autoinv=False, frame=lambda c: [c.lv("mnames")]),
          Spec(NV + "names", frame=lambda c: [], post=lambda c: [("the collected names", z3.And(c.r.lv[("dom",)] == c.v("mnames").lv[("dom",)], c.r.lv[("n",)] == c.v("mnames").lv[("n",)]))])]

def iterpos(c, l):
    """position of the iterator that the loop moves"""
    return [c.ex.load(v).lv[("idx",)] for v in l.lvs().values() if isinstance(v, LV) and v.shape.kind == "iter" and (v.root, v.static() + ("idx",)) in l.mods][0]


def result(c, l):
    """the map or set that the loop fills"""
    return [c.ex.load(v) for v in l.lvs().values() if isinstance(v, LV) and v.shape.kind == "map" and v.root.startswith("%")][0]


# ------------------------------------------------------------------ the whole object
NCOMP = z3.Function("ncomponents", Is, Is)        # number of components with the attribute
THE = z3.Function("the_attribute", Is, Is)        # the attribute object when there is one


def accept(ex, call):
    """each component is visited once; visiting is under contract above"""
    v = call.args[0]
    v = ex.tolv(v) if not isinstance(v, LV) else v
    sh = v.shape
    fld = {k.split("::")[-1]: ex.refmembers.get((v.root, v.static(), k)) or v.f(k, s) for k, s in sh.fields.items()}
    kind = repr(sh)
    if "mcount" in fld:
        ex.write(fld["mcount"], ex.vI(ex.load(fld["mcount"]).lv[()] + NCOMP(ex.load(fld["mname"]).lv[()])))
        return V(VOID, {})
    nm = ex.load(fld["mname"]).lv[()]
    ex.check("attribute access only for a name that one component has", NCOMP(nm) == 1)
    const = call.fd.const if hasattr(call.fd, "const") else False
    if "SetDoubleAttr" in kind:
        p = THE(nm)
        if ex.decide(READONLY(p)):
            raise ThrowEx("diffpy::attributes::DoubleAttributeError")
        ex.write(NSET, ex.vI(ex.read(NSET).lv[()] + 1))
        ex.write(SETP, ex.vI(p))
        ex.write(SETV, ex.vR(ex.load(fld["mvalue"]).lv[()]))
    else:
        ex.write(fld["mvalue"], ex.vR(z3.Select(ex.read(VALS).lv[("val",)], THE(nm))))
    return V(VOID, {})


ACCEPT = Custom(AA + "accept", accept, trusted="harness", name="Attributes::accept")


def badname(c, e):
    n = NCOMP(c.at(0))
    return [("unknown name", z3.Implies(z3.BoolVal("DoubleAttributeError" in e), n == 0)), ("duplicate name", z3.Implies(z3.BoolVal("logic_error" in e), n > 1)),
            ("nothing is set", ghost(c, NSET) == ghost(c, NSET, True))]


CHECK = Spec(AA + "checkAttributeName", use=[ACCEPT], pre=lambda c: [("", NCOMP(c.at(0)) >= 0)], post=lambda c: [("exactly one component has the attribute", NCOMP(c.at(0)) == 1)],
             raises=badname, frame=lambda c: [])
SPECS += [CHECK,
          Spec(AA + "getDoubleAttr", use=[ACCEPT], pre=lambda c: [("", NCOMP(c.at(0)) >= 0)], raises=badname, frame=lambda c: [],
               post=lambda c: [("exactly one component has the attribute", NCOMP(c.at(0)) == 1), ("the value its getter yields", c.rt == val(c, THE(c.at(0))))]),
          Spec(AA + "setDoubleAttr", use=[ACCEPT], pre=lambda c: [("", NCOMP(c.at(0)) >= 0)], frame=lambda c: GH,
               raises=lambda c, e: [("unknown, duplicate or read-only name", z3.Or(NCOMP(c.at(0)) != 1, READONLY(THE(c.at(0))))), ("nothing is set", ghost(c, NSET) == ghost(c, NSET, True))],
               post=lambda c: [("one setter is called with the value", z3.And(NCOMP(c.at(0)) == 1, ghost(c, NSET) == ghost(c, NSET, True) + 1,
                                ghost(c, SETP) == THE(c.at(0)), ghost(c, SETV) == c.at(1), z3.Not(READONLY(THE(c.at(0))))))]),
          Spec(AA + "hasDoubleAttr", use=[ACCEPT], pre=lambda c: [("", NCOMP(c.at(0)) >= 0)], frame=lambda c: [],
               post=lambda c: [("a component has the attribute", c.rt == (NCOMP(c.at(0)) > 0))]),
          Spec(A + "throwDoubleAttributeReadOnly", must_return=False, frame=lambda c: [], post=lambda c: [("always raises", z3.BoolVal(False))],
               raises=lambda c, e: [("an attribute error", z3.BoolVal("DoubleAttributeError" in e))])]

# ------------------------------------------------------------------ registries
TYP = z3.Function("type_of", Is, Is)
ALLOC = LV("$alloc", (), I)


def obj(ex, call):
    t = call.this
    if isinstance(t, LV):
        if t.root == "this":
            return z3.IntVal(-1)
        for x in t.path:
            if isinstance(x, tuple) and x[0] == "i":
                return x[1]
    raise core.Unsupported("object %r" % (t,))


def mkreg(T):
    H = "diffpy::HasClassRegistry<diffpy::srreal::%s>::" % T
    SELF = z3.Int("self_type")

    def typ(ex, call):
        o = obj(ex, call)
        return V(ex.st.of(call.fd.ret), {(): SELF if z3.is_int_value(o) else TYP(o)})

    def create(ex, call):
        o = obj(ex, call)
        a = ex.read(ALLOC).lv[()]
        ex.write(ALLOC, ex.vI(a + 1))
        ex.assume(TYP(a) == (SELF if z3.is_int_value(o) else TYP(o)))
        return V(core_ptr(ex, call), {(): a})

    def core_ptr(ex, call):
        return ex.st.of(call.fd.ret)

    cache = {}

    def registry(ex, call):
        ty = call.fd.ret
        s = ex.st.of(ty)
        cache["s"] = s
        return LV("$registry", (), s)

    USE = [Custom(H + "type", typ, trusted="model", name=T + "::type"), Custom(H + "create", create, trusted="model", name=T + "::create"),
           Custom(H + "setupRegisteredObject", lambda ex, call: V(VOID, {}), trusted="model", name=T + "::setupRegisteredObject"),
           Custom(H + "getRegistry", registry, trusted="model", name=T + "::getRegistry")]

    def setup(c):
        fn = [f for f in c.ex.prog.byqn.get(H + "getRegistry", []) if f.body is not None][0]
        cache["lv"] = LV("$registry", (), c.ex.st.of(fn.fd.ret))

    def reg(c, old=False):
        m = c.ex.read(cache["lv"], c.pre) if old else c.ex.read(cache["lv"])
        return m.lv[("dom",)], m.lv[("val",)]

    def inv(c):
        d, v = reg(c)
        k = z3.Int("k!")
        al = c.ex.read(ALLOC).lv[()]
        return [("every prototype is registered under its own type", z3.ForAll([k], z3.Implies(z3.Select(d, k), z3.And(
            z3.Select(v, k) > 0, z3.Select(v, k) < al, z3.Select(d, TYP(z3.Select(v, k))), z3.Select(v, TYP(z3.Select(v, k))) == z3.Select(v, k))),
            patterns=[z3.Select(d, k), z3.Select(v, k)])), ("", al > 0)]

    def pre(c):
        LIB.mapfacts(c.ex, c.ex.read(cache["lv"]))
        return inv(c)

    def same(c):
        (d, v), (d0, v0) = reg(c), reg(c, True)
        k = z3.Int("k!")
        return z3.ForAll([k], z3.And(z3.Select(d, k) == z3.Select(d0, k), z3.Implies(z3.Select(d, k), z3.Select(v, k) == z3.Select(v0, k))), patterns=[z3.Select(d, k)])

    def others(c, key):
        (d, v), (d0, v0) = reg(c), reg(c, True)
        k = z3.Int("k!")
        return z3.ForAll([k], z3.Implies(k != key, z3.And(z3.Select(d, k) == z3.Select(d0, k), z3.Implies(z3.Select(d, k), z3.Select(v, k) == z3.Select(v0, k)))),
                         patterns=[z3.Select(d, k)])

    def S(fn, post=None, raises=None, **k):
        return Spec(H + fn, use=USE, setup=setup, pre=pre, post=post, raises=raises, name="HasClassRegistry<%s>::%s" % (T, fn), **k)

    def create_post(c):
        d, v = reg(c)
        r = c.r.lv[()]
        return [("the name is registered", z3.Select(d, c.at(0))), ("a new object", r >= c.ex.read(ALLOC, c.pre).lv[()]),
                ("of the registered type", TYP(r) == TYP(z3.Select(v, c.at(0)))), ("the registry stays", same(c))]

    def alias_post(c):
        (d, v), (d0, v0) = reg(c), reg(c, True)
        return [("the type is registered and the alias is not taken by another type", z3.And(z3.Select(d0, c.at(0)), z3.Implies(z3.Select(d0, c.at(1)), z3.Select(v0, c.at(1)) == z3.Select(v0, c.at(0))))),
                ("the alias names the same type", z3.And(z3.Select(d, c.at(1)), z3.Select(v, c.at(1)) == z3.Select(v0, c.at(0)))), ("no other name changes", others(c, c.at(1))),
                ("true", c.rt)] + inv(c)

    def alias_raise(c, e):
        d0, v0 = reg(c, True)
        return [("unknown type or taken alias", z3.Or(z3.Not(z3.Select(d0, c.at(0))), z3.And(z3.Select(d0, c.at(1)), z3.Select(v0, c.at(1)) != z3.Select(v0, c.at(0))))), ("without effect", same(c))]

    def reg_post(c):
        (d, v), (d0, v0) = reg(c), reg(c, True)
        p = z3.Select(v, SELF)
        return [("the type was not registered", z3.Not(z3.Select(d0, SELF))), ("it is now, by a new object of this type", z3.And(z3.Select(d, SELF), TYP(p) == SELF, p >= c.ex.read(ALLOC, c.pre).lv[()])),
                ("no other name changes", others(c, SELF)), ("true", c.rt)] + inv(c)

    def reg_raise(c, e):
        d0, v0 = reg(c, True)
        return [("the type is already registered", z3.Select(d0, SELF)), ("without effect", same(c))]

    def der_post(c):
        (d, v), (d0, v0) = reg(c), reg(c, True)
        k = z3.Int("k!")
        x = c.at(0)
        return [("all names of the type are removed, no others", z3.ForAll([k], z3.Select(d, k) == z3.And(z3.Select(d0, k), z3.Or(
                    z3.Not(z3.Select(d0, x)), z3.Select(v0, k) != z3.Select(v0, x))), patterns=[z3.Select(d, k)])),
                ("the others stay", z3.ForAll([k], z3.Implies(z3.Select(d, k), z3.Select(v, k) == z3.Select(v0, k)), patterns=[z3.Select(v, k)])),
                ("number of removed names", c.rt == c.ex.read(cache["lv"], c.pre).lv[("n",)] - c.ex.read(cache["lv"]).lv[("n",)])] + inv(c)

    def der_loop(c, l):
        (d, v), (d0, v0) = reg(c), reg(c, True)
        m, m0 = c.ex.read(cache["lv"]), c.ex.read(cache["lv"], c.pre)
        LIB.mapfacts(c.ex, m)
        k, q = z3.Int("k!"), z3.Int("q!")
        x = c.at(0)
        P = z3.Select(v0, x)
        out = []
        pos = m.lv[("pos",)]
        ii = iterpos(c, l)
        rv = [t for nm, t, t0 in l.counters() if nm.startswith("%") and "idx" not in nm][0]
        return [("position", z3.And(0 <= ii, ii <= m.lv[("n",)])),
                ("names seen so far", z3.ForAll([k], z3.Implies(z3.Select(d, k), z3.And(z3.Select(d0, k), z3.Select(v, k) == z3.Select(v0, k), z3.Or(z3.Select(pos, k) >= ii, z3.Select(v0, k) != P))), patterns=[z3.Select(d, k)])),
                ("removed only names of the type", z3.ForAll([k], z3.Implies(z3.And(z3.Select(d0, k), z3.Select(v0, k) != P), z3.Select(d, k)), patterns=[z3.Select(d, k)])),
                ("count", rv == m0.lv[("n",)] - m.lv[("n",)]), ("found", z3.Select(d0, x))]

    def setres(c):
        return c.r.lv[("dom",)]

    def types_post(c):
        d, v = reg(c)
        k = z3.Int("k!")
        r = setres(c)
        return [("every registered type is reported", z3.ForAll([k], z3.Implies(z3.Select(d, k), z3.Select(r, TYP(z3.Select(v, k)))), patterns=[z3.Select(v, k)])),
                ("only types registered under their own name", z3.ForAll([k], z3.Implies(z3.Select(r, k), z3.And(z3.Select(d, k), TYP(z3.Select(v, k)) == k)), patterns=[z3.Select(r, k)])),
                ("the registry stays", same(c))]

    def types_loop(c, l):
        d, v = reg(c)
        m = c.ex.read(cache["lv"])
        LIB.mapfacts(c.ex, m)
        r = result(c, l).lv[("dom",)]
        p = iterpos(c, l)
        k = z3.Int("k!")
        return [("position", z3.And(0 <= p, p <= m.lv[("n",)])),
                ("types so far", z3.ForAll([k], z3.Implies(z3.And(z3.Select(d, k), z3.Select(m.lv[("pos",)], k) < p), z3.Select(r, TYP(z3.Select(v, k)))), patterns=[z3.Select(v, k)])),
                ("nothing else", z3.ForAll([k], z3.Implies(z3.Select(r, k), z3.And(z3.Select(d, k), TYP(z3.Select(v, k)) == k)), patterns=[z3.Select(r, k)])),
                ("registry", same(c))]

    def aliased_post(c):
        d, v = reg(c)
        k = z3.Int("k!")
        r, rv = c.r.lv[("dom",)], c.r.lv[("val",)]
        return [("exactly the names that differ from their type", z3.ForAll([k], z3.Select(r, k) == z3.And(z3.Select(d, k), TYP(z3.Select(v, k)) != k), patterns=[z3.Select(r, k)])),
                ("with their type", z3.ForAll([k], z3.Implies(z3.Select(r, k), z3.Select(rv, k) == TYP(z3.Select(v, k))), patterns=[z3.Select(rv, k)])), ("the registry stays", same(c))]

    def aliased_loop(c, l):
        d, v = reg(c)
        m = c.ex.read(cache["lv"])
        LIB.mapfacts(c.ex, m)
        x = result(c, l)
        r, rv = x.lv[("dom",)], x.lv[("val",)]
        p = iterpos(c, l)
        k = z3.Int("k!")
        return [("position", z3.And(0 <= p, p <= m.lv[("n",)])),
                ("names so far", z3.ForAll([k], z3.Select(r, k) == z3.And(z3.Select(d, k), z3.Select(m.lv[("pos",)], k) < p, TYP(z3.Select(v, k)) != k), patterns=[z3.Select(r, k)])),
                ("their types", z3.ForAll([k], z3.Implies(z3.Select(r, k), z3.Select(rv, k) == TYP(z3.Select(v, k))), patterns=[z3.Select(rv, k)])), ("registry", same(c))]

    return [S("createByType", create_post, lambda c, e: [("unknown name", z3.And(z3.BoolVal("invalid_argument" in e), z3.Not(z3.Select(reg(c, True)[0], c.at(0))))), ("without effect", same(c))]),
            S("aliasType", alias_post, alias_raise), S("registerThisType", reg_post, reg_raise), S("deregisterType", der_post, loops=der_loop, noexcept=True, autoinv=False),
            S("isRegisteredType", lambda c: [("the name is registered", c.rt == z3.Select(reg(c)[0], c.at(0))), ("the registry stays", same(c))], noexcept=True),
            S("getRegisteredTypes", types_post, loops=types_loop, noexcept=True, autoinv=False), S("getAliasedTypes", aliased_post, loops=aliased_loop, noexcept=True, autoinv=False)]


for f in sorted(REGS):
    SPECS += mkreg(REGS[f])
