"""contract of the loop that sums all pair contributions (PQEvaluatorBasic::updateValue), shared by C02, C03, C20"""
from dv.contract import *
from dv.shapes import packkey, keysort, pair, Map
import z3
N = "diffpy::srreal::"
G = N + "BaseBondGenerator::"
E = N + "PQEvaluatorBasic::"
II = pair(I, I)
Is, Bs = z3.IntSort(), z3.BoolSort()
# the structure and its bonds: number of sites, bonds of an anchor with sites [0, hi) (property C04), masks (C03)
SITES = z3.Int("SITES")
CNT = z3.Function("CNT", Is, Is, Is)            # number of bonds for (anchor, hi)
SITE1 = z3.Function("SITE1", Is, Is, Is, Is)    # second site of the k-th bond for (anchor, hi)
MASK = z3.Function("MASK", Is, Is, Bs)
HASMASK = z3.Bool("HASMASK")
OFF = z3.Function("OFF", Is, Bs, Is)            # bonds of the anchors before this one, for either sum mode
CONTR = LV("$contributions", (), Map(II, I, False))
BND = {n: LV("$bonds." + n, (), I) for n in ("anchor", "hi", "k")}
CLICKS = LV("$clicks", (), I)


def K(i, j):
    return packkey(II, {("first",): i, ("second",): j})


def axioms():
    a, h, k, i, j = z3.Ints("a!x h!x k!x i!x j!x")
    f = z3.Bool("f!x")
    return [SITES >= 0, z3.ForAll([a, h], CNT(a, h) >= 0, patterns=[CNT(a, h)]),
            z3.ForAll([a, h, k], z3.Implies(z3.And(0 <= k, k < CNT(a, h)), z3.And(0 <= SITE1(a, h, k), SITE1(a, h, k) < h)), patterns=[SITE1(a, h, k)]),
            z3.ForAll([i, j], MASK(i, j) == MASK(j, i), patterns=[MASK(i, j)]),
            z3.ForAll([i, j], z3.Or(HASMASK, MASK(i, j)), patterns=[MASK(i, j)]),
            z3.ForAll([f], OFF(0, f) == 0, patterns=[OFF(0, f)]),
            z3.ForAll([a, f], z3.Implies(a >= 0, OFF(a + 1, f) == OFF(a, f) + CNT(a, z3.If(f, SITES, a + 1))), patterns=[OFF(a, f)])]


def get(ex, n):
    return ex.load(BND[n]).lv[()]


def put(ex, n, t):
    ex.write(BND[n], ex.vI(t))


def void():
    return V(VOID, {})


def g_anchor(ex, call):
    put(ex, "anchor", ex.t(call.args[0]))
    put(ex, "k", ex.fresh("k", Is))
    return void()


def g_range(ex, call):
    ex.check("site range starts at the first site", ex.t(call.args[0]) == 0)
    put(ex, "hi", ex.t(call.args[1]))
    put(ex, "k", ex.fresh("k", Is))
    return void()


def g_rewind(ex, call):
    put(ex, "k", z3.IntVal(0))
    return void()


def g_next(ex, call):
    put(ex, "k", get(ex, "k") + 1)
    return void()


def g_finished(ex, call):
    return ex.vB(get(ex, "k") >= CNT(get(ex, "anchor"), get(ex, "hi")))


def g_site1(ex, call):
    return ex.vI(SITE1(get(ex, "anchor"), get(ex, "hi"), get(ex, "k")))


def contribution(ex, call):
    a, h, k = (get(ex, n) for n in ("anchor", "hi", "k"))
    ex.check("a contribution is of a valid bond", z3.And(0 <= k, k < CNT(a, h)))
    v = ex.read(CONTR).lv[("val",)]
    ex.writeleaf(CONTR, ("val",), z3.Store(v, K(a, k), z3.Select(v, K(a, k)) + ex.t(call.args[1])))
    return void()


def newbonds(ex, call):
    v = ex.freshV(ex.st.of(call.fd.ret), "bonds")
    ex.assume(v.lv[()] != 0)
    return v


def member(lv, name):
    for k, sh in lv.shape.fields.items():
        if k.split("::")[-1] == name:
            return lv.f(k, sh)


def assign(ex, call):
    """the structure is never null afterwards"""
    lv = member(call.this, "mstructure")
    v = ex.freshV(lv.shape, "structure")
    ex.assume(v.lv[()] != 0)
    ex.write(lv, v)
    return void()


def click(ex, call):
    ex.write(CLICKS, ex.vI(ex.load(CLICKS).lv[()] + 1))
    return void()


STR = N + "StructureAdapter::"
PQ = N + "PairQuantity::"
USE = [Custom(G + "selectAnchorSite", g_anchor, trusted="C04"), Custom(G + "selectSiteRange", g_range, trusted="C04"),
       Custom(G + "rewind", g_rewind, trusted="C04"), Custom(G + "next", g_next, trusted="C04"), Custom(G + "finished", g_finished, trusted="C04"),
       Custom(G + "site1", g_site1, trusted="C04"),
       Custom(STR + "createBondGenerator", newbonds, trusted="C04"),
       Custom(STR + "countSites", lambda ex, call: ex.vI(SITES)),
       Custom(PQ + "assignStructure", assign, trusted="sets the structure, resets the value and updates the masks (C01, C03)"),
       Custom(PQ + "configureBondGenerator", lambda ex, call: void(), trusted="C04, C12"),
       Custom(PQ + "hasMask", lambda ex, call: ex.vB(HASMASK), trusted="C03"),
       Custom(PQ + "getPairMask", lambda ex, call: ex.vB(MASK(ex.t(call.args[0]), ex.t(call.args[1]))), trusted="C03"),
       Custom(PQ + "addPairContribution", contribution, trusted="each calculator's own property"),
       Custom("diffpy::eventticker::EventTicker::click", click, trusted="C19")]
FULL = z3.Bool("FULL")
USE.append(Custom(E + "getFlag", lambda ex, call: ex.vB(FULL), trusted="reads one bit of mconfigflags"))


def hi(a):
    return z3.If(FULL, SITES, a + 1)


def chop_outer(c):
    n = z3.ToReal(c.old("mncpu").lv[()])
    return n <= z3.ToReal(SITES - 1) * z3.RealVal("0.1") + 1


def mine(c, a, k):
    n, p = c.v("mncpu").t, c.v("mcpuindex").t
    return z3.Or(n == 1, z3.If(z3.ToReal(n) <= z3.ToReal(SITES - 1) * VAR + 1, (p + a) % n == 0, (p + OFF(a, FULL) + k) % n == 0))


VAR = z3.Real("CPU_LOAD_VARIANCE")


def expected(c, a, k):
    j = SITE1(a, hi(a), k)
    return z3.If(z3.And(0 <= a, a < SITES, 0 <= k, k < CNT(a, hi(a)), mine(c, a, k), MASK(a, j)), z3.If(z3.Or(FULL, a == j), z3.IntVal(1), z3.IntVal(2)), z3.IntVal(0))


def pre(c):
    q = z3.Const("q!p", keysort(II))
    return [("at least one CPU", c.v("mncpu").t >= 1), ("cpu index", c.v("mcpuindex").t >= 0),
            ("nothing summed yet", z3.ForAll([q], z3.Select(c.ex.read(CONTR).lv[("val",)], q) == 0))]


def post(c):
    a, k = z3.Ints("a!p k!p")
    v = c.ex.read(CONTR).lv[("val",)]
    return [("every bond that belongs to this CPU and is not masked is added exactly once, no other", z3.ForAll([a, k], z3.Select(v, K(a, k)) == expected(c, a, k))),
            ("the value is marked as new", c.ex.read(CLICKS).t > c.ex.read(CLICKS, c.pre).t)]


def loops(c, l):
    ex = c.ex
    a, k = z3.Ints("a!l k!l")
    v = ex.read(CONTR).lv[("val",)]
    n = l.lvs()
    inner = any(r == "$bonds.k" for r, p in l.mods) and not any(r == "$bonds.anchor" for r, p in l.mods)
    loc = {nm: ex.load(n[nm]).t for nm in n if isinstance(n[nm], LV) and n[nm].shape is I and n[nm].root.startswith("%")}
    mods = [(nm, t, t0) for nm, t, t0 in l.counters() if not nm.startswith("$")]
    ncpu, p = c.v("mncpu").t, c.v("mcpuindex").t
    outer = z3.ToReal(ncpu) <= z3.ToReal(SITES - 1) * VAR + 1
    out = []
    if not inner:
        for nm, t, t0 in mods:
            if t0 is not None and z3.is_int_value(z3.simplify(t0)) and z3.simplify(t0).as_long() == 0:
                i = t
        for nm, t, t0 in mods:
            if t is i:
                continue
            out.append(("loop counter %d" % len(out), t == p + z3.If(ncpu == 1, 0, z3.If(outer, i, OFF(i, FULL)))))
        out += [("anchors so far", z3.And(0 <= i, i <= SITES)),
                ("contributions so far", z3.ForAll([a, k], z3.Select(v, K(a, k)) == z3.If(a < i, expected(c, a, k), 0)))]
        return out
    i, h, kk = (get(ex, x) for x in ("anchor", "hi", "k"))
    for nm, t, t0 in mods:
        out.append(("loop counter %d" % len(out), t == t0 + z3.If(z3.And(ncpu > 1, z3.Not(outer)), kk, 0)))
    out += [("bonds so far", z3.And(0 <= kk, kk <= CNT(i, h))),
            ("contributions so far", z3.ForAll([a, k], z3.Select(v, K(a, k)) == z3.If(z3.Or(a < i, z3.And(a == i, k < kk)), expected(c, a, k), 0)))]
    return out


update = Spec(E + "updateValue", use=USE, pre=pre, post=post, loops=loops, axioms=axioms, autoinv=False, globals={N + "(anonymous namespace)::CPU_LOAD_VARIANCE": VAR},
              frame=lambda c: [c.lv("mtypeused"), member(c.args[0], "mstructure"), CONTR, CLICKS] + list(BND.values()))
