"""contract of the fast update of a pair sum (PQEvaluatorOptimized::updateValue), shared by C01 and C02"""
from dv.contract import *
from dv.core import PyPtr, ThrowEx, CMOD, tmod
from dv.shapes import packkey, keysort, pair, Map
from props.evalbasic import member, void, CONTR as CONTR1, K, II
import z3
N = "diffpy::srreal::"
G = N + "BaseBondGenerator::"
E = N + "PQEvaluatorBasic::"
O = N + "PQEvaluatorOptimized::"
PQ = N + "PairQuantity::"
Is, Bs = z3.IntSort(), z3.BoolSort()
CONTR0 = LV("$removed", (), Map(II, I, False))
# the difference of the structures: n = 0 the old structure and its removed sites, n = 1 the new one and its added sites
SITES = [z3.Int("SITES0"), z3.Int("SITES1")]
IN = [z3.Function("POPPED", Is, Bs), z3.Function("ADDED", Is, Bs)]
RANK = [z3.Function("RANK0", Is, Is), z3.Function("RANK1", Is, Is)]     # number of listed sites below
MASK = [z3.Function("MASK0", Is, Is, Bs), z3.Function("MASK1", Is, Is, Bs)]
FULL = None          # set for each of the two proofs
HASMASK, FIXED, PAIRMASK, ALLOWS = (z3.Bool(n) for n in ("HASMASK", "FIXEDINDEX", "HASPAIRMASK", "ALLOWSFASTUPDATE"))
NEWER0, METHOD = z3.Bool("CONFIG_NEWER_THAN_VALUE"), z3.Int("DIFFMETHOD")
SIDEBYSIDE = 1


def R(n):
    return RANK[n](SITES[n])


def U(n):
    return SITES[n] - R(n)


def indices(lv_el, lv_len, n):
    """the sequence lists the sites IN[n] in increasing order"""
    a, k = z3.Ints("a!i k!i")
    s = z3.Select(lv_el, a)
    return z3.And(lv_len == R(n), z3.ForAll([a], z3.Implies(z3.And(0 <= a, a < lv_len), z3.And(0 <= s, s < SITES[n], IN[n](s), RANK[n](s) == a)), patterns=[s]),
                  z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < SITES[n], IN[n](k)), z3.And(RANK[n](k) < lv_len, z3.Select(lv_el, RANK[n](k)) == k)), patterns=[RANK[n](k)]))


def axioms():
    out = []
    for n in (0, 1):
        k, l = z3.Ints("k!r l!r")
        r = RANK[n]
        out += [SITES[n] >= 0, r(0) == 0, z3.ForAll([k], z3.Implies(k >= 0, z3.And(r(k + 1) == r(k) + z3.If(IN[n](k), 1, 0))), patterns=[r(k), IN[n](k)]),
                z3.ForAll([k, l], z3.Implies(z3.And(0 <= k, k <= l), z3.And(r(k) <= r(l), r(l) - r(k) <= l - k)), patterns=[z3.MultiPattern(r(k), r(l))]),
                z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < SITES[n]), z3.If(IN[n](k), r(k) < R(n), k - r(k) < U(n))), patterns=[r(k)]),
                z3.ForAll([k, l], MASK[n](k, l) == MASK[n](l, k), patterns=[MASK[n](k, l)]), z3.ForAll([k, l], z3.Or(HASMASK, MASK[n](k, l)), patterns=[MASK[n](k, l)])]
    return out


# ---- complementary_indices ------------------------------------------------------------------------------------------


def comp_facts(el, ln, n):
    a, k = z3.Ints("a!c k!c")
    s = z3.Select(el, a)
    return [("as many as there are other sites", ln == U(n)),
            ("each is another site, in increasing order", z3.ForAll([a], z3.Implies(z3.And(0 <= a, a < ln), z3.And(0 <= s, s < SITES[n], z3.Not(IN[n](s)), s - RANK[n](s) == a)), patterns=[s])),
            ("every other site is listed", z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < SITES[n], z3.Not(IN[n](k))), z3.And(k - RANK[n](k) < ln, z3.Select(el, k - RANK[n](k)) == k)), patterns=[RANK[n](k)]))]


def arr(c, x):
    v = c.ex.load(x) if isinstance(x, LV) else x
    return v.lv[("el",)], v.lv[("len",)]


def comp_pre(c):
    e, n = arr(c, c.args[1])
    return [("number of sites", c.at(0) == SITES[0]), ("sites in increasing order", indices(e, n, 0))]


def comp_loops(c, l):
    e, n = None, None
    for r, p in sorted(l.mods, key=repr):
        if r.startswith("%") and p and p[-1] == "len":
            e, n = l.ex.mem[r][p[:-1] + ("el",)], l.ex.mem[r][p]
    it = ks = None
    for r, p in sorted(l.mods, key=repr):
        if r.startswith("%") and p == ("idx",) and r in l.ex.mem:
            it = l.ex.mem[r][p]
    for nm, t, t0 in l.counters():
        if nm.startswith("%") and not nm.endswith((".len", ".idx")):
            k = t
    a, j = z3.Ints("a!l j!l")
    s = z3.Select(e, a)
    return [("position", z3.And(0 <= k, k <= SITES[0])), ("listed sites so far", it == RANK[0](k)), ("other sites so far", n == k - RANK[0](k)),
            ("each is another site", z3.ForAll([a], z3.Implies(z3.And(0 <= a, a < n), z3.And(0 <= s, s < k, z3.Not(IN[0](s)), s - RANK[0](s) == a)))),
            ("every other site is listed", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < k, z3.Not(IN[0](j))), z3.Select(e, j - RANK[0](j)) == j)))]


complementary = Spec(N + "(anonymous namespace)::complementary_indices", pre=comp_pre, post=lambda c: comp_facts(*arr(c, c.r), 0), loops=comp_loops, axioms=axioms, frame=lambda c: [], autoinv=False)


def comp_call(ex, call):
    """the contract above for either structure"""
    st = ex.load(STAGE).t
    n = 0 if z3.is_true(z3.simplify(st == 0)) else 1
    v = ex.load(call.args[1]) if isinstance(call.args[1], LV) else call.args[1]
    ex.check("complementary_indices: number of sites", ex.t(call.args[0]) == SITES[n])
    ex.check("complementary_indices: sites in increasing order", indices(v.lv[("el",)], v.lv[("len",)], n))
    rv = ex.freshV(ex.st.of(call.fd.ret), "complement")
    for nm, f in comp_facts(rv.lv[("el",)], rv.lv[("len",)], n):
        ex.assume(f)
    return rv


# ---- the generators, the calculator ---------------------------------------------------------------------------------
GS = {n: LV("$gen." + n, (), I) for n in ("ptr", "anchor", "lo", "hi", "k")}
SEL = LV("$gen.sel", (), Seq(I))
STAGE = LV("$stage", (), I)             # 0: old structure, 1: new structure was set
STASH, LIVE, COMPLETE, NEWER = LV("$stashed", (), B), LV("$live", (), B), LV("$complete", (), I), LV("$newer", (), B)
FULLSUM = LV("$fullsum", (), B)
DIFFED = LV("$diffed", (), B)


def get(ex, n):
    return ex.load(GS[n]).lv[()]


def put(ex, n, t):
    ex.write(GS[n], ex.vI(t))


def mine(ex, call):
    p = call.this.path[0][1]
    ex.check("bonds are taken from the generator of the current structure", get(ex, "ptr") == p)


def g_anchor(ex, call):
    mine(ex, call)
    put(ex, "anchor", ex.t(call.args[0]))
    put(ex, "k", ex.fresh("k", Is))
    return void()


def g_select(ex, call):
    mine(ex, call)
    f, l = (ex.load(a) if isinstance(a, LV) else a for a in call.args)
    ex.check("one sequence", z3.BoolVal(f.lv[("cont",)].lv.same(l.lv[("cont",)].lv)))
    ex.write(SEL, ex.load(f.lv[("cont",)].lv))
    put(ex, "lo", f.lv[("idx",)])
    put(ex, "hi", l.lv[("idx",)])
    put(ex, "k", ex.fresh("k", Is))
    return void()


def g_rewind(ex, call):
    mine(ex, call)
    put(ex, "k", get(ex, "lo"))
    return void()


def g_next(ex, call):
    mine(ex, call)
    put(ex, "k", get(ex, "k") + 1)
    return void()


def g_finished(ex, call):
    mine(ex, call)
    return ex.vB(get(ex, "k") >= get(ex, "hi"))


def cur(ex):
    return z3.Select(ex.load(SEL).lv[("el",)], get(ex, "k"))


def g_site1(ex, call):
    mine(ex, call)
    return ex.vI(cur(ex))


def contribution(ex, call):
    k = get(ex, "k")
    ex.check("a contribution is of a valid bond", z3.And(get(ex, "lo") <= k, k < get(ex, "hi")))
    n = stage(ex)
    ex.check("the value holds the contributions that are updated", ex.load(LIVE).t)
    lv = (CONTR0, CONTR1)[n]
    v = ex.read(lv).lv[("val",)]
    q = K(get(ex, "anchor"), cur(ex))
    ex.writeleaf(lv, ("val",), z3.Store(v, q, z3.Select(v, q) + ex.t(call.args[1])))
    return void()


def stage(ex):
    t = z3.simplify(ex.load(STAGE).t)
    return t.as_long()


STRU = [z3.Int("STRU0"), z3.Int("STRU1")]


def ptr(this):
    return this.path[0][1]


def newbonds(ex, call):
    n = stage(ex)
    ex.check("generator of the structure in question", ptr(call.this) == STRU[n])
    v = ex.freshV(ex.st.of(call.fd.ret), "bonds")
    ex.assume(v.lv[()] != 0)
    put(ex, "ptr", v.lv[()])
    for x in ("lo", "hi", "k", "anchor"):
        put(ex, x, ex.fresh(x, Is))
    return v


def count(ex, call):
    p = ptr(call.this)
    ex.check("a structure of the difference", z3.Or(p == STRU[0], p == STRU[1]))
    return ex.vI(z3.If(p == STRU[0], SITES[0], SITES[1]))


def diff(ex, call):
    rv = ex.freshV(ex.st.of(call.fd.ret), "sd")
    ex.assume(call.fd is not None)
    g = lambda n, *rest: [t for p, t in rv.lv.items() if p and p[0].split("::")[-1] == n and tuple(p[1:]) == rest][0]
    ex.assume(STRU[0] == ptr(call.this))
    arg = ex.load(call.args[0]) if isinstance(call.args[0], LV) else call.args[0]
    ex.assume(z3.Implies(STRU[0] == STRU[1], SITES[0] == SITES[1]))
    ex.assume(z3.And(STRU[0] != 0, STRU[1] != 0, g("stru0") == STRU[0], g("stru1") == STRU[1], arg.lv[()] == STRU[1]))
    ex.assume(indices(g("pop0", "el"), g("pop0", "len"), 0))
    ex.assume(indices(g("add1", "el"), g("add1", "len"), 1))
    ex.assume(g("diffmethod") == METHOD)
    ex.write(DIFFED, ex.vB(z3.BoolVal(True)))
    return rv


def assign(ex, call):
    arg = ex.load(call.args[0]) if isinstance(call.args[0], LV) else call.args[0]
    ex.check("the new structure is set", arg.lv[()] == STRU[1])
    lv = member(call.this, "mstructure")
    v = ex.freshV(lv.shape, "structure")
    ex.assume(v.lv[()] != 0)
    ex.write(lv, v)
    ex.write(STAGE, ex.vI(z3.IntVal(1)))
    ex.write(LIVE, ex.vB(z3.BoolVal(False)))
    ex.write(NEWER, ex.vB(ex.fresh("reconfigured", Bs)))
    return void()


def stash(ex, call):
    ex.write(STASH, ex.load(LIVE))
    return void()


def restore(ex, call):
    ex.write(LIVE, ex.load(STASH))
    return void()


def completely(ex, call):
    ex.write(COMPLETE, ex.vI(ex.load(COMPLETE).t + 1))
    ex.write(LIVE, ex.vB(z3.BoolVal(True)))
    lv = member(call.this, "mlast_structure")
    v = ex.freshV(lv.shape, "last")
    ex.assume(v.lv[()] != 0)
    ex.write(lv, v)
    arg = ex.load(call.args[1]) if isinstance(call.args[1], LV) else call.args[1]
    return void()


def clone(ex, call):
    v = ex.freshV(ex.st.of(call.fd.ret), "clone")
    ex.assume(v.lv[()] != 0)
    return v


def flag(ex, call):
    b = z3.simplify(ex.t(call.args[0])).as_long()
    return ex.vB({1: ex.load(FULLSUM).t, 2: FIXED}[b])


def click(ex, call):
    ex.write(NEWER, ex.vB(z3.BoolVal(False)))
    return void()


STR = N + "StructureAdapter::"
T = "diffpy::eventticker::EventTicker::"
USE = [Custom(G + "selectAnchorSite", g_anchor, trusted="C04"), Custom(G + "selectSites", g_select, trusted="C04"),
       Custom(G + "rewind", g_rewind, trusted="C04"), Custom(G + "next", g_next, trusted="C04"), Custom(G + "finished", g_finished, trusted="C04"),
       Custom(G + "site1", g_site1, trusted="C04"), Custom(STR + "createBondGenerator", newbonds, trusted="C04"), Custom(STR + "countSites", count),
       Custom(STR + "diff", diff, trusted="C15"), Custom(PQ + "getStructure", lambda ex, call: member(call.this, "mstructure")), Custom(STR + "clone", clone, trusted="a copy"),
       Custom(N + "convertToStructureAdapter", lambda ex, call: ex.load(call.args[0]) if isinstance(call.args[0], LV) else call.args[0], trusted="returns its argument"),
       Custom(N + "StructureDifference::allowsfastupdate", lambda ex, call: ex.vB(ALLOWS), trusted="C15"),
       Custom(PQ + "assignStructure", assign, trusted="sets the structure, resets the value and updates the masks (C03)"),
       Custom(PQ + "configureBondGenerator", lambda ex, call: void(), trusted="C04, C12"),
       Custom(PQ + "stashPartialValue", stash, trusted="keeps the value (C08 for PDFCalculator)"), Custom(PQ + "restorePartialValue", restore, trusted="brings the kept value back (C08 for PDFCalculator)"),
       Custom(PQ + "hasMask", lambda ex, call: ex.vB(HASMASK), trusted="C03"), Custom(PQ + "hasPairMask", lambda ex, call: ex.vB(PAIRMASK), trusted="C03"),
       Custom(PQ + "getPairMask", lambda ex, call: ex.vB(MASK[stage(ex)](ex.t(call.args[0]), ex.t(call.args[1]))), trusted="C03"),
       Custom(PQ + "addPairContribution", contribution, trusted="each calculator's own property"),
       Custom(PQ + "ticker", lambda ex, call: member(call.this, "mticker"), trusted="C07"),
       Custom(T + "operator>=", lambda ex, call: ex.vB(ex.load(NEWER).t), trusted="C19"), Custom(T + "operator<", lambda ex, call: ex.vB(z3.Not(ex.load(NEWER).t)), trusted="C19"),
       Custom(T + "click", click, trusted="C19"), Custom(E + "getFlag", flag, trusted="reads one bit of mconfigflags"),
       Custom(O + "updateValueCompletely", completely, trusted="its own contract"), Custom(N + "(anonymous namespace)::complementary_indices", comp_call)]


# ---- contract -------------------------------------------------------------------------------------------------------


POS = [z3.Function("POSITION%d" % n, Is, Is) for n in (0, 1)]
EXP = [z3.Function("EXPECTED%d" % n, Is, Is, Is) for n in (0, 1)]


def apos(n, k):
    return POS[n](k)


def defpos(n, k):
    """position of a site in the sequence of anchors"""
    return z3.If(IN[n](k), RANK[n](k) + (U(1) if n else 0), k - RANK[n](k) + (0 if n else R(0)))


def nanch(n):
    return z3.If(R(n) == 0, 0, SITES[n])


def span(n):
    """range of anchor positions that are visited"""
    if n == 0:
        return z3.IntVal(0), z3.If(FULL, nanch(0), R(0))
    return z3.If(FULL, z3.IntVal(0), nanch(1) - R(1)), nanch(1)


CHOSEN = [z3.Function("CHOSEN%d" % n, Is, Bs) for n in (0, 1)]


def chosen(c, n, a):
    return CHOSEN[n](a)


def defchosen(c, n, a):
    ncpu, p = c.v("mncpu").t, c.v("mcpuindex").t
    lo, hi = span(n)
    off = (span(0)[1] if n else 0) + a - lo
    return CMOD(p + off, ncpu) == 0


def expected(c, n, i, j):
    return EXP[n](i, j)


def defexp(c, n, i, j):
    lo, hi = span(n)
    a, b = apos(n, i), apos(n, j)
    valid = z3.And(0 <= i, i < SITES[n], 0 <= j, j < SITES[n], R(n) > 0, lo <= a, a < hi, chosen(c, n, a), MASK[n](i, j))
    full = z3.And(FULL, z3.Or(IN[n](i), IN[n](j)))
    half = z3.And(z3.Not(FULL), IN[n](i), (b >= a) if n == 0 else (b <= a))
    s = -1 if n == 0 else 1
    return z3.If(z3.And(valid, z3.Or(full, half)), z3.If(z3.Or(FULL, i == j), z3.IntVal(s), z3.IntVal(2 * s)), z3.IntVal(0))


def pre(c):
    q = z3.Const("q!p", keysort(II))
    zero = [z3.ForAll([q], z3.Select(c.ex.read(lv).lv[("val",)], q) == 0) for lv in (CONTR0, CONTR1)]
    return [("at least one CPU", c.v("mncpu").t >= 1), ("cpu index", c.v("mcpuindex").t >= 0), ("nothing changed yet", z3.And(*zero)),
            ("", z3.And(c.ex.read(STAGE).t == 0, c.ex.read(LIVE).t, c.ex.read(COMPLETE).t == 0, z3.Not(c.ex.read(DIFFED).t), c.ex.read(NEWER).t == NEWER0)),
            ("the structure is given", c.at(1) != 0)]


def setup(full):
    def f(c):
        global FULL
        FULL = z3.BoolVal(full)
        c.ex.mem.setdefault("$stage", {})[()] = z3.IntVal(0)
        c.ex.mem.setdefault("$fullsum", {})[()] = z3.BoolVal(full)
        i, j = z3.Ints("i!d j!d")
        for n in (0, 1):
            c.ex.assume(z3.ForAll([i], POS[n](i) == defpos(n, i), patterns=[POS[n](i)]))
            m = c.v("mncpu").t
            c.ex.assume(z3.ForAll([i], CMOD(i, m) == tmod(i, m), patterns=[CMOD(i, m)]))
            c.ex.assume(z3.ForAll([i], CHOSEN[n](i) == defchosen(c, n, i), patterns=[CHOSEN[n](i)]))
            c.ex.assume(z3.ForAll([i, j], EXP[n](i, j) == defexp(c, n, i, j), patterns=[EXP[n](i, j)]))
    return f


def post(c):
    ex = c.ex
    i, j = z3.Ints("i!p j!p")
    done = ex.read(COMPLETE).t
    fast = done == 0
    v = [ex.read(lv).lv[("val",)] for lv in (CONTR0, CONTR1)]
    t = [z3.Select(x, K(i, j)) for x in v]
    both = [z3.Select(x, K(i, j)) + z3.Select(x, K(j, i)) for x in v]
    out = [("complete evaluation at most once", z3.Or(done == 0, done == 1)),
           ("a fast update needs a value obtained after the last change of configuration", z3.Implies(fast, z3.Not(NEWER0))),
           ("a fast update needs the structure of that value", z3.Implies(fast, c.old("mlast_structure").lv[()] != 0)),
           ("a fast update needs a small difference", z3.Implies(fast, z3.And(ex.read(DIFFED).t, ALLOWS))),
           ("sites keep their indices when masks or results refer to them", z3.Implies(z3.And(fast, z3.Or(FIXED, PAIRMASK)), METHOD == SIDEBYSIDE)),
           ("the value is kept across the change of structure", z3.Implies(fast, z3.And(ex.read(LIVE).t, ex.read(STAGE).t == 1))),
           ("the configuration did not change with the structure", z3.Implies(fast, z3.Not(ex.read(NEWER).t))),
           ("the structure of the value is remembered", c.v("mlast_structure").lv[()] != 0)]
    for n, w in ((0, "removed"), (1, "added")):
        one = c.v("mncpu").t == 1
        s = -1 if n == 0 else 1
        out += [("contributions %s by this CPU" % w, z3.Implies(fast, z3.ForAll([i, j], t[n] == expected(c, n, i, j)))),
                ("lemma: every pair with a %s site counts once, no other pair" % w, z3.Implies(z3.And(fast, one), z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < SITES[n], 0 <= j, j < SITES[n], i != j),
                    both[n] == z3.If(z3.And(z3.Or(IN[n](i), IN[n](j)), MASK[n](i, j)), z3.IntVal(2 * s), 0))))),
                ("lemma: likewise bonds of a %s site to its own images" % w, z3.Implies(z3.And(fast, one), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < SITES[n]),
                    z3.Select(v[n], K(i, i)) == z3.If(z3.And(IN[n](i), MASK[n](i, i)), z3.IntVal(s), 0)))))]
    return out


def loops(c, l):
    ex = c.ex
    i, j = z3.Ints("i!l j!l")
    n = stage(ex)
    v = ex.read((CONTR0, CONTR1)[n]).lv[("val",)]
    if not any(r in ("$gen.k", "$gen.anchor") for r, p in l.mods):
        return []                       # the body is never reached on this path
    inner = not any(r == "$gen.anchor" for r, p in l.mods)
    lo, hi = span(n)
    sel = ex.load(SEL)
    slo, shi, k, ptr_ = (get(ex, x) for x in ("lo", "hi", "k", "ptr"))
    if inner:
        # the iterator of the outer loop does not move here: its position is that of the anchor
        anchor = get(ex, "anchor")
        a = apos(n, anchor)
        sp = z3.If(z3.And(n == 1, FULL, a < U(1)), RANK[1](j), apos(n, j)) if n else apos(n, j)
        special = z3.And(n == 1, FULL, a < U(1))
        return [("bonds so far", z3.And(slo <= k, z3.Or(k <= shi, k == slo))),
                ("this anchor is due", z3.And(chosen(c, n, a), lo <= a, a < hi, R(n) > 0, 0 <= anchor, anchor < SITES[n])),
                ("site of the current bond", z3.Implies(k < shi, z3.And(0 <= cur(ex), cur(ex) < SITES[n], z3.If(special, z3.And(IN[n](cur(ex)), RANK[n](cur(ex)) == k), POS[n](cur(ex)) == k)))),
                ("selected sites in position", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < SITES[n], slo <= sp, sp < shi, z3.Or(z3.Not(special), IN[n](j))), z3.Select(sel.lv[("el",)], sp) == j), patterns=[POS[n](j)])),
                ("contributions of other anchors", z3.ForAll([i, j], z3.Implies(i != anchor, z3.Select(v, K(i, j)) == z3.If(apos(n, i) < a, expected(c, n, i, j), 0)))),
                ("contributions of this anchor so far", z3.ForAll([j], z3.Select(v, K(anchor, j)) == z3.If(z3.And(0 <= j, j < SITES[n], sp < k), expected(c, n, anchor, j), 0)))]
    its = [(r, l.ex.mem[r][p], l.pre[r].get(p) if r in l.pre else None, l.ex.mem[r].get(("cont",))) for r, p in sorted(l.mods, key=repr) if r.startswith("%") and p == ("idx",) and r in l.ex.mem]
    its = [x for x in its if isinstance(x[3], PyPtr)]
    if len(its) != 1:
        raise Unsupported("one iterator expected %s %s" % (its, sorted(l.ex.mem)[:80]))
    a = its[0][1]
    anch = ex.load(its[0][3].lv)
    out = [("position", z3.And(lo <= a, a <= hi))]
    ncpu, p = c.v("mncpu").t, c.v("mcpuindex").t
    for nm, t, t0 in l.counters():
        if nm.startswith("%") and not nm.endswith((".len", ".idx")):
            out += [("loop counter", t == p + (span(0)[1] if n else 0) + a - lo), ("the turn of this CPU", (CMOD(t, ncpu) == 0) == CHOSEN[n](a))]
    out += [("contributions so far", z3.ForAll([i, j], z3.Select(v, K(i, j)) == z3.If(apos(n, i) < a, expected(c, n, i, j), 0)))]
    q = z3.Int("q!l")
    e = anch.lv[("el",)]
    out += [("anchors in position", z3.Implies(R(n) > 0, z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < SITES[n]), z3.And(0 <= POS[n](q), POS[n](q) < SITES[n], e[POS[n](q)] == q)), patterns=[POS[n](q)]))),
            ("the anchor at the position", z3.Implies(z3.And(0 <= a, a < nanch(n)), z3.And(0 <= e[a], e[a] < SITES[n], POS[n](e[a]) == a)))]
    # what is selected: all sites, or those of the difference
    b = z3.Int("b!l")
    whole = z3.And(slo == 0, shi == anch.lv[("len",)], sel.lv[("el",)] == anch.lv[("el",)])
    part = z3.And(slo == 0, shi == R(n), z3.ForAll([b], z3.Implies(z3.And(0 <= b, b < R(n)), z3.Select(sel.lv[("el",)], b) == z3.Select(anch.lv[("el",)], b + (U(1) if n else 0)))))
    flags = [l.ex.mem[r][p] for r, p in sorted(l.mods, key=repr) if r.startswith("%") and p == () and r in l.ex.mem and z3.is_bool(l.ex.mem[r][p])]
    if len(flags) != 1:
        return out + [("generator", get(ex, "ptr") == l.ex.read(GS["ptr"], l.pre).t)]
    need = flags[0]
    first, second = (whole, part) if n == 0 else (part, whole)
    turn = R(0) if n == 0 else U(1)
    out += [("selection", z3.Implies(z3.And(FULL, R(n) > 0), z3.If(need, first, second))), ("selection is changed in time", z3.Implies(z3.And(FULL, R(n) > 0, z3.Not(need)), a > turn)), ("generator", get(ex, "ptr") == l.ex.read(GS["ptr"], l.pre).t)]
    return out


def update(full, name):
    return Spec(O + "updateValue", use=USE, pre=pre, post=post, loops=loops, axioms=axioms, autoinv=False, setup=setup(full), maxpaths=3000, name=name, mergeconds=True,
              frame=lambda c: [c.lv("mtypeused"), c.lv("mlast_structure"), c.lv("mvalue_ticker"), member(c.args[0], "mstructure"), CONTR0, CONTR1, SEL, STAGE, STASH, LIVE, COMPLETE, NEWER, DIFFED] + list(GS.values()))
updates = [update(False, "updateValue (half sums)"), update(True, "updateValue (full sums)")]


# ---- updateValueCompletely ------------------------------------------------------------------------------------------
CLONED = LV("$cloned", (), I)
EVALUATED = LV("$evaluated", (), B)


def basic(ex, call):
    ex.check("no structure is remembered while the value is incomplete", member(call.this, "mlast_structure").shape is not None and ex.load(member(call.this, "mlast_structure")).lv[()] == 0)
    if ex.decide(ex.fresh("throws", Bs)):
        raise ThrowEx("std::exception")
    ex.write(EVALUATED, ex.vB(z3.BoolVal(True)))
    return void()


def cloned(ex, call):
    ex.check("the copy is taken after the evaluation", ex.load(EVALUATED).t)
    ex.check("of the structure of the quantity", ptr(call.this) == PQSTRU)
    v = clone(ex, call)
    ex.write(CLONED, ex.vI(v.lv[()]))
    return v


PQSTRU = z3.Int("PQSTRU")


def pqstru(ex, call):
    v = ex.load(member(call.this, "mstructure"))
    ex.assume(z3.And(PQSTRU != 0, v.lv[()] == PQSTRU))
    return v


completely_ = Spec(O + "updateValueCompletely", use=[Custom(E + "updateValue", basic, trusted="its own contract (C02)"), Custom(STR + "clone", cloned, trusted="a copy"),
                   Custom(PQ + "getStructure", pqstru)], pre=lambda c: [("", z3.Not(c.ex.read(EVALUATED).t))],
                   post=lambda c: [("the value was evaluated from scratch", c.ex.read(EVALUATED).t), ("a copy of the evaluated structure is remembered", c.v("mlast_structure").lv[()] == c.ex.read(CLONED).t)],
                   raises=lambda c, e: [("an interrupted evaluation leaves no structure to update from", c.v("mlast_structure").lv[()] == 0)],
                   frame=lambda c: [c.lv("mlast_structure"), CLONED, EVALUATED])
