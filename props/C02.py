"""Division of the work between CPUs and merging of the partial values."""
from dv.contract import *
from dv.shapes import packkey
from props import evalbasic
import z3
ID = "C02"
LEVEL = "proof"
TUS = ["srreal/PairQuantity.cpp", "srreal/PQEvaluator.cpp", "srreal/OverlapCalculator.cpp", "srreal/BondCalculator.cpp"]
HARNESS = "C02.cpp"
BOUNDED = ["fast updates split over CPUs, BondCalculator merging (std::sort, std::merge, std::set_difference): random histories on random structures, 1 to 7 CPUs"]
ASSUMPTIONS = ["an archive returns the value that was written to it"]
N = "diffpy::srreal::"
Q = N + "PairQuantity::"
E = N + "PQEvaluatorBasic::"
Is, Rs = z3.IntSort(), z3.RealSort()
member = evalbasic.member

# ---- which CPU ------------------------------------------------------------------------------------------------------


def upost(c):
    """each bond belongs to exactly one CPU: (p + x) mod n == 0 has one solution p in [0, n) for every x >= 0"""
    n, p, q, x = z3.Ints("n!u p!u q!u x!u")
    out = evalbasic.post(c)
    r = z3.If(x % n == 0, z3.IntVal(0), n - x % n)
    return out + [("some CPU takes the item", z3.ForAll([n, x], z3.Implies(z3.And(n >= 1, x >= 0), z3.And(0 <= r, r < n, (r + x) % n == 0))), []),
                  ("no two CPUs take the same item", z3.ForAll([n, x, p, q], z3.Implies(z3.And(n >= 1, x >= 0, 0 <= p, p < n, 0 <= q, q < n, (p + x) % n == 0, (q + x) % n == 0), p == q)), [])]


u = evalbasic.update
update = Spec(E + "updateValue", use=u.use, pre=u.pre, post=upost, loops=u.loops, axioms=u.axioms, autoinv=False, globals=u.globals, frame=u.frame)


def same(c, n):
    return c.v(n).t == c.old(n).t


setup = Spec(E + "setupParallelRun", raises=lambda c, e: [("only for less than one CPU", c.at(1) < 1)] + [("nothing is changed", same(c, n)) for n in ("mcpuindex", "mncpu")],
             post=lambda c: [("at least one CPU", c.v("mncpu").t >= 1), ("index of this CPU", c.v("mcpuindex").t == c.at(0)), ("number of CPUs", c.v("mncpu").t == c.at(1))],
             frame=lambda c: [c.lv("mcpuindex"), c.lv("mncpu"), c.lv("mvalue_ticker")])
ispar = Spec(E + "isParallel", post=lambda c: [("more than one CPU", c.rt == (c.v("mncpu").t > 1))], frame=lambda c: [], noexcept=True)

# ---- merging --------------------------------------------------------------------------------------------------------
MERGED = LV("$merged", (), I)       # number of executeParallelMerge calls
FINISHED = LV("$finished", (), I)   # number of finishValue calls, and the merged count at that time
ATFIN = LV("$atfin", (), I)
BAD = z3.Bool("BADDATA")            # executeParallelMerge rejects the data


def void():
    return V(VOID, {})


def domerge(ex, call):
    ex.write(MERGED, ex.vI(ex.load(MERGED).t + 1))
    return void()


def dofinish(ex, call):
    ex.write(FINISHED, ex.vI(ex.load(FINISHED).t + 1))
    ex.write(ATFIN, ex.load(MERGED))
    return void()


def cnt(c, lv, old=False):
    return c.ex.read(lv, c.pre).t if old else c.ex.read(lv).t


mmc = "mmergedvaluescount"
mergedata = Spec(Q + "mergeParallelData", use=[Custom(Q + "executeParallelMerge", domerge, trusted="its own contract below"), Custom(Q + "finishValue", dofinish)],
                 raises=lambda c, e: [("only when all parts were merged before", c.old(mmc).t >= c.at(1)), ("nothing is merged", z3.And(cnt(c, MERGED) == cnt(c, MERGED, True), same(c, mmc), cnt(c, FINISHED) == cnt(c, FINISHED, True)))],
                 post=lambda c: [("no more parts than CPUs", c.old(mmc).t < c.at(1)), ("the part is merged once", cnt(c, MERGED) == cnt(c, MERGED, True) + 1),
                                 ("and counted", c.v(mmc).t == c.old(mmc).t + 1),
                                 ("the value is finished with the last part and not before", cnt(c, FINISHED) == cnt(c, FINISHED, True) + z3.If(c.v(mmc).t == c.at(1), 1, 0)),
                                 ("after that part was merged", z3.Implies(c.v(mmc).t == c.at(1), cnt(c, ATFIN) == cnt(c, MERGED)))],
                 frame=lambda c: [c.lv(mmc), MERGED, FINISHED, ATFIN])
# ---- the partial value ----------------------------------------------------------------------------------------------
SENT = LV("$sent", (), Seq(R))
AR = "boost::archive::detail::interface_"


def arread(ex, call):
    ex.write(call.args[0], ex.read(SENT))
    return call.this


def val(c, mem=None):
    lv = c.lv("mvalue")
    return (c.ex.len(lv), lambda i: c.el(lv, i)) if False else lv


RD = Custom(AR + "iarchive<boost::archive::binary_iarchive>::operator>>", arread, trusted="boost serialization: reads back what was written")


def sent(c):
    v = c.ex.read(SENT)
    return v.lv[("n",)], v


def execpost(c):
    i = z3.Int("i!e")
    return [("same length", c.len("mvalue") == c.olen("mvalue")),
            ("the parts are added", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < c.len("mvalue")), c.el("mvalue", i) == c.el("mvalue", i, True) + c.el(SENT, i)))),
            ("the part has the size of the value", c.len(SENT) == c.len("mvalue"))]


execmerge = Spec(Q + "executeParallelMerge", use=[RD], post=execpost,
                 raises=lambda c, e: [("only when the sizes differ", c.len(SENT) != c.len("mvalue")), ("the value is unchanged", z3.BoolVal(True))],
                 frame=lambda c: [c.lv("mvalue")])
OC = N + "OverlapCalculator::"


def ovpost(c):
    i = z3.Int("i!o")
    n0 = c.olen("mvalue")
    return [("all values", c.len("mvalue") == n0 + c.len(SENT)),
            ("the earlier values stay, the part follows", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < c.len("mvalue")), c.el("mvalue", i) == z3.If(i < n0, c.el("mvalue", i, True), c.el(SENT, i - n0)))))]


ovmerge = Spec(OC + "executeParallelMerge", use=[RD], post=ovpost, frame=lambda c: [c.lv("mvalue"), c.lv("mneighborids"), c.lv("mneighborids_cached")])
WR = Custom(AR + "oarchive<boost::archive::binary_oarchive>::operator<<", lambda ex, call: wr(ex, call), trusted="boost serialization")
NSENT = LV("$nsent", (), I)


def wr(ex, call):
    ex.write(SENT, ex.load(call.args[0]))
    ex.write(NSENT, ex.vI(ex.load(NSENT).t + 1))
    return call.this


def getpost(c):
    i = z3.Int("i!g")
    return [("one value is sent", cnt(c, NSENT) == cnt(c, NSENT, True) + 1), ("all of it", c.len(SENT) == c.len("mvalue")),
            ("the value", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < c.len("mvalue")), c.el(SENT, i) == c.el("mvalue", i))))]


getdata = Spec(Q + "getParallelData", use=[WR], post=getpost, frame=lambda c: [SENT, NSENT])
reset = Spec(Q + "resetValue", post=lambda c: [("no part was merged", c.v(mmc).t == 0), ("size is kept", c.len("mvalue") == c.olen("mvalue")),
                                             ("zero", z3.ForAll([z3.Int("i!r")], z3.Implies(z3.And(0 <= z3.Int("i!r"), z3.Int("i!r") < c.len("mvalue")), c.el("mvalue", z3.Int("i!r")) == 0)))],
             frame=lambda c: [c.lv(mmc), c.lv("mvalue")])
SPECS = [getdata, reset, execmerge, ovmerge, update, setup, ispar, mergedata]
