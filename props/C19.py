from dv.contract import *
from dv.shapes import pair
import z3
ID = "C19"
LEVEL = "proof"
TUS = ["EventTicker.cpp"]
HARNESS = "C19.cpp"
BOUNDED = ["histories of many counters incl. saving and loading: random sequences against a model that numbers the events"]
ASSUMPTIONS = ["the increment of the event count past the largest long wraps around, which the code relies on and this build does (the check runs the real code there, built with -fwrapv); fewer than 2^63 such rounds",
               "an archive returns what was written to it, in the order of writing"]
E = "diffpy::eventticker::EventTicker::"
LL = pair(I, I)
GT = LV("$gtick", (), LL)       # the counter of the last event


def tup(v):
    return v.lv[("first",)], v.lv[("second",)]


def lt(a, b):
    return z3.Or(a[0] < b[0], z3.And(a[0] == b[0], a[1] < b[1]))


def le(a, b):
    return z3.Not(lt(b, a))


def eq(a, b):
    return z3.And(a[0] == b[0], a[1] == b[1])


def me(c):
    return tup(c.v("mtick"))


def me0(c):
    return tup(c.old("mtick"))


def oth(c):
    return tup(c.ex.read(c.m("mtick", c.args[0]), c.pre))


def gt(c):
    return tup(c.ex.read(GT))


def gt0(c):
    return tup(c.ex.read(GT, c.pre))


GLOB = {E + "gtick": lambda ex: GT}


def inv(c):
    return [("no counter is newer than the last event", le(me(c), gt(c))), ("the count of events", z3.And(gt(c)[0] >= 0, gt(c)[1] >= 0, gt(c)[1] < 2**63))]


def cmp(op, f):
    return Spec(E + op, post=lambda c: [("order by the last event", c.rt == f(me(c), oth(c)))], frame=lambda c: [], noexcept=True, globals=GLOB)


def click_post(c):
    x = (z3.Int("x!1"), z3.Int("x!2"))
    return inv(c) + [("newer than every counter clicked earlier", z3.ForAll(list(x), z3.Implies(le(x, gt0(c)), lt(x, me(c))))),
                     ("this is the last event", eq(me(c), gt(c)))]


def other_inv(c):
    return [("the other is no newer than the last event", le(oth(c), gt(c)))]


def total(c):
    a, b, d = [(z3.Int(n + "1"), z3.Int(n + "2")) for n in "abd"]
    q = list(a + b + d)
    return [("exactly one of older, equal, newer", z3.ForAll(list(a + b), z3.And(z3.Or(lt(a, b), lt(b, a), eq(a, b)), z3.Not(z3.And(lt(a, b), lt(b, a))),
                                                                                      z3.Not(z3.And(eq(a, b), z3.Or(lt(a, b), lt(b, a))))))),
            ("transitive", z3.ForAll(q, z3.Implies(z3.And(lt(a, b), lt(b, d)), lt(a, d))))]


SAVED = [LV("$saved0", (), LL), LV("$saved1", (), LL)]
NSAVED = LV("$nsaved", (), I)
AR = "boost::archive::detail::interface_"


def arread(ex, call):
    n = z3.simplify(ex.read(NSAVED).t)
    ex.write(call.args[0], ex.read(SAVED[n.as_long()]))
    ex.write(NSAVED, ex.vI(n + 1))
    return call.this


def arwrite(ex, call):
    n = z3.simplify(ex.read(NSAVED).t)
    ex.write(SAVED[n.as_long()], ex.load(call.args[0]))
    ex.write(NSAVED, ex.vI(n + 1))
    return call.this


def saved(c, i, mem=None):
    return tup(c.ex.read(SAVED[i], mem) if mem is not None else c.ex.read(SAVED[i]))


def start(c):
    return [("archive at its beginning", c.ex.read(NSAVED, c.pre).t == 0)]


def setup0(c):
    c.ex.mem.setdefault("$nsaved", {})[()] = z3.IntVal(0)


def load_post(c):
    s0, s1 = saved(c, 0, c.pre), saved(c, 1, c.pre)
    x = (z3.Int("x!1"), z3.Int("x!2"))

    def moved(t):
        """what becomes of a counter t of that archive"""
        return (z3.If(lt(gt(c), s1), z3.If(s1[0] != gt(c)[0], 0, t[0]), t[0]),
                z3.If(lt(gt(c), s1), z3.If(s1[0] != gt(c)[0], 0, t[1] + gt(c)[1] - s1[1]), t[1]))
    return [("no newer than the last event here", le(me(c), gt(c))),
            ("the value that was saved when it is no newer than the last event here", z3.Implies(le(s1, gt(c)), eq(me(c), s0))),
            ("the order of the counters of one archive is kept", z3.ForAll(list(x), z3.Implies(z3.And(le(x, s1), s1[0] == gt(c)[0]), z3.And(
                lt(x, s0) == lt(moved(x), me(c)), lt(s0, x) == lt(me(c), moved(x))))))]


USE = [Custom(AR + "iarchive<boost::archive::binary_iarchive>::operator>>", arread, trusted="boost serialization"),
       Custom(AR + "oarchive<boost::archive::binary_oarchive>::operator<<", arwrite, trusted="boost serialization")]
SPECS = [
    Spec(E + "EventTicker", params=[], post=lambda c: [("older than every clicked counter", eq(me(c), (z3.IntVal(0), z3.IntVal(0))))], globals=GLOB),
    Spec(E + "click", pre=lambda c: inv(c) + [("not the last round", gt(c)[0] < 2**63 - 1)], post=click_post, frame=lambda c: [c.lv("mtick"), GT], noexcept=True, globals=GLOB, intcheck="wrap"),
    Spec(E + "updateFrom", pre=lambda c: inv(c) + other_inv(c), post=lambda c: inv(c) + [
        ("the newer of the two", z3.If(lt(me0(c), oth(c)), eq(me(c), oth(c)), eq(me(c), me0(c))))], frame=lambda c: [c.lv("mtick")], noexcept=True, globals=GLOB),
    Spec(E + "value", post=lambda c: [("the counter", eq(tup(c.r), me(c)))] + total(c), frame=lambda c: [], noexcept=True, globals=GLOB),
    cmp("operator<", lt), cmp("operator<=", le), cmp("operator>", lambda a, b: lt(b, a)), cmp("operator>=", lambda a, b: le(b, a)),
    cmp("operator==", eq), cmp("operator!=", lambda a, b: z3.Not(eq(a, b))),
    Spec(E + "save", use=USE, setup=setup0, globals=GLOB, post=lambda c: [("the counter is saved", eq(saved(c, 0), me(c))), ("with the last event", eq(saved(c, 1), gt(c)))],
         frame=lambda c: SAVED + [NSAVED]),
    Spec(E + "load", use=USE, setup=setup0, globals=GLOB, pre=lambda c: inv(c) + [("saved by save", z3.And(le(saved(c, 0), saved(c, 1)), saved(c, 1)[1] >= 0))],
         post=load_post, frame=lambda c: [c.lv("mtick"), NSAVED]),
]
