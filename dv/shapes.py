"""C++ types -> SMT shapes (flat trees of SMT leaves)."""
import z3

_z3forall = z3.ForAll
_BADPAT = (z3.Z3_OP_ITE, z3.Z3_OP_NOT, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_EQ, z3.Z3_OP_IMPLIES, z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_TRUE, z3.Z3_OP_FALSE)


def badpattern(t, seen=None):
    """terms the solvers do not take as a trigger"""
    seen = set() if seen is None else seen
    if isinstance(t, z3.PatternRef):
        return any(badpattern(t.arg(i), seen) for i in range(t.num_args())) if hasattr(t, "num_args") else False
    if t.get_id() in seen:
        return False
    seen.add(t.get_id())
    if z3.is_quantifier(t):
        return True
    if z3.is_app(t):
        if t.decl().kind() in _BADPAT and t.num_args() > 0:
            return True
        return any(badpattern(c, seen) for c in t.children())
    return False


def forall_checked(v, body, *a, **k):
    ps = k.get("patterns")
    if ps:
        k = dict(k)
        k["patterns"] = [p for p in ps if not badpattern(p)]
        if not k["patterns"]:
            del k["patterns"]
    return _z3forall(v, body, *a, **k)


z3.ForAll = forall_checked
SORTS = {"R": z3.RealSort(), "I": z3.IntSort(), "B": z3.BoolSort(), "S": z3.IntSort()}
# strings are represented by integers in an order-preserving, injective way; only comparison, copies and
# (uninterpreted) concatenation, length and upper-casing of strings are used by the code under contract
STRW = 96


def strconst(t):
    b = t.encode("utf8", "replace")[:STRW]
    n = 0
    for i in range(STRW):
        n = n * 257 + (b[i] + 1 if i < len(b) else 0)
    return z3.IntVal(n)


def strvalue(t):
    """the text of an encoded string constant, or None"""
    t = z3.simplify(t)
    if not z3.is_int_value(t):
        return None
    n, out = t.as_long(), []
    for i in range(STRW):
        n, d = divmod(n, 257)
        out.append(d)
    return bytes(d - 1 for d in reversed(out) if d > 0).decode("utf8", "replace")


UF_strcat = z3.Function("strcat", z3.IntSort(), z3.IntSort(), z3.IntSort())
UF_strlen = z3.Function("strlen", z3.IntSort(), z3.IntSort())
UF_strupper = z3.Function("strupper", z3.IntSort(), z3.IntSort())
UF_strsub = z3.Function("strsub", z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.IntSort())


class Unsupported(Exception):
    """a construct outside the verifier's reach"""


class Shape:
    kind = "?"

    def leaves(self):
        raise Unsupported("leaves of " + repr(self))

    def __repr__(self):
        return self.kind

    def key(self):
        return repr(self)


class Scalar(Shape):
    kind = "scalar"

    def __init__(self, s):
        self.s = s
        self.sort = SORTS[s]

    def leaves(self):
        return [((), self.sort)]

    def __repr__(self):
        return self.s


R, I, B, S = Scalar("R"), Scalar("I"), Scalar("B"), Scalar("S")


class Void(Shape):
    kind = "void"

    def leaves(self):
        return []


VOID = Void()


class Opaque(Shape):
    kind = "opaque"

    def __init__(self, n):
        self.n = n

    def leaves(self):
        return []

    def __repr__(self):
        return "opaque<%s>" % self.n


class Struct(Shape):
    kind = "struct"

    def __init__(self, name, fields, lazy=None):
        self.name = name
        self._fields = fields   # dict name->Shape, or None with lazy
        self._lazy = lazy
        self._leaves = None

    @property
    def fields(self):
        if self._fields is None:
            self._fields = self._lazy()
        return self._fields

    def leaves(self):
        if self._leaves is None:
            out = []
            for f, s in self.fields.items():
                for p, so in s.leaves():
                    out.append(((f,) + p, so))
            self._leaves = out
        return self._leaves

    def __repr__(self):
        return self.name


V3 = Struct("R3::Vector", {"0": R, "1": R, "2": R})
M3 = Struct("R3::Matrix", {"%d%d" % (i, j): R for i in range(3) for j in range(3)})


def pair(a, b):
    return Struct("pair<%r,%r>" % (a, b), {"first": a, "second": b})


class Seq(Shape):
    kind = "seq"

    def __init__(self, el, name="vector"):
        self.el = el
        self.name = name
        self._l = None

    def leaves(self):
        if self._l is None:
            out = [(("len",), z3.IntSort())]
            for p, so in self.el.leaves():
                out.append((("el",) + p, z3.ArraySort(z3.IntSort(), so)))
            self._l = out
        return self._l

    def __repr__(self):
        return "seq<%r>" % self.el


_tuples = {}


def keysort(sh):
    """SMT sort used for a map/set key of the given shape"""
    lv = sh.leaves()
    if len(lv) == 1:
        return lv[0][1]
    k = repr(sh)
    if k not in _tuples:
        nm = "K%d" % len(_tuples)
        _tuples[k] = z3.TupleSort(nm, [so for _, so in lv])
    return _tuples[k][0]


def packkey(sh, leaves):
    lv = sh.leaves()
    if len(lv) == 1:
        return leaves[lv[0][0]]
    keysort(sh)
    _, mk, _ = _tuples[repr(sh)]
    return mk(*[leaves[p] for p, _ in lv])


def unpackkey(sh, term):
    lv = sh.leaves()
    if len(lv) == 1:
        return {lv[0][0]: term}
    keysort(sh)
    _, mk, acc = _tuples[repr(sh)]
    return {p: z3.simplify(a(term)) for (p, _), a in zip(lv, acc)}


# sets with an equality of their own: the members it compares
PROJECTED = {"diffpy::srreal::BVParam::BondEqual": ("matom0", "mvalence0", "matom1", "mvalence1")}


class Map(Shape):
    """map / unordered_map (val) or set / unordered_set (val None).
    dom: characteristic array; n, ord, pos: ghost enumeration."""
    kind = "map"
    proj = False

    def __init__(self, k, v, ordered):
        self.k = k
        self.v = v
        self.ordered = ordered
        self._l = None

    def leaves(self):
        if self._l is None:
            ks = keysort(self.k)
            out = [(("dom",), z3.ArraySort(ks, z3.BoolSort())),
                   (("n",), z3.IntSort()),
                   (("ord",), z3.ArraySort(z3.IntSort(), ks)),
                   (("pos",), z3.ArraySort(ks, z3.IntSort()))]
            if self.v is not None:
                for p, so in self.v.leaves():
                    out.append((("val",) + p, z3.ArraySort(ks, so)))
            self._l = out
        return self._l

    def __repr__(self):
        return "%s<%r,%r>" % ("omap" if self.ordered else "map", self.k, self.v)


class Ptr(Shape):
    """raw / shared / unique pointer to class named cls; leaf is an Int ref, 0 is null"""
    kind = "ptr"

    def __init__(self, to, smart=False):
        self.to = to
        self.smart = smart

    def leaves(self):
        return [((), z3.IntSort())]

    def __repr__(self):
        return "ptr<%s>" % (self.to.s if self.to is not None else "?")


class Iter(Shape):
    """iterator: cont identifies the container (python LV or Int id), idx the position"""
    kind = "iter"

    def __init__(self, of, rev=False):
        self.of = of      # shape of container (Seq or Map)
        self.rev = rev

    def leaves(self):
        return [(("cont",), z3.IntSort()), (("idx",), z3.IntSort())]

    def __repr__(self):
        return "iter<%r>" % self.of


class PyPtr:
    """pointer to a known location"""

    def __init__(self, lv):
        self.lv = lv

    def __repr__(self):
        return "&%r" % (self.lv,)


class V:
    """an rvalue: shape + leaves"""
    __slots__ = ("shape", "lv", "ghost")

    def __init__(self, shape, lv):
        self.shape = shape
        self.lv = lv
        self.ghost = None

    @property
    def t(self):
        return self.lv[()]

    def sub(self, f):
        if self.shape.kind != "struct":
            raise Unsupported("field %s of %r" % (f, self.shape))
        sh = self.shape.fields[f]
        return V(sh, {p[1:]: t for p, t in self.lv.items() if p[0] == f})

    def __repr__(self):
        return "V<%r>%r" % (self.shape, self.lv if len(self.lv) < 4 else "...")


class LV:
    """a location: root name + path (field strings, ('i',term), ('k',term))"""
    __slots__ = ("root", "path", "shape", "const")

    def __init__(self, root, path, shape):
        self.root = root
        self.path = path
        self.shape = shape

    def f(self, name, shape=None):
        if shape is None:
            shape = self.shape.fields[name]
        return LV(self.root, self.path + (name,), shape)

    def i(self, term):
        return LV(self.root, self.path + (("i", term),), self.shape.el)

    def k(self, term):
        return LV(self.root, self.path + (("k", term),), self.shape.v)

    def static(self):
        return tuple(("el" if p[0] == "i" else "val") if isinstance(p, tuple) else p for p in self.path)

    def idxs(self):
        return [p[1] for p in self.path if isinstance(p, tuple)]

    def same(self, o):
        if not isinstance(o, LV) or self.root != o.root or len(self.path) != len(o.path):
            return False
        for a, b in zip(self.path, o.path):
            if isinstance(a, tuple) != isinstance(b, tuple):
                return False
            if isinstance(a, tuple):
                if not a[1].eq(b[1]):
                    return False
            elif a != b:
                return False
        return True

    def __repr__(self):
        return self.root + "".join("." + p if isinstance(p, str) else "[%s]" % p[1] for p in self.path)


def short(n):
    return n.split("::")[-1].split("<")[0]


class ShapeTable:
    def __init__(self, prog):
        self.prog = prog
        self.cache = {}

    def of(self, ty):
        s = ty.s
        if s in self.cache:
            return self.cache[s]
        r = self._of(ty)
        self.cache[s] = r
        return r

    def record(self, name):
        key = "rec:" + name
        if key in self.cache:
            return self.cache[key]

        def lazy():
            out = {}
            for c in self.prog.bases_of(name):
                r = self.prog.records.get(c)
                if not r:
                    continue
                for fn, ft in r.fields:
                    out[short(c) + "::" + fn] = self.of(ft)
            return out
        sh = Struct(name, None, lazy)
        self.cache[key] = sh
        return sh

    def _of(self, ty):
        k = ty.k
        if k == "b":
            n = ty.n
            if n in ("double", "float", "long double"):
                return R
            if n == "bool":
                return B
            if n == "void":
                return VOID
            if n in ("std::nullptr_t", "nullptr_t"):
                return Ptr(None)
            return I
        if k == "e":
            return I
        if k == "r":
            return self.of(ty.to)
        if k == "p":
            return Ptr(ty.to)
        if k == "a":
            s = self.of(ty.to)
            sh = Struct("array%d<%r>" % (ty.sz, s), {str(i): s for i in range(ty.sz)})
            return sh
        if k == "c":
            n, a = ty.n, ty.args
            if n.endswith("basic_string"):
                return S
            if n in ("std::vector", "std::list", "std::deque", "std::__cxx11::list"):
                return Seq(self.of(a[0]), short(n))
            if n in ("std::valarray",):
                return Seq(self.of(a[0]), "valarray")
            if n in ("std::map", "std::unordered_map"):
                return Map(self.of(a[0]), self.of(a[1]), n == "std::map")
            if n in ("std::set", "std::unordered_set", "boost::unordered_set", "boost::unordered::unordered_set"):
                el = self.of(a[0])
                pl = [PROJECTED[x.n] for x in a if getattr(x, "k", None) == "c" and x.n in PROJECTED]
                if pl and el.kind == "struct":
                    # the key is what the equality of the set compares (checked by contract of that function)
                    ks = Struct(repr(el) + "#key", {f: s for f, s in el.fields.items() if f.split("::")[-1] in pl[0]})
                    m = Map(ks, el, False)
                    m.proj = True
                    return m
                return Map(el, None, n == "std::set")
            if n == "std::pair":
                return pair(self.of(a[0]), self.of(a[1]))
            if n in ("boost::shared_ptr", "std::unique_ptr", "std::shared_ptr", "boost::scoped_ptr", "boost::weak_ptr"):
                return Ptr(a[0], True)
            if n == "diffpy::srreal::R3::Vector" or (n.startswith("boost::numeric::ublas") and ("vector" in short(n))):
                return V3
            if n.startswith("boost::numeric::ublas") and short(n) in ("matrix_row", "matrix_column"):
                return V3
            if n == "diffpy::srreal::R3::Matrix" or (n.startswith("boost::numeric::ublas") and ("matrix" in short(n))):
                return M3
            if n == "__gnu_cxx::__normal_iterator":
                return Iter(self.of(a[1]))
            if n in ("std::_List_iterator", "std::_List_const_iterator"):
                return Iter(Seq(self.of(a[0]), "list"))
            if n in ("std::_Rb_tree_iterator", "std::_Rb_tree_const_iterator", "std::__detail::_Node_iterator",
                     "std::__detail::_Node_const_iterator", "std::__detail::_Node_iterator_base"):
                e = self.of(a[0])
                return Iter(Map(e, None, "Rb" in n))   # container shape refined from the location
            if n == "std::reverse_iterator":
                return Iter(self.of(a[0]).of, True)
            if n == "std::initializer_list":
                return Seq(self.of(a[0]))
            if n in ("boost::numeric::ublas::vector::iterator", "boost::numeric::ublas::vector::const_iterator") or \
                    (n.startswith("boost::numeric::ublas") and short(n) in ("iterator", "const_iterator")):
                return Iter(V3)
            if n.startswith("boost::numeric::ublas::bounded_array") and len(a) > 1:
                return V3 if str(a[1]) == "3" else M3
            nm = ty.s[6:] if ty.s.startswith("const ") else ty.s
            if nm in self.prog.records:
                for b in self.prog.records[nm].bases:
                    if b.n in ("std::vector",):
                        return self.of(b)
                return self.record(nm)
            return Opaque(nm)
        return Opaque(ty.s)
