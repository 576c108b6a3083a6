"""Front end: run the extractor on the real sources and index the result."""
import json, os, subprocess, sys, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")


class ExtractError(Exception):
    pass


def ensure_tool():
    """Build the clang-based extractor from the committed source if needed."""
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(VERIF, "extract", "astdump.cpp")
    tool = os.path.join(BUILD, "astdump")
    stamp = tool + ".stamp"
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()
    if os.path.exists(tool) and os.path.exists(stamp) and open(stamp).read() == h:
        return tool
    tmp = tool + ".%d" % os.getpid()
    cmd = ["g++", "-std=c++17", "-O1", "-fno-rtti", "-I/usr/lib/llvm-18/include", src, "-o", tmp,
           "/usr/lib/x86_64-linux-gnu/libclang-cpp.so.18.1", "-L/usr/lib/llvm-18/lib", "-lLLVM-18",
           "-Wl,-rpath,/usr/lib/llvm-18/lib"]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise ExtractError("cannot build extractor:\n" + r.stdout.decode()[-4000:])
    os.replace(tmp, tool)
    open(stamp, "w").write(h)
    return tool


def version_include():
    """version.hpp is generated by the project's build; provide one if absent."""
    p = os.path.join(REPO, "src/diffpy/version.hpp")
    return []


class Ty:
    __slots__ = ("k", "n", "args", "to", "const", "s", "sz", "tu")

    def __repr__(self):
        return self.s


class FD:
    __slots__ = ("qn", "n", "mn", "ret", "params", "cls", "clsn", "virt", "pure", "static", "const", "implicit",
                 "ctor", "copy", "defctor", "copyassign", "dtor", "conv", "ta", "src", "tu", "idx")

    def __repr__(self):
        return "%s(%s)" % (self.qn, ", ".join(p.s for p in self.params))


class Fn:
    __slots__ = ("fd", "file", "line", "params", "inits", "body", "tu")


class TU:
    def __init__(self, path, name):
        d = json.load(open(path))
        self.name = name
        raw = d["types"]
        self.types = [Ty() for _ in raw]
        for t, r in zip(self.types, raw):
            t.k = r["k"]; t.n = r.get("n"); t.s = r["s"]; t.const = r.get("const", False)
            t.sz = r.get("sz"); t.tu = self
            t.to = self.types[r["to"]] if "to" in r and r["to"] >= 0 else None
            t.args = [self.types[a] if isinstance(a, int) else a for a in r.get("a", [])]
        self.fdescs = []
        for i, r in enumerate(d["fdescs"]):
            f = FD(); f.idx = i; f.tu = self
            f.qn = r["qn"]; f.n = r["n"]; f.mn = r["mn"]
            f.ret = self.types[r["ret"]]; f.params = [self.types[p] for p in r["p"]]
            f.cls = self.types[r["cls"]] if "cls" in r else None
            f.clsn = r.get("clsn")
            for a in ("virt", "pure", "static", "const", "implicit", "ctor", "copy", "defctor", "copyassign", "dtor", "conv", "src"):
                setattr(f, a, r.get(a, False))
            f.ta = [self.types[a] if isinstance(a, int) else a for a in r.get("ta", [])]
            self.fdescs.append(f)
        self.functions = []
        for r in d["functions"]:
            f = Fn(); f.fd = self.fdescs[r["f"]]; f.file = r["file"]; f.line = r["line"]
            f.params = r["params"]; f.inits = r.get("inits", []); f.body = r["body"]; f.tu = self
            self.functions.append(f)
        self.records = d["records"]
        self.globals = {g["qn"]: g for g in d["globals"]}
        self.bymn = {f.fd.mn: f for f in self.functions}


class Record:
    __slots__ = ("name", "bases", "fields", "virt", "tu", "poly")


class Program:
    def __init__(self, tus):
        self.tus = tus
        self.fn = {}
        self.byqn = {}
        self.records = {}
        self.globals = {}
        for tu in tus:
            for f in tu.functions:
                if f.fd.mn not in self.fn:
                    self.fn[f.fd.mn] = f
                    self.byqn.setdefault(f.fd.qn, []).append(f)
                elif "(anonymous" in f.fd.qn and f not in self.byqn.setdefault(f.fd.qn, []):
                    self.byqn[f.fd.qn].append(f)
            for r in tu.records:
                key = tu.types[r["t"]].s
                if key in self.records:
                    continue
                R = Record(); R.name = key; R.tu = tu; R.poly = r["poly"]
                R.bases = [tu.types[b] for b in r["bases"]]
                R.fields = [(f["n"], tu.types[f["t"]]) for f in r["fields"]]
                R.virt = [(tu.fdescs[v["f"]], v["pure"], [tu.fdescs[o] for o in v["ov"]]) for v in r["virt"]]
                self.records[key] = R
            for q, g in tu.globals.items():
                if q not in self.globals or ("init" in g and "init" not in self.globals[q][1]):
                    self.globals[q] = (tu, g)

    def find(self, qn, params=None, file=None):
        """functions named qn, optionally filtered by parameter types (substring list)"""
        out = []
        for f in self.byqn.get(qn, []):
            if params is not None:
                if len(params) != len(f.fd.params):
                    continue
                if not all(p[1:] == t.s if p.startswith("=") else p in t.s for p, t in zip(params, f.fd.params)):
                    continue
            out.append(f)
        return out

    def body_of(self, fd):
        f = fd.tu.bymn.get(fd.mn)
        if f:
            return f
        return self.fn.get(fd.mn)

    def bases_of(self, name):
        """all classes in linearised order, self first"""
        out = [name]
        r = self.records.get(name)
        if r:
            for b in r.bases:
                for x in self.bases_of(b.s):
                    if x not in out:
                        out.append(x)
        return out

    def override(self, dyncls, fd):
        """final overrider of virtual method fd in class dyncls (or None)"""
        for c in self.bases_of(dyncls):
            r = self.records.get(c)
            if not r:
                continue
            for m, pure, ov in r.virt:
                if m.n == fd.n and len(m.params) == len(fd.params) and m.const == fd.const and \
                        all(a.s == b.s for a, b in zip(m.params, fd.params)):
                    if pure:
                        return None
                    return m
        return None


CLANG_RES = None


def flags():
    global CLANG_RES
    if CLANG_RES is None:
        CLANG_RES = subprocess.check_output(["clang", "-print-resource-dir"]).decode().strip()
    from .build import incdirs
    return ["-std=c++11", "-w"] + incdirs(BUILD) + ["-resource-dir=" + CLANG_RES]


def load(files, workdir, extra=()):
    """extract the named sources (relative to src/diffpy) and merge them"""
    tool = ensure_tool()
    os.makedirs(workdir, exist_ok=True)

    def one(f):
        src = f if os.path.isabs(f) else os.path.join(REPO, "src/diffpy", f)
        out = os.path.join(workdir, os.path.basename(f) + ".json")
        if not os.path.exists(src):
            raise ExtractError("missing source " + src)
        r = subprocess.run([tool, out, os.path.join(REPO, "src") + "/", src] + flags() + list(extra),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode or not os.path.exists(out):
            raise ExtractError("extraction of %s failed:\n%s" % (f, r.stdout.decode()[-3000:]))
        return TU(out, f)
    with ThreadPoolExecutor(8) as ex:
        tus = list(ex.map(one, files))
    return Program(tus)
