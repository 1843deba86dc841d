"""Compile /repo's current sources to IR and load them as one program."""
import os, subprocess, sys, glob, hashlib, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
from . import ir

REPO = os.environ.get("OSQP_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class BuildError(Exception):
    pass


def _mkl_include():
    for d in ("/opt/vp/venv/include", "/opt/intel/oneapi/mkl/latest/include", "/usr/include/mkl"):
        if os.path.exists(d + "/mkl.h"):
            return d
    return HERE + "/stubs/mkl"


COMMON_INC = ["include/public", "include/private"]
SKIP_SRC = {"interrupt_windows.c", "timing_windows.c", "timing_macos.c", "profilers_itt.c", "profilers_nvtx.c",
            "profilers_omnitrace.c", "profilers_roctx.c", "profilers_terminal.c", "profilers.c", "profilers_impl.c"}


def config(name):
    """(source files, include dirs, defines)"""
    S = sorted(f for f in glob.glob(REPO + "/src/*.c") if os.path.basename(f) not in SKIP_SRC)
    C = sorted(glob.glob(REPO + "/algebra/_common/*.c"))
    inc = [HERE + "/stubs/" + name] + [REPO + "/" + d for d in COMMON_INC] + [REPO + "/algebra/_common", REPO + "/algebra/_common/lin_sys"]
    if name == "mkl":
        S = [f for f in S if os.path.basename(f) not in ("codegen.c", "derivative.c")]
        C = [f for f in C]
        A = sorted(glob.glob(REPO + "/algebra/mkl/*.c") + glob.glob(REPO + "/algebra/mkl/lin_sys/direct/*.c") +
                   glob.glob(REPO + "/algebra/mkl/lin_sys/indirect/*.c"))
        inc += [REPO + "/algebra/mkl", REPO + "/algebra/mkl/lin_sys/direct", REPO + "/algebra/mkl/lin_sys/indirect", _mkl_include()]
        return S + C + A, inc, ["MKL_ILP64"]
    if name in ("builtin", "embedded1", "embedded2", "prof"):
        A = sorted(glob.glob(REPO + "/algebra/builtin/*.c") + glob.glob(REPO + "/algebra/_common/lin_sys/qdldl/*.c"))
        inc += [REPO + "/algebra/builtin", REPO + "/algebra/_common/lin_sys/qdldl", HERE + "/stubs/qdldl"]
        if name.startswith("embedded"):
            drop = ("codegen.c", "derivative.c", "polish.c", "interrupt_unix.c", "timing_linux.c")
            S = [f for f in S if os.path.basename(f) not in drop]
            if name == "embedded1":
                C = [f for f in C if os.path.basename(f) not in ("kkt.c", "csc_math.c", "reduced_kkt.c", "csc_utils.c")] + \
                    [f for f in C if os.path.basename(f) in ("csc_math.c",)]
        C = [f for f in C if os.path.basename(f) != "reduced_kkt.c" or not name.startswith("embedded")]
        return S + C + A, inc, []
    if name.startswith("layout"):       # layout2+OSQP_ENABLE_PRINTING: only the types of an embedded configuration
        mode, *opts = name[len("layout"):].split("+")
        return [HERE + "/stubs/layout.c"], config("embedded" + mode)[1], opts
    if name == "mklprof":
        r = config("mkl")
        return r[0], [HERE + "/stubs/mklprof"] + r[1][1:], r[2]
    raise BuildError("unknown config " + name)


def _compile(src, inc, defs, outdir):
    out = os.path.join(outdir, src.replace("/", "_") + ".ll")
    cmd = ["clang", "-w", "-std=gnu11", "-O1", "-Xclang", "-disable-llvm-passes", "-g", "-fno-discard-value-names", "-fno-strict-aliasing",
           "-S", "-emit-llvm", "-o", out, src] + ["-I" + d for d in inc] + ["-D" + d for d in defs]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise BuildError("cannot compile %s: %s" % (src, r.stderr[-2000:]))
    r = subprocess.run(["opt", "-passes=mem2reg,simplifycfg<no-sink-common-insts;no-hoist-common-insts;no-switch-to-lookup;keep-loops;bonus-inst-threshold=1>", "-S", out, "-o", out + "2"], capture_output=True, text=True)
    if r.returncode:
        raise BuildError("opt %s: %s" % (src, r.stderr[-2000:]))
    with open(out + "2") as f:
        return f.read()


class Program:
    def __init__(self, name):
        self.name = name
        self.modules = []
        self.funcs = {}       # linkable functions
        self.sources = []
        self.enums = {}       # enumerator -> value
        self.enumtypes = {}   # name -> [(enumerator, value)]
        self.fields = {}      # struct IR name -> [field names]
        self.fieldtypes = {}  # struct IR name -> [type string]
        self.globals = {}

    def load(self):
        srcs, inc, defs = config(self.name)
        self.sources = srcs
        tmp = tempfile.mkdtemp(prefix="osqpsa-")
        try:
            with ThreadPoolExecutor(8) as ex:
                texts = list(ex.map(lambda s: _compile(s, inc, defs, tmp), srcs))
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        for s, t in zip(srcs, texts):
            m = ir.parse_module(t, s)
            m.src = s
            self.modules.append(m)
            for f in m.funcs.values():
                f.qname = f.name if not f.internal else os.path.basename(s) + ":" + f.name
                if not f.internal:
                    self.funcs[f.name] = f
            for g in m.globals.values():
                if not g.internal and not g.external:
                    self.globals[g.name] = g
            self._debuginfo(m)
        self._globaluse()
        return self

    # ------------------------------------------------------------------ global variables
    def _globaluse(self):
        """how each mutable global is used: list of (kind, inst); kind 'load' or 'write' or 'escape'"""
        self.globuse = {}

        def gl(m, v, out):
            if v[0] == 'glob' and (v[1] in m.globals):
                out.append(v[1])
            elif v[0] in ('cgep', 'cexpr', 'agg'):
                for x in v[1:]:
                    walk(m, x, out)

        def walk(m, x, out):
            if isinstance(x, tuple) and x and isinstance(x[0], str) and x[0] in ('glob', 'cgep', 'cexpr', 'agg'):
                gl(m, x, out)
            elif isinstance(x, (tuple, list)):
                for y in x:
                    walk(m, y, out)

        for m in self.modules:
            for f in m.funcs.values():
                der = {}          # register -> global its address derives from
                todo = [i for b in f.order for i in b.insts]
                for _ in range(3):
                    for i in todo:
                        if i.op in ('gep', 'bitcast', 'addrspacecast', 'phi', 'select', 'inttoptr', 'ptrtoint') and i.res is not None:
                            for v in (i.ops if i.op != 'gep' else [i.x[1][0][1]]):
                                g = []
                                gl(m, v, g)
                                if v[0] == 'reg' and v[1] in der:
                                    g += der[v[1]]
                                if g:
                                    der[i.res] = sorted(set(der.get(i.res, []) + g))
                for i in todo:
                    for k, v in enumerate(i.ops):
                        g = []
                        gl(m, v, g)
                        if v[0] == 'reg':
                            g += der.get(v[1], [])
                        for n in g:
                            kind = None
                            if i.op == 'load':
                                kind = 'load'
                            elif i.op == 'store':
                                kind = 'write' if k == 1 else 'escape'
                            elif i.op in ('ret', 'insertvalue', 'cmpxchg', 'atomicrmw'):
                                kind = 'escape'
                            if kind:
                                self._guse(m, n, kind, i)
                    if i.op == 'call':
                        for t, v in i.x["args"]:
                            g = []
                            gl(m, v, g)
                            if v[0] == 'reg':
                                g += der.get(v[1], [])
                            for n in g:
                                self._guse(m, n, 'escape', i)
            # addresses stored in other globals' initialisers
            for g0 in m.globals.values():
                if g0.init is not None:
                    out = []
                    walk(m, g0.init, out)
                    for n in out:
                        self._guse(m, n, 'escape', None)
        for m in self.modules:
            for g in m.globals.values():
                if not g.const and not g.external:
                    us = self.globuse.get(g, [])
                    if g.init is not None and all(k == 'load' for k, _ in us):
                        g.const = True
                        g.effconst = True

    def _guse(self, m, n, kind, i):
        g = m.globals.get(n)
        if g is None:
            return
        if g.external:
            g = self.globals.get(n, g)
        if g.const:
            return
        self.globuse.setdefault(g, []).append((kind, i))

    # ------------------------------------------------------------------ debug info
    def _debuginfo(self, m):
        comp = {}
        tdef = {}
        for ref, raw in m.meta.items():
            if "DICompositeType(" in raw:
                n = m.md(ref)
                comp[ref] = n[1]
            elif "DIDerivedType(tag: DW_TAG_typedef" in raw:
                n = m.md(ref)
                tdef.setdefault(n[1].get("baseType"), n[1].get("name"))
        for ref, d in comp.items():
            nm = d.get("name") or tdef.get(ref)
            tag = d.get("tag")
            els = m.md(d.get("elements")) if d.get("elements") else None
            if els is None or els[0] != "tuple":
                continue
            if tag == "DW_TAG_enumeration_type":
                vals = []
                for e in els[1]:
                    en = m.md(e)
                    if en and en[0] == "DIEnumerator":
                        vals.append((en[1]["name"], int(en[1]["value"])))
                        self.enums[en[1]["name"]] = int(en[1]["value"])
                self.enumtypes[nm or tuple(v[0] for v in vals)] = vals
            elif tag == "DW_TAG_structure_type" and nm:
                names, types = [], []
                for e in els[1]:
                    en = m.md(e)
                    if en and en[0] == "DIDerivedType":
                        names.append(en[1].get("name", "?"))
                        types.append(self._tystr(m, en[1].get("baseType")))
                for irn in ("struct." + nm, "struct." + nm + "_", "struct." + nm.rstrip("_")):
                    if irn in m.structs and m.structs[irn] is not None and len(m.structs[irn]) == len(names):
                        old = self.fields.get(irn)
                        if old is not None and old != names and len(old) == len(names):
                            pass
                        self.fields[irn] = names
                        self.fieldtypes[irn] = types

    def _tystr(self, m, ref, d=0):
        if ref is None:
            return "void"
        n = m.md(ref)
        if n is None:
            return "?"
        k, a = n
        if k == "DIBasicType":
            return a.get("name", "?")
        tag = a.get("tag", "")
        if tag == "DW_TAG_pointer_type":
            return self._tystr(m, a.get("baseType"), d + 1) + "*"
        if tag == "DW_TAG_const_type":
            return "const " + self._tystr(m, a.get("baseType"), d + 1)
        if k == "DIDerivedType" and tag == "DW_TAG_typedef":
            return a.get("name")
        if k == "DISubroutineType":
            return "fn"
        if tag == "DW_TAG_array_type":
            return self._tystr(m, a.get("baseType"), d + 1) + "[]"
        return a.get("name", "?")

    def fieldname(self, struct, k):
        fs = self.fields.get(struct)
        if fs is None or k >= len(fs):
            return "#%d" % k
        return fs[k]

    def resolve(self, name, module):
        """function definition for a callee name seen in module, or None"""
        f = module.funcs.get(name)
        if f is not None:
            return f
        return self.funcs.get(name)

    def find(self, name):
        f = self.funcs.get(name)
        if f is None:
            for m in self.modules:
                if name in m.funcs:
                    return m.funcs[name]
        return f

    def allfuncs(self):
        for m in self.modules:
            for f in m.funcs.values():
                yield f

    def signature(self, f):
        """[(argname, typestring)] from debug info"""
        sp = f.module.md(f.dbg)
        if not sp:
            return None
        ty = f.module.md(sp[1].get("type"))
        if not ty:
            return None
        tps = f.module.md(ty[1].get("types"))
        out = []
        for r in tps[1][1:]:
            out.append(self._tystr(f.module, r) if r != "null" else "void")
        return out

    def declfile(self, f):
        sp = f.module.md(f.dbg)
        if not sp:
            return None
        fl = f.module.md(sp[1].get("file"))
        return fl[1].get("filename") if fl else None


_cache = {}


def load(name):
    if name not in _cache:
        _cache[name] = Program(name).load()
    return _cache[name]


def rel(path):
    if path is None:
        return "?"
    path = os.path.normpath(path)
    return path[len(REPO) + 1:] if path.startswith(REPO + "/") else path
