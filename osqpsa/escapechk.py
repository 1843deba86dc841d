"""C11: what the caller passes in is only read, and no pointer to it is kept.

A context-sensitive (per-function summary) inclusion-based pointer analysis of the LLVM IR.  A pointer value is (object, field): objects are
the parameters of the function and whatever is reachable from them by loading fields, the allocation sites, the globals.  The summary of a
function lists the objects it stores through and the pointers it leaves in memory; it is instantiated at every call."""
from collections import defaultdict
from .lib import Result, Broken, parallel
from . import prog as PG
from .scan import Scan

MAXCHAIN = 3
ALLOC = {'malloc', 'calloc', 'realloc', 'aligned_alloc', 'strdup', 'MKL_malloc', 'MKL_calloc', 'mkl_malloc', 'mkl_calloc', 'MKL_realloc', 'fopen'}
# external functions: arguments written to
PURE = {'free', 'MKL_free', 'mkl_free', 'strlen', 'strcmp', 'strncmp', 'memcmp', 'printf', 'puts', 'putchar', 'fputs', 'fputc', 'fclose', 'fflush', 'sqrt', 'fabs',
        'fmod', 'sin', 'cos', 'pow', 'log', 'exp', 'clock_gettime', 'signal', 'sigaction', 'raise', 'exit', 'abort', 'abs', 'labs', 'toupper', 'tolower', 'isalpha',
        '__ctype_b_loc', '__ctype_toupper_loc', 'ferror', 'ceil', 'floor', 'fwrite', 'putc'}
FIRST = {'strcpy', 'strncpy', 'strcat', 'strncat', 'sprintf', 'snprintf', 'vsnprintf', 'fprintf', 'vfprintf', 'memset', 'memcpy', 'memmove', '__strcpy_chk', '__memcpy_chk'}

# BLAS / vector math: positions of the arguments written
WRITES = {'cblas_dcopy': (3,), 'cblas_scopy': (3,), 'cblas_daxpy': (4,), 'cblas_saxpy': (4,), 'cblas_daxpby': (5,), 'cblas_dscal': (2,), 'cblas_dswap': (1, 3),
          'cblas_ddot': (), 'cblas_dnrm2': (), 'cblas_dasum': (), 'cblas_idamax': (), 'vdMul': (3,), 'vdAdd': (3,), 'vdSub': (3,), 'vdDiv': (3,), 'vdFmax': (3,),
          'vdFmin': (3,), 'vdInv': (2,), 'vdSqr': (2,), 'vdSqrt': (2,), 'vdAbs': (2,), 'vdMaxMag': (3,)}


class Sum:
    def __init__(self):
        self.W = {}                        # object -> site
        self.C = defaultdict(set)          # (object, field) -> values
        self.cp = defaultdict(set)         # object -> objects whose pointers were copied into it
        self.at = {}                       # (object, field, value) -> site
        self.ret = set()
        self.ext = {}                      # (external function, argument object) -> site


class Escape:
    def __init__(self, p):
        self.p = p
        self.S = Scan(p)
        self.sum = {}
        self.steps = 0
        self.unk = set()
        self.callers = defaultdict(set)
        todo = list(p.allfuncs())
        order = self.postorder(todo)
        work = list(order)
        inw = set(work)
        while work:
            f = work.pop(0)
            inw.discard(f)
            self.steps += 1
            if self.steps > 20000:
                raise Broken("summaries do not converge")
            if self.function(f):
                for g in self.callers[f]:
                    if g not in inw:
                        inw.add(g)
                        work.append(g)

    def postorder(self, fs):
        out, seen = [], set()

        def go(f):
            stack = [(f, iter([g for g, i in self.S.callees(f) if not isinstance(g, str)]))]
            seen.add(f)
            while stack:
                x, it = stack[-1]
                for g in it:
                    self.callers[g].add(x)
                    if g not in seen:
                        seen.add(g)
                        stack.append((g, iter([h for h, i in self.S.callees(g) if not isinstance(h, str)])))
                        break
                else:
                    stack.pop()
                    out.append(x)
        for f in fs:
            if f not in seen:
                go(f)
        for f in fs:
            for g, i in self.S.callees(f):
                if not isinstance(g, str):
                    self.callers[g].add(f)
        return out

    # ---------------------------------------------------------------- one function
    def function(self, f):
        old = self.sum.get(f)
        s = self.sum.setdefault(f, Sum())
        before = self.size(s)
        self.f, self.s = f, s
        self.env = defaultdict(set)
        for k, (t, a) in enumerate(f.args):
            if t.k == 'ptr':
                self.env[a].add((('p', k, ()), ''))
        self.targets = {}
        for g, i in self.S.callees(f):
            self.targets.setdefault(i, []).append(g)
        while True:
            self.ch = False
            for b in f.rpo:
                for i in b.insts:
                    self.inst(i)
            if not self.ch:
                break
        return old is None or self.size(s) != before

    def size(self, s):
        return (len(s.W), sum(len(v) for v in s.C.values()), sum(len(v) for v in s.cp.values()), len(s.ret), len(s.ext))

    def addto(self, st, vals):
        n = len(st)
        st |= vals
        if len(st) != n:
            self.ch = True

    def val(self, v):
        k = v[0]
        if k == 'reg':
            return self.env[v[1]]
        if k == 'glob':
            return {(('g', v[1]), '')}
        if k in ('gep', 'cexpr', 'cast') and len(v) > 1:
            out = set()
            for x in v[1:]:
                if isinstance(x, tuple) and x:
                    if isinstance(x[0], str):
                        out |= self.val(x)
                    else:
                        for y in x:
                            if isinstance(y, tuple) and len(y) == 2 and isinstance(y[1], tuple):
                                out |= self.val(y[1])
            return out
        return set()

    def load(self, o, fld, seen=None):
        seen = seen or set()
        if o in seen:
            return set()
        seen.add(o)
        s = self.s
        out = set(s.C.get((o, fld), ()))
        if o[0] == 'p':
            if len(o[2]) < MAXCHAIN:
                out.add((('p', o[1], o[2] + (fld,)), ''))
            else:
                out.add((o, ''))
        for c in s.cp.get(o, ()):
            out |= self.load(c, fld, seen)
        return out

    def wr(self, o, i):
        if o not in self.s.W:
            self.s.W[o] = i if isinstance(i, tuple) else (i,)
            self.ch = True

    def put(self, o, fld, vals, i):
        vals = {v for v in vals if v[0][0] != 'g' or True}
        st = self.s.C[(o, fld)]
        for v in vals - st:
            self.s.at[(o, fld, v)] = i if isinstance(i, tuple) else (i,)
        self.addto(st, vals)

    def inst(self, i):
        op = i.op
        if op == 'gep':
            base = self.val(i.x[1][0][1])
            if not base:
                return
            r = self.S.field(self.f, i)
            if r is not None:
                self.addto(self.env[i.res], {(o, r[1]) for o, fl in base})
            else:
                self.addto(self.env[i.res], set(base))
        elif op == 'load':
            if i.ty.k != 'ptr':
                return
            for o, fl in list(self.val(i.ops[0])):
                self.addto(self.env[i.res], self.load(o, fl))
        elif op == 'store':
            a = list(self.val(i.ops[1]))
            for o, fl in a:
                if o[0] != 'l':
                    self.wr(o, i)
            if i.ty.k == 'ptr':
                v = self.val(i.ops[0])
                if v:
                    for o, fl in a:
                        self.put(o, fl, v, i)
        elif op == 'alloca':
            self.addto(self.env[i.res], {(('l', self.f.qname, i.res), '')})
        elif op in ('phi', 'select', 'freeze') or (op in ('bitcast', 'addrspacecast', 'inttoptr', 'ptrtoint')):
            if op == 'phi' and i.ty.k != 'ptr':
                return
            ops = i.ops[1:] if op == 'select' else i.ops
            for v in ops:
                self.addto(self.env[i.res], set(self.val(v)))
        elif op == 'ret':
            if i.ops and i.ty.k == 'ptr':
                self.addto(self.s.ret, set(self.val(i.ops[0])))
        elif op == 'call':
            self.call(i)

    def structsize(self, n):
        return n

    def call(self, i):
        args = [self.val(v) if t.k == 'ptr' else set() for t, v in i.x['args']]
        for g in self.targets.get(i, ()):
            if isinstance(g, str):
                self.external(g, args, i)
            else:
                self.apply(g, args, i)

    def external(self, name, args, i):
        if name in ALLOC:
            if name == 'realloc' or name == 'MKL_realloc':
                self.addto(self.env[i.res], set(args[0]))
            self.addto(self.env[i.res], {(('h', self.f.qname, i.res), '')})
            return
        base = name
        if name.startswith('llvm.'):
            base = name.split('.')[1]
            if base not in ('memcpy', 'memmove', 'memset'):
                return
        if base in PURE or name.startswith('*') and not any(args):
            return
        if base in FIRST:
            for o, fl in args[0] if args else ():
                if o[0] != 'l':
                    self.wr(o, i)
            if base in ('memcpy', 'memmove'):
                n = i.x['args'][2][1]
                const = n[0] in ('int', 'k')
                if const:
                    for o, fl in args[0]:
                        for o2, f2 in args[1]:
                            if o2 != o:
                                self.addto(self.s.cp[o], {o2})
                if i.res and base == 'memcpy':
                    self.addto(self.env[i.res], set(args[0]))
            elif i.res and base.startswith('str'):
                self.addto(self.env[i.res], set(args[0]))
            return
        if name in WRITES:
            for k in WRITES[name]:
                for o, fl in args[k] if k < len(args) else ():
                    if o[0] != 'l':
                        self.wr(o, i)
            return
        for k, a in enumerate(args):
            for o, fl in a:
                if (name, o) not in self.s.ext:
                    self.s.ext[(name, o)] = (i,)
                    self.ch = True

    # ---------------------------------------------------------------- calls
    def tr(self, o, args, i, f):
        """objects of the callee seen from here"""
        if o[0] == 'p':
            if o[1] >= len(args):
                return set()
            cur = {x for x, fl in args[o[1]]} if not o[2] else None
            if cur is not None:
                return cur
            vals = set(args[o[1]])
            for n, fld in enumerate(o[2]):
                nxt = set()
                for x, fl in vals:
                    # the callee's field label is relative to the pointer passed
                    nxt |= self.load(x, fld if fld != '' or not fl else fl)
                vals = nxt
            return {x for x, fl in vals}
        if o[0] == 'l':
            return set()
        if o[0] == 'h' and len(o) < 5:
            return {o + ((self.f.name, i.dbg),)} if len(o) == 3 else {o}
        return {o}

    def apply(self, g, args, i):
        cs = self.sum.get(g)
        if cs is None:
            return
        memo = {}

        def tr(o):
            r = memo.get(o)
            if r is None:
                r = memo[o] = self.tr(o, args, i, g)
            return r

        def trv(v):
            o, fl = v
            if o[0] == 'p' and not o[2] and fl == '':
                return set(args[o[1]]) if o[1] < len(args) else set()
            return {(x, fl) for x in tr(o)}
        for o, site in cs.W.items():
            for x in tr(o):
                if x[0] != 'l':
                    self.wr(x, (i,) + site[:6])
        for (n, o), site in list(cs.ext.items()):
            for x in tr(o):
                if (n, x) not in self.s.ext:
                    self.s.ext[(n, x)] = (i,) + site[:6]
                    self.ch = True
        for (o, fl), vs in list(cs.C.items()):
            if o[0] == 'l':
                continue
            dst = tr(o)
            if not dst:
                continue
            for v in list(vs):
                t = trv(v)
                if not t:
                    continue
                site = (i,) + cs.at.get((o, fl, v), ())[:6]
                for x in dst:
                    if o[0] == 'p' and not o[2] and fl == '':
                        for y, fy in args[o[1]]:
                            if y == x:
                                self.put(x, fy, t, site)
                    else:
                        self.put(x, fl, t, site)
        for o, srcs in list(cs.cp.items()):
            if o[0] == 'l':
                continue
            for x in tr(o):
                for c in srcs:
                    if c[0] == 'l':
                        # pointers held by a local structure of the callee
                        for (o2, fl), vs in list(cs.C.items()):
                            if o2 == c:
                                for v in vs:
                                    self.put(x, fl, trv(v), (i,) + cs.at.get((o2, fl, v), ())[:6])
                    else:
                        self.addto(self.s.cp[x], {y for y in tr(c) if y != x})
        if i.res:
            for v in list(cs.ret):
                self.addto(self.env[i.res], trv(v))


def where(p, site):
    out = []
    for i in site:
        m = i.fn.module
        l = m.loc(i.dbg)
        out.append("%s:%s (%s)" % (PG.rel(l[0]), l[1], i.fn.name) if l else i.fn.name)
    return " -> ".join(out)


INPUTS = {'osqp_adjoint_derivative_compute': (1, 2)}
KEEPS = {'OSQPCscMatrix_new', 'OSQPCscMatrix_set_data'}       # documented to refer to the caller's arrays


def inputs(p, f):
    sig = p.signature(f)
    if sig is None:
        raise Broken("no signature for " + f.name)
    out = set(INPUTS.get(f.name, ()))
    k = 0
    for n, t in enumerate(sig):
        if n < len(f.args) and f.args[n][0].k == 'ptr' and t.startswith('const '):
            out.add(n)
        elif n < len(f.args) and f.args[n][0].k == 'ptr' and t.endswith('*') and t[:-1].startswith('const'):
            out.add(n)
    return sorted(out)


def job(cfg):
    p = PG.load(cfg)
    res = Result()
    E = Escape(p)
    pub = [f for f in p.allfuncs() if not f.internal and (f.name.startswith('osqp_') or f.name.startswith('OSQPCscMatrix'))]
    from .pathchk import public
    names = set(public(p)) | {'osqp_setup'} | {f.name for f in pub if f.name.startswith('OSQPCscMatrix')}
    for f in p.allfuncs():
        if f.name not in names or f.internal:
            continue
        ins = inputs(p, f)
        if not ins:
            continue
        s = E.sum[f]
        for k in ins:
            con = "argument %s of %s" % (f.args[k][1], f.name)
            bad = [(o, st) for o, st in s.W.items() if o[0] == 'p' and o[1] == k]
            for o, st in bad:
                res.fail("C11/read-only", "%s%s" % (con, "".join("->" + x for x in o[2])), "written at " + where(p, st))
            if not bad:
                res.good("C11/read-only", con)
            ext = [(n, o, st) for (n, o), st in s.ext.items() if o[0] == 'p' and o[1] == k]
            for n, o, st in ext:
                res.undecided("C11/read-only", "%s passed to %s" % (con, n), "external function called at " + where(p, st))
            if f.name in KEEPS:
                continue
            # objects that survive the call
            keep = kept(E, s, f, ins)
            bad = [(c, v) for c, vs in s.C.items() if c[0] in keep for v in vs if v[0][0] == 'p' and v[0][1] == k]
            for (o, fl), v in bad:
                res.fail("C11/not-kept", con, "%s is stored in %s at %s" % (show(f, v[0]), show(f, o) + ("->" + fl if fl else ""), where(p, s.at.get((o, fl, v), ()))))
            bad2 = [(o, c) for o, cs in s.cp.items() if o in keep for c in cs if c[0] == 'p' and c[1] == k and pointers(E, p, f, k, c)]
            for o, c in bad2:
                res.fail("C11/not-kept", con, "a structure with pointers of the caller is copied into " + show(f, o))
            r = [v for v in s.ret if v[0][0] == 'p' and v[0][1] == k]
            if r and f.ret.k == 'ptr':
                res.fail("C11/not-kept", con, "a pointer to it is returned")
            elif not bad and not bad2:
                res.good("C11/not-kept", con)
    res.count("functions", {f.qname for f in E.sum})
    res.info["summary_steps"] = E.steps
    return res


def pointers(E, p, f, k, c):
    """does the structure behind the argument hold pointers?"""
    sig = p.signature(f)[k].replace('const ', '').rstrip('*').strip()
    for st, tys in p.fieldtypes.items():
        nm = st.split('.')[-1]
        if nm == sig:
            return any('*' in t for t in tys)
    return True


def kept(E, s, f, ins):
    """objects reachable after the call from memory that is not the caller's input"""
    keep = set()
    todo = [o for (o, fl) in s.C if o[0] == 'g' or o[0] == 'p' and o[1] not in ins] + [v[0] for v in s.ret] + [o for o in s.cp if o[0] == 'g' or o[0] == 'p' and o[1] not in ins]
    idx = defaultdict(set)
    for (o, fl), vs in s.C.items():
        idx[o] |= {v[0] for v in vs}
    for o, cs in s.cp.items():
        for c in cs:
            idx[o] |= idx.get(c, set()) if c[0] != 'p' else set()
    while todo:
        o = todo.pop()
        if o in keep or o[0] == 'l' or (o[0] == 'p' and o[1] in ins):
            continue
        keep.add(o)
        todo += list(idx.get(o, ()))
    return keep


def show(f, o):
    if o[0] == 'p':
        return f.args[o[1]][1] + "".join("->" + (x or '*') for x in o[2])
    if o[0] == 'h':
        return "the block allocated in %s" % o[1]
    return str(o[1])


def collect(tier):
    return parallel(job, [(c,) for c in ('mkl', 'builtin') + (() if tier == 'quick' else ('mklprof', 'prof'))])
