"""C25: every operation of the vector layer computes its definition for every length

Per operation, backend and aliasing of its operands the function is summarised (arrsum) and the summary is compared, for the generic element,
with the definition: the loops and library calls must cover the elements 0..n-1 exactly, touch nothing else, and give the defined value."""
import random, math
from .lib import *
from . import prog as PG, arrsum
from .arrsum import Unknown, Wrong, aff, affsub, Ev

V, I, R, J, S, K = 'V', 'I', 'R', 'J', 'S', 'K'      # vector, integer vector, raw float/int array, float scalar, int scalar


class Op:
    def __init__(self, kinds, out=None, map=None, fold=None, trig=None, red=None, ivals=None, pos=(), tol=(), final=None, nonzero=()):
        self.kinds, self.out, self.map, self.fold, self.trig, self.red = kinds, out, map, fold, trig, red
        self.ivals, self.pos, self.tol, self.final, self.nonzero = ivals or {}, pos, tol, final, nonzero


def sgn(x):
    return (x > 0) - (x < 0)


def recc_project(e, s):
    y, l, u, inf = e[0], e[1], e[2], s[3]
    if u > inf:
        return 0.0 if l < -inf else min(y, 0.0)
    return max(y, 0.0) if l < -inf else y


def btype(e, s):
    l, u, tol, inf = e[1], e[2], s[3], s[4]
    return -1 if l < -inf and u > inf else 1 if u - l < tol else 0


OPSPEC = {
    'OSQPVectorf_is_eq': Op([V, V, S], trig=(lambda e, s: abs(e[0] - e[1]) > s[2], 0, 1), tol=(2,)),
    'OSQPVectorf_copy': Op([V, V], 0, lambda e, s: e[1]),
    'OSQPVectorf_from_raw': Op([V, R], 0, lambda e, s: e[1]),
    'OSQPVectori_from_raw': Op([I, J], 0, lambda e, s: e[1]),
    'OSQPVectorf_to_raw': Op([R, V], 0, lambda e, s: e[1]),
    'OSQPVectori_to_raw': Op([J, I], 0, lambda e, s: e[1]),
    'OSQPVectorf_set_scalar': Op([V, S], 0, lambda e, s: s[1]),
    'OSQPVectorf_set_scalar_conditional': Op([V, I, S, S, S], 0, lambda e, s: s[2] if e[1] < 0 else s[3] if e[1] == 0 else s[4]),
    'OSQPVectorf_round_to_zero': Op([V, S], 0, lambda e, s: 0.0 if abs(e[0]) < s[1] else e[0], tol=(1,)),
    'OSQPVectorf_mult_scalar': Op([V, S], 0, lambda e, s: e[0] * s[1]),
    'OSQPVectorf_plus': Op([V, V, V], 0, lambda e, s: e[1] + e[2]),
    'OSQPVectorf_minus': Op([V, V, V], 0, lambda e, s: e[1] - e[2]),
    'OSQPVectorf_add_scaled': Op([V, S, V, S, V], 0, lambda e, s: s[1] * e[2] + s[3] * e[4]),
    'OSQPVectorf_add_scaled3': Op([V, S, V, S, V, S, V], 0, lambda e, s: s[1] * e[2] + s[3] * e[4] + s[5] * e[6]),
    'OSQPVectorf_norm_inf': Op([V], fold=(0.0, lambda a, e, s: max(a, abs(e[0]))), red=lambda s: {'iamax': (0,)}),
    'OSQPVectorf_scaled_norm_inf': Op([V, V], fold=(0.0, lambda a, e, s: max(a, abs(e[0] * e[1])))),
    'OSQPVectorf_norm_inf_diff': Op([V, V], fold=(0.0, lambda a, e, s: max(a, abs(e[0] - e[1])))),
    'OSQPVectorf_norm_1': Op([V], fold=(0.0, lambda a, e, s: a + abs(e[0])), red=lambda s: {'norm_1': (0,)}),
    'OSQPVectorf_norm_2': Op([V], fold=(0.0, lambda a, e, s: a + e[0] * e[0]), final=lambda a: math.sqrt(a), red=lambda s: {'norm_2': (0,)}),
    'OSQPVectorf_dot_prod': Op([V, V], fold=(0.0, lambda a, e, s: a + e[0] * e[1]), red=lambda s: {'dot': (0, 1)}),
    'OSQPVectorf_dot_prod_signed': Op([V, V, K], fold=(0.0, lambda a, e, s: a + e[0] * (max(e[1], 0.0) if s[2] == 1 else min(e[1], 0.0) if s[2] == -1 else e[1])),
                                      red=lambda s: {} if s[2] in (1, -1) else {'dot': (0, 1)}, ivals={2: (-1, 0, 1)}),
    'OSQPVectorf_ew_prod': Op([V, V, V], 0, lambda e, s: e[1] * e[2]),
    'OSQPVectorf_all_leq': Op([V, V], trig=(lambda e, s: e[0] > e[1], 0, 1)),
    'OSQPVectorf_ew_bound_vec': Op([V, V, V, V], 0, lambda e, s: min(max(e[1], e[2]), e[3])),
    'OSQPVectorf_project_polar_reccone': Op([V, V, V, S], 0, recc_project, tol=(3,)),
    'OSQPVectorf_in_reccone': Op([V, V, V, S, S], trig=(lambda e, s: e[2] < s[3] and e[0] > s[4] or e[1] > -s[3] and e[0] < -s[4], 0, 1), tol=(3, 4)),
    'OSQPVectorf_ew_reciprocal': Op([V, V], 0, lambda e, s: 1.0 / e[1], nonzero=(1,)),
    'OSQPVectorf_ew_sqrt': Op([V], 0, lambda e, s: math.sqrt(e[0]), pos=(0,)),
    'OSQPVectorf_ew_max': Op([V, V, S], 0, lambda e, s: max(e[1], s[2])),
    'OSQPVectorf_ew_min': Op([V, V, S], 0, lambda e, s: min(e[1], s[2])),
    'OSQPVectorf_ew_max_vec': Op([V, V, V], 0, lambda e, s: max(e[1], e[2])),
    'OSQPVectorf_ew_min_vec': Op([V, V, V], 0, lambda e, s: min(e[1], e[2])),
    'OSQPVectorf_ew_bounds_type': Op([I, V, V, S, S], 0, btype, trig=(lambda e, s: btype(e, s) != e[0], 1, 0), tol=(3, 4)),
    'OSQPVectorf_set_scalar_if_lt': Op([V, V, S, S], 0, lambda e, s: s[3] if e[1] < s[2] else e[1]),
    'OSQPVectorf_set_scalar_if_gt': Op([V, V, S, S], 0, lambda e, s: s[3] if e[1] > s[2] else e[1]),
}


def feq(a, b, scale=0.0):
    if isinstance(a, float) and a != a or isinstance(b, float) and b != b:
        return a != a and b != b
    if a == b:
        return True
    if math.isinf(a) or math.isinf(b):
        return False
    return abs(a - b) <= 1e-9 * max(1e-12, abs(a), abs(b)) + 1e-13 * scale


class Generic:
    """effect of a summary on the generic element"""
    def __init__(self, op, objs, dim=('n',)):
        self.op, self.objs, self.dim = op, objs, dim

    # --- n
    def norm(self, t):
        """lengths of the operands are equal"""
        if t[0] == 'fld':
            return ('n',)
        return tuple(self.norm(x) if isinstance(x, tuple) else x for x in t)

    def affn(self, t):
        return aff(self.norm(t))

    def norma(self, a):
        d = {}
        for k, v in a[1].items():
            k = self.norm(k)
            d[k] = d.get(k, 0) + v
        return (a[0], {k: v for k, v in d.items() if v})

    def isn(self, a):
        """affine term minus n: constant, or None"""
        d = affsub(a, (0, {('n',): 1}))
        return d[0] if not d[1] else None

    # --- loops
    def access(self, L, idx):
        """the element the generic iteration touches must be the generic element"""
        T, once, cex, inds = L.shape()
        T = self.norma(T)
        a, beta = L.sub(self.norm(idx), inds)
        a = self.norma(a)
        t = self.isn(T)
        if t is None:
            raise Unknown("number of iterations at %s" % L.where)
        if beta == 1 and not a[1]:
            lo, hi = a[0], a[0] + t - 1      # [lo, n+hi]
        elif beta == -1 and self.isn(a) is not None:
            lo, hi = -t + self.isn(a) + 1, self.isn(a)
        else:
            raise Unknown("element touched by an iteration at %s" % L.where)
        if lo < 0 or hi > -1:
            raise Wrong("the loop at %s touches elements %d..n%+d" % (L.where, lo, hi))
        if lo > 0 or hi < -1:
            raise Wrong("the loop at %s leaves out elements: it covers %d..n%+d" % (L.where, lo, hi))
        if once and not self.npos:
            raise Wrong("the loop at %s is entered for vectors of length 0" % L.where)

    def run(self, tree, n, cells, scal, acc=None, accout=None, at=0):
        """n: 0 or 1 for 'empty' / 'any positive length' (value nv for conditions)"""
        self.n, self.cells, self.scal = n, dict(cells), scal
        self.at = min(at, n - 1)        # position of the generic element, for conditions on the loop counter
        self.acc, self.accout = acc, accout
        self.rec = None
        self.phi = {}
        self.red = None
        self.npos = n > 0
        self.written = set()
        self.pre = None
        self.curloop = None
        return self.node(tree)

    def atom(self, t):
        h = t[0]
        if h == 's':
            return self.scal[t[1]]
        if h in ('fld', 'n'):
            return self.n
        if h == 'phi':
            if t in self.phi:
                return self.phi[t]
            L = self.curloop
            if L is not None and t[1] == L.id:
                i = L.init[t[2]]
                return self.ev(i[2] if i[0] == 'p' else i) + L.inds()[t[2]] * self.at
            raise Unknown("loop value")
        if h == 'ld':
            obj, idx = t[1], t[2]
            if self.curloop is not None:
                self.access(self.curloop, idx)
            elif idx[0] == 'red' and idx[1] == 'iamax':
                self.checkred(idx)
                if idx[2][1][1] != obj:
                    raise Wrong("the element with the largest magnitude of another vector is used")
                self.red = ('iamax', (obj,))
                return self.redval if self.redsign else -self.redval
            else:
                raise Unknown("single element")
            if obj not in self.cells:
                raise Unknown("array")
            return self.cells[obj]
        if h == 'red':
            self.checkred(t)
            self.red = (t[1], tuple(x[1] for x in t[2][1::2]))
            return self.redval
        if h == 'cell':
            return self.ev(t[1])
        raise Unknown("value " + h)

    def checkred(self, t):
        n = self.isn(self.norma(aff(t[2][0])))
        if n is None:
            raise Unknown("length passed to a library call")
        if n != 0:
            raise Wrong("a library call covers n%+d elements" % n)
        for ptr, inc in zip(t[2][1::2], t[2][2::2]):
            if ptr[0] != 'p':
                raise Unknown("operand of a library call")
            if aff(ptr[2]) != (0, {}) or inc != ('c', 1):
                raise Wrong("a library call does not cover the elements 0..n-1 in steps of one")

    def ev(self, t):
        return Ev(self.atom)(t)

    def node(self, n):
        h = n[0]
        if h == 'ret':
            return self.ret(n[1])
        if h == 'br':
            return self.node(n[2] if self.ev(n[1]) else n[3])
        if h == 'st':
            obj, idx, v = n[1], n[2], n[3]
            if self.curloop is None:
                raise Unknown("single element written")
            self.access(self.curloop, idx)
            self.new[obj] = self.ev(v)
            self.written.add(obj)
            return self.node(n[5])
        if h == 'latch':
            return ('latch', {r: (self.ev(t) if r in self.accregs else None) for r, t in n[1].items()})
        if h == 'exit':
            return n
        if h == 'loop':
            return self.loopnode(n[1], n[2])
        if h == 'op':
            self.library(n[1], n[2])
            return self.node(n[4])
        raise Unknown(h)

    def ret(self, t):
        if t is None:
            return ('ret', None)
        return ('ret', self.ev(t))

    def loopnode(self, L, conts):
        if self.curloop is not None:
            raise Unknown("nested loop")
        T, once, cex, inds = L.shape()
        accs = [r for r in L.init if r not in inds]
        # registers that carry the value of an induction variable are not accumulators
        if self.n == 0:
            if once:
                t = self.norma(T)
                raise Wrong("the loop at %s is entered for vectors of length 0" % L.where)
            for r, t in L.init.items():
                if t[0] != 'p':
                    self.phi[('phi', L.id, r)] = self.ev(t)
            return self.node(conts[min(cex)])
        if len(accs) > 1:
            raise Unknown("several accumulators")
        if self.isn(self.norma(T)) is None:
            raise Unknown("number of iterations at %s" % L.where)
        if accs:
            if self.rec is not None or self.acc is None:
                raise Unknown("accumulator")
            self.init = self.ev(L.init[accs[0]])
            self.phi[('phi', L.id, accs[0])] = self.init if self.acc == 'init' else self.acc
        self.curloop, self.accregs, self.new = L, accs, {}
        save = dict(self.cells)
        out = self.iteration(L.body, conts, cex)
        self.curloop = None
        if out[0] == 'exit':                # left in the middle of the iteration
            self.rec = ('break',)
            self.cells.update(self.new)
            return self.node(conts[out[1]])
        self.cells.update(self.new)
        if accs:
            self.rec = ('step', out[1][accs[0]])
            self.phi[('phi', L.id, accs[0])] = self.accout if self.accout != 'step' else out[1][accs[0]]
        elif self.rec is None:
            self.rec = ('step', None)
        return self.node(conts[min(cex)])

    def iteration(self, n, conts, cex):
        """follow the generic iteration; tests of the loop counter are taken to continue"""
        while True:
            h = n[0]
            if h == 'br':
                for a, b in ((2, 3), (3, 2)):
                    if n[a][0] == 'exit' and n[a][1] in cex:
                        n = n[b]
                        break
                else:
                    n = n[2] if self.iev(n[1]) else n[3]
                continue
            if h == 'st':
                self.access(self.curloop, n[2])
                if n[1][0] == 'field':
                    raise Wrong("a member of the vector itself is overwritten")
                self.new[n[1]] = self.iev(n[3])
                self.written.add(n[1])
                n = n[5]
                continue
            if h == 'latch':
                return ('latch', {r: self.iev(n[1][r]) for r in self.accregs})
            if h == 'exit':
                return n
            raise Unknown("inside a loop: " + h)

    def iev(self, t):
        return self.ev(t)

    # --- library calls
    def library(self, name, args):
        name = name.replace('cblas_s', 'cblas_d')
        if name.startswith('vs'):
            name = 'vd' + name[2:]
        if name.startswith(('llvm.memcpy', 'llvm.memmove', 'memcpy', 'memmove', 'llvm.memset', 'memset')):
            size = self.norma(aff(args[2]))
            d = affsub(size, (0, {('n',): 8}))
            if d[1]:
                raise Unknown("size of a copy")
            if d[0]:
                raise Wrong("a copy covers %+d bytes too %s" % (d[0], 'many' if d[0] > 0 else 'few'))
            if 'memset' in name:
                if args[1] != ('c', 0):
                    raise Unknown("memset")
                self.put(args[0], lambda: 0.0)
            else:
                self.put(args[0], lambda: self.get(args[1]))
            return
        n = self.isn(self.norma(aff(args[0])))
        if n is None:
            raise Unknown("length passed to " + name)
        if n != 0:
            raise Wrong("%s covers n%+d elements" % (name, n))
        a = args[1:]
        inc = lambda t: self.inc(t, name)
        if name == 'cblas_dcopy':
            self.put(a[2], lambda: self.getinc(a[0], a[1], name), inc(a[3]))
        elif name == 'cblas_dscal':
            self.put(a[1], lambda: self.ev(a[0]) * self.get(a[1]), inc(a[2]))
        elif name == 'cblas_daxpy':
            self.put(a[3], lambda: self.ev(a[0]) * self.getinc(a[1], a[2], name) + self.get(a[3]), inc(a[4]))
        elif name == 'cblas_daxpby':
            self.put(a[4], lambda: self.ev(a[0]) * self.getinc(a[1], a[2], name) + self.ev(a[3]) * self.get(a[4]), inc(a[5]))
        elif name in ('vdAdd', 'vdSub', 'vdMul', 'vdDiv', 'vdFmax', 'vdFmin'):
            f = {'vdAdd': lambda x, y: x + y, 'vdSub': lambda x, y: x - y, 'vdMul': lambda x, y: x * y, 'vdDiv': lambda x, y: x / y, 'vdFmax': max, 'vdFmin': min}[name]
            self.put(a[2], lambda: f(self.get(a[0]), self.get(a[1])))
        elif name in ('vdFmaxI', 'vdFminI'):
            f = max if name == 'vdFmaxI' else min
            self.put(a[4], lambda: f(self.getinc(a[0], a[1], name), self.getinc(a[2], a[3], name)), inc(a[5]))
        elif name in ('vdInv', 'vdSqrt', 'vdAbs'):
            f = {'vdInv': lambda x: 1.0 / x, 'vdSqrt': math.sqrt, 'vdAbs': abs}[name]
            self.put(a[1], lambda: f(self.get(a[0])))
        else:
            raise Unknown("library call " + name)

    def inc(self, t, name):
        if t != ('c', 1):
            raise Wrong("%s does not step through the elements one by one" % name)

    def getinc(self, ptr, inc, name):
        if ptr[0] == 'cell':
            if inc != ('c', 0):
                raise Wrong("%s steps through memory beyond a scalar" % name)
            return self.ev(ptr[1])
        self.inc(inc, name)
        return self.get(ptr)

    def base(self, ptr):
        if ptr[0] != 'p':
            raise Unknown("operand of a library call")
        if aff(ptr[2]) != (0, {}):
            raise Wrong("a library call does not begin with the first element")
        return ptr[1]

    def get(self, ptr):
        if ptr[0] == 'cell':
            raise Wrong("a scalar is passed as a vector")
        b = self.base(ptr)
        if b not in self.cells:
            raise Unknown("array")
        return self.cells[b]

    def put(self, ptr, f, _=None):
        b = self.base(ptr)
        if self.n == 0:
            return
        self.cells[b] = f()
        self.written.add(b)


def patterns(op):
    """aliasing of the operands: lists mapping argument positions to object names"""
    vs = [i for i, k in enumerate(op.kinds) if k in (V, I, R, J)]
    cls = {V: 'f', R: 'f', I: 'i', J: 'i'}
    base = {i: i for i in vs}
    out = [dict(base)]
    same = [i for i in vs if op.kinds[i] in (V, I)]
    for a in same:
        for b in same:
            if a < b and op.kinds[a] == op.kinds[b]:
                d = dict(base)
                d[b] = a
                out.append(d)
    if len(same) > 2 and len({op.kinds[i] for i in same}) == 1:
        out.append({**base, **{i: same[0] for i in same}})
    return out


GRID = (0.0, 1.0, -1.0, 2.5, -0.4, 0.5, -2.5, 1e-9, -1e-9, 3.0, 1e20, -1e20, 7e30, -7e30)


def samples(op, pat, k):
    Rn = random.Random(1000 + k)
    e, s = {}, {}
    for i, kd in enumerate(op.kinds):
        if kd in (S,):
            s[i] = abs(Rn.choice((0.5, 1e-9, 1.0, 2.5, 1e20, 0.0) if i != 3 or len(op.kinds) < 5 else (1.0, 2.5, 1e20))) if i in op.tol else Rn.choice(GRID[:10])
        elif kd == K:
            s[i] = Rn.choice(op.ivals.get(i, (-1, 0, 1, 2)))
    vals = {}
    # neighbourhoods of the thresholds
    near = [x for i in s if i in op.tol for x in (s[i], -s[i], s[i] * 1.5, -s[i] * 1.5, s[i] * .5, -s[i] * .5)]
    for i, o in pat.items():
        if o not in vals:
            if op.kinds[i] in (I, J):
                vals[o] = Rn.choice((-1, 0, 1))
            else:
                v = Rn.choice(near) if near and Rn.random() < .4 else Rn.choice(GRID) if Rn.random() < .5 else Rn.uniform(-3, 3)
                if Rn.random() < .25 and vals:
                    v = Rn.choice([float(x) for x in vals.values()]) + (Rn.choice(near) if near else 0.0)
                if any(pat[j] == o for j in op.pos):
                    v = abs(v)
                if any(pat[j] == o for j in op.nonzero) and v == 0:
                    v = 1.5
                vals[o] = v
        e[i] = vals[o]
    for i, o in pat.items():
        e[i] = vals[o]
    return e, s


def examine(p, name, op, pat):
    """(verdict, text); verdict True / False / None"""
    f = p.funcs.get(name)
    if f is None:
        return None, "not present"
    X = arrsum.Extract(p, pat, depth=60)
    args = []
    for i, kd in enumerate(op.kinds):
        if kd in (V, I):
            args.append(('q', ('o', pat[i])))
        elif kd in (R, J):
            args.append(('p', ('raw', i), arrsum.C0))
        else:
            args.append(('s', i))
    if len(f.args) != len(args):
        return None, "signature"
    try:
        tree = X.function(f, args)
    except (Unknown, KeyError, RecursionError) as e:
        return None, str(e) or type(e).__name__
    objof = {}
    arr = {i: None for i in pat}

    def find(n):
        # the arrays of the operands by the objects they belong to
        if n[0] == 'p' and isinstance(n[1], tuple):
            o = n[1]
            if o[0] == 'raw':
                objof[o] = o[1]
            elif isinstance(o[0], tuple) and o[0][0] == 'o':
                objof[o] = o[0][1]
        for x in n:
            if isinstance(x, tuple):
                find(x)
            elif isinstance(x, (list, dict)):
                for y in (x if isinstance(x, list) else x.values()):
                    find(y)
            elif isinstance(x, arrsum.Loop):
                find(x.body)
                for v in x.init.values():
                    find(v)
        if n[0] in ('ld', 'st') and isinstance(n[1], tuple):
            find(('p', n[1], n[2]))
    find(tree)
    G = Generic(op, objof)
    unk = None
    good = 0
    for k in range(240):
        e, s = samples(op, pat, k)
        vals = {pat[i]: e[i] for i in pat}
        try:
            r = judge(G, op, pat, tree, objof, vals, e, s, k)
        except Wrong as w:
            return False, str(w)
        except Unknown as u:
            unk = str(u)
            continue
        except (OverflowError, ZeroDivisionError, ValueError):
            continue
        if r is not None:
            return False, r
        good += 1
    if good >= 100 and unk is None:
        return True, good
    return None, unk or "%d interpretations" % good


def judge(G, op, pat, tree, objof, vals, e, s, k):
    Rn = random.Random(5 + k)
    nv = Rn.choice((1, 2, 5, 5, 16, 1000))
    at = Rn.choice((0, nv // 2, nv - 1))
    scal = dict(s)

    def cells():
        return {o: vals[objof[o]] for o in objof}
    G.redval, G.redsign = abs(Rn.uniform(0, 4)), Rn.random() < .5
    # empty vectors
    out = G.run(tree, 0, {o: 'none' for o in objof}, scal, acc='init', accout='step')
    if out[0] == 'ret' and out[1] is not None:
        if op.fold is not None:
            want = op.final(op.fold[0]) if op.final else op.fold[0]
            if G.red is None and not feq(out[1], want):
                return "the result for vectors of length 0 is %g" % out[1]
        elif op.trig is not None and bool(out[1]) != bool(op.trig[2]):
            return "the result for vectors of length 0 is %g" % out[1]
    # the generic element
    acc = None
    if op.fold is not None:
        acc = abs(Rn.uniform(0, 5)) if Rn.random() < .7 else 0.0
    elif op.trig is not None:
        acc = 'init'
    accout = (abs(Rn.uniform(0, 5)) if op.fold is not None else 'step')
    out = G.run(tree, nv, cells(), scal, acc=acc, accout=accout, at=at)
    if out[0] != 'ret':
        raise Unknown("no return")
    rec, red, cellsout, ret = G.rec, G.red, G.cells, out[1]
    want = dict(vals)
    if op.map is not None:
        want[pat[op.out]] = op.map(e, s)
        if rec is not None and rec[0] == 'break':
            if at == nv - 1:
                raise Unknown("last element treated apart")
            return "the remaining elements are not processed"
    for o, i in objof.items():
        sc = max([1.0] + [abs(x) for x in vals.values() if x != 'none'] + [abs(x) for x in s.values()]) ** 2
        if not feq(cellsout[o], want[i], sc if i == pat.get(op.out) and len(s) else 0.0):
            if op.map is None or i != pat[op.out]:
                return "an operand is modified"
            return "the element is %g where the definition gives %g (operands %s, scalars %s)" % (cellsout[o], want[i], [e.get(j) for j in sorted(e)], [s[j] for j in sorted(s)])
    if op.map is not None and pat[op.out] not in objof.values():
        return "the result is never written"
    if op.fold is not None:
        if red is not None:
            ok = op.red(s) if op.red else {}
            exp = ok.get(red[0])
            got = tuple(objof.get(o) for o in red[1])
            if exp is None or sorted(map(str, got)) != sorted(str(pat[i]) for i in exp):
                return "the result is the %s of other operands" % red[0]
            if not feq(ret, G.redval):
                return "the value of the reduction is altered"
        elif rec is None:
            return "the result does not depend on the elements"
        elif rec[0] == 'break':
            if at == nv - 1:
                raise Unknown("last element treated apart")
            return "the reduction ends before the last element"
        else:
            if rec[1] is None:
                return "the result does not depend on the elements"
            if not feq(G.init, op.fold[0]):
                return "the reduction starts from %g" % G.init
            w = op.fold[1](acc, e, s)
            if not feq(rec[1], w):
                return "a step of the reduction gives %g where the definition gives %g (so far %g, operands %s)" % (rec[1], w, acc, [e.get(j) for j in sorted(e)])
            w = op.final(accout) if op.final else accout
            if not feq(ret, w):
                return "the value returned is not the reduction"
    elif op.trig is not None:
        t = op.trig[0](e, s)
        if bool(ret) != bool(op.trig[1] if t else op.trig[2]):
            return "the result is %s for operands %s, scalars %s" % (ret, [e.get(j) for j in sorted(e)], [s[j] for j in sorted(s)])
        if rec is not None and rec[0] == 'step' and rec[1] is not None:
            # once decided, later elements do not change it
            if t:
                state = rec[1]
                for q in range(6):
                    e2, s2 = samples(op, pat, k + 7919 * (q + 1))
                    vals2 = {pat[i]: (0.0 if isinstance(e2[i], float) and Rn.random() < .3 and i not in op.nonzero else e2[i]) for i in pat}
                    out = G.run(tree, nv + 3, {o: vals2[objof[o]] for o in objof}, scal, acc=state, accout='step', at=Rn.choice((at + 1, nv, nv + 2)))
                    if bool(out[1]) != bool(op.trig[1]):
                        return "a later element undoes the result"
            elif not feq(float(rec[1]), float(G.init)):
                raise Unknown("accumulator changes")
        elif t and (rec is None or rec[0] != 'break'):
            return "the result does not depend on the elements"
    return None


def job(cfg, name):
    p = PG.load(cfg)
    res = Result()
    op = OPSPEC[name]
    if name not in p.funcs:
        return res
    for pat in patterns(op):
        al = ["=".join("arg%d" % (i + 1) for i in sorted(pat) if pat[i] == o) for o in sorted(set(pat.values())) if sum(v == o for v in pat.values()) > 1]
        con = "%s [%s%s]" % (name, cfg, ", " + ", ".join(al) if al else "")
        r, why = examine(p, name, op, pat)
        f = p.funcs[name]
        if r is None:
            res.undecided("C25/definition", con, why)
        else:
            res.check(r, "C25/definition", con, "%s (%s)" % (why, f.module.src.split('/algebra/')[-1]))
    res.info['functions'] = {name}
    return res


def collect(pid, tier):
    jobs = [(c, n) for c in ('mkl', 'builtin') for n in OPSPEC]
    return parallel(job, jobs)
