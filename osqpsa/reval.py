"""Random interpretation of value-number terms (Gulwani & Necula): two abstract values are taken to be equal when their
terms evaluate to the same number in randomly drawn interpretations of the symbols.  The symbols of the scaled problem data
are interpreted as the scaling of an original problem (P = c D Po D, ...), which is the data invariant setup establishes."""
import math, random
from . import terms as T
from .absint import IN, K0, split, is_cond

INF = 1e30


class Undecided(Exception):
    pass


NVEC = {'q', 'x', 'x_prev', 'xtilde_view', 'Px', 'Aty', 'delta_x', 'Pdelta_x', 'Atdelta_y', 'D', 'Dinv', 'D_temp', 'D_temp_A',
        'prim_inf_cert_n', 'dual_inf_cert', 'dx'}
MVEC = {'l', 'u', 'y', 'z', 'z_prev', 'ztilde_view', 'Ax', 'delta_y', 'Adelta_x', 'E', 'Einv', 'E_temp', 'rho_vec', 'rho_inv_vec',
        'constr_type', 'prim_inf_cert', 'active_flags', 'dyl', 'dyu'}
NMVEC = {'xz_tilde', 'rhs', 'sol'}


def fields(path):
    return tuple(x for x in path if isinstance(x, str))


def chain(t):
    """('solver','work','data','P') for an init chain rooted at an argument, else None"""
    if t[0] == 'arg':
        return (t[1],)
    if t[0] == 'init':
        c = chain(t[1])
        if c is None:
            return None
        return c + fields(t[2])
    if t[0] == 'ptr':
        c = chain(t[1])
        if c is None:
            return None
        return c + fields(t[2])
    return None


class Sample:
    """one random interpretation"""

    def __init__(self, seed, n=2, m=3, scaling=True, infs=0.15, fieldtype=None, wild=False):
        self.r = random.Random(seed)
        r = self.r
        self.seed = seed
        self.n, self.m = n, m
        self.memo = {}
        self.over = {}           # chain -> value
        self.scalars = {}
        self.vectors = {}
        self.dims = {}           # base pointer -> 'n' | 'm'
        self.fieldtype = fieldtype or {}
        self.scaled = scaling
        self.wild = wild
        g = lambda: round(r.uniform(-3, 3), 4)
        B = [[g() for _ in range(n)] for _ in range(n)]
        self.P = [[sum(B[k][i] * B[k][j] for k in range(n)) for j in range(n)] for i in range(n)]
        self.q = [g() for _ in range(n)]
        self.A = [[g() for _ in range(n)] for _ in range(m)]
        self.l = [g() for _ in range(m)]
        self.u = [self.l[i] + abs(g()) for i in range(m)]
        if wild:
            # widely different magnitudes of the data, so that each condition dominates in some interpretation
            a, b, d, e = (10 ** r.uniform(-3, 1), 10 ** r.uniform(-1, 2), 10 ** r.uniform(-3, 1), 10 ** r.uniform(-1, 2))
            self.P = [[x * a for x in row] for row in self.P]
            self.q = [x * b for x in self.q]
            self.A = [[x * d for x in row] for row in self.A]
            self.l, self.u = [x * e for x in self.l], [x * e for x in self.u]
        if scaling:
            self.c = math.exp(r.uniform(-1.5, 1.5))
            self.D = [math.exp(r.uniform(-1.5, 1.5)) for _ in range(n)]
            self.E = [math.exp(r.uniform(-1.5, 1.5)) for _ in range(m)]
        else:
            self.c, self.D, self.E = 1.0, [1.0] * n, [1.0] * m
        for i in range(m):
            if r.random() < infs:
                self.l[i] = -INF / self.E[i] if r.random() < .5 else -INF
            if r.random() < infs:
                self.u[i] = INF / self.E[i] if r.random() < .5 else INF
        D, E, c = self.D, self.E, self.c
        self.mats = {
            ('data', 'P'): [[c * D[i] * self.P[i][j] * D[j] for j in range(n)] for i in range(n)],
            ('data', 'A'): [[E[i] * self.A[i][j] * D[j] for j in range(n)] for i in range(m)],
        }
        self.vecs = {
            ('data', 'q'): [c * D[i] * self.q[i] for i in range(n)],
            ('data', 'l'): [E[i] * self.l[i] for i in range(m)],
            ('data', 'u'): [E[i] * self.u[i] for i in range(m)],
            ('scaling', 'D'): D, ('scaling', 'E'): E,
            ('scaling', 'Dinv'): [1 / d for d in D], ('scaling', 'Einv'): [1 / e for e in E],
        }
        self.scal = {('scaling', 'c'): c, ('scaling', 'cinv'): 1 / c, ('data', 'n'): n, ('data', 'm'): m}

    def hashrand(self, key):
        return random.Random("%s|%s" % (self.seed, key))


def keystr(t):
    return T.show(t)


class Eval:
    """evaluates terms in one sample and one program state; nondeterministic symbols follow a script of choices"""

    def __init__(self, sample, st=None, script=()):
        self.S = sample
        self.st = st
        self.script = list(script)
        self.pos = 0
        self.branch = []     # number of options at each choice point
        self.m = {}
        self.phi = {}
        self.busy = set()
        self.active = set()

    # ------------------------------------------------------------ scalars
    def num(self, t):
        r = self.m.get(t)
        if r is None:
            r = self._num(t)
            self.m[t] = r
        return r

    def _num(self, t):
        h = t[0]
        if h == 'k':
            return float(t[1]) if abs(t[1]) < 2 ** 53 and t[1] == int(t[1]) else float(t[1])
        if h == 'sum':
            s = 0.0
            for m, c in t[1]:
                x = float(c)
                for a, e in m:
                    v = self.num(a)
                    if e < 0 and v == 0:
                        raise Undecided("division by zero")
                    x *= v ** e
                s += x
            return s
        if h == 'inf':
            return math.inf if t[1] else -math.inf
        if h == 'f':
            return self._fn(t)
        if is_cond(t):
            return 1.0 if self.cond(t) else 0.0
        if h == 'init':
            return self._init(t)
        if h in ('phi', 'ret'):
            return self._phi(t, self.num, lambda: self._rand(t))
        if h in ('elem', 'len', 'arg'):
            return self._rand(t)
        if h in ('vec', 'mat'):
            raise Undecided("vector used as scalar")
        raise Undecided("cannot interpret " + T.show(t)[:80])

    def _phi(self, t, ev, rand):
        st = self.st
        alts = st.vals.get(t) if st is not None else None
        if not alts or t in self.busy:
            return rand()
        if t in self.active:
            raise Infeasible()      # a value cannot be defined by itself
        if t in self.phi:
            return self._active(t, ev)
        self.busy.add(t)
        try:
            ok = []
            for a in alts:
                g = st.gates.get((t, a), ())
                good = True
                for c, v in sorted(g, key=gatekey):
                    try:
                        if self.cond(c) != v:
                            good = False
                            break
                    except Undecided:
                        pass
                if good:
                    ok.append(a)
        finally:
            self.busy.discard(t)
        if not ok:
            raise Infeasible()
        if len(ok) > 1:
            i = self.choose(len(ok))
        else:
            i = 0
        self.phi[t] = ok[i]
        return self._active(t, ev)

    def _active(self, t, ev):
        self.active.add(t)
        try:
            return ev(self.phi[t])
        finally:
            self.active.discard(t)

    def choose(self, n):
        self.branch.append(n)
        i = self.script[self.pos] if self.pos < len(self.script) else 0
        self.pos += 1
        return i % n

    def _rng(self, t):
        r = self.st.rng.get(t) if self.st is not None else None
        return r

    def _rand(self, t):
        S = self.S
        if t in S.scalars:
            return S.scalars[t]
        R = S.hashrand(T.show(t) if t[0] not in ('phi', 'ret') else str(t.id))
        last = None
        if t[0] == 'init':
            fs = fields(t[2])
            last = fs[-1] if fs else None
        ty = S.fieldtype.get(last, '')
        r = self._rng(t)
        lo, ls, hi, hs = r if r else (-math.inf, False, math.inf, False)
        integer = 'Int' in ty or 'int' in ty or 'enum' in ty
        if lo == hi:
            v = float(lo)
        elif integer:
            a = max(lo + (1 if ls else 0), -3 if lo < 0 and lo != -math.inf else 0 if lo == -math.inf else lo)
            b = min(hi - (1 if hs else 0), a + 6)
            v = float(R.randint(int(a), int(max(a, b))))
        else:
            if lo == -math.inf and hi == math.inf:
                v = math.exp(R.uniform(-3, 3)) if last is not None else R.uniform(-3, 3)
            else:
                a = lo if lo != -math.inf else min(-3, hi - 3)
                b = hi if hi != math.inf else max(3, lo + 3)
                v = R.uniform(float(a), float(b))
        S.scalars[t] = v
        return v

    def _init(self, t):
        c = chain(t)
        S = self.S
        if c is not None:
            for k in (3, 2, 1):
                if c[-k:] in S.over:
                    return S.over[c[-k:]]
            if c[-2:] in S.scal:
                return float(S.scal[c[-2:]])
        return self._rand(t)

    def _fn(self, t):
        n = t[1]
        if n == 'abs':
            return abs(self.num(t[2]))
        if n == 'max':
            return max(self.num(x) for x in t[2])
        if n == 'min':
            return min(self.num(x) for x in t[2])
        if n == 'norm':
            v = self.vec(t[2])
            return max([abs(x) for x in v], default=0.0)
        if n == 'norm2':
            return math.sqrt(sum(x * x for x in self.vec(t[2])))
        if n == 'norm1':
            return sum(abs(x) for x in self.vec(t[2]))
        if n == 'vsum':
            v = self.mono(t[2])
            return sum(v)
        if n == 'sqrt':
            x = self.num(t[2])
            if x < 0:
                raise Undecided("sqrt")
            return math.sqrt(x)
        if n == 'pow':
            try:
                return self.num(t[2]) ** self.num(t[3])
            except Exception:
                raise Undecided("pow")
        if n == 'trunc':
            return float(int(self.num(t[2])))
        if n == 'fmod':
            b = self.num(t[3])
            if b == 0:
                raise Undecided("fmod")
            return math.fmod(self.num(t[2]), b)
        if n in ('srem', 'urem', 'sdiv', 'udiv'):
            a, b = int(self.num(t[2])), int(self.num(t[3]))
            if b == 0:
                raise Undecided("division by zero")
            q = int(a / b)
            return float(q if n.endswith('div') else a - b * q)
        if n in ('and', 'or', 'xor', 'shl', 'ashr', 'lshr') and len(t) == 4:
            a, b = self.num(t[2]), self.num(t[3])
            if a != int(a) or b != int(b) or n in ('shl', 'ashr', 'lshr') and not 0 <= b < 63:
                raise Undecided("bit operation")
            a, b = int(a), int(b)
            return float(a & b if n == 'and' else a | b if n == 'or' else a ^ b if n == 'xor' else a << b if n == 'shl' else a >> b)
        if n == 'all_leq':
            a, b = self.vec(t[2]), self.vec(t[3])
            return float(all(x <= y for x, y in zip(a, b)))
        if n == 'in_reccone':
            y, l, u = self.vec(t[2]), self.vec(t[3]), self.vec(t[4])
            inf, tol = self.num(t[5]), self.num(t[6])
            for a, b, c in zip(y, l, u):
                if (c < inf and a > tol) or (b > -inf and a < -tol):
                    return 0.0
            return 1.0
        if n == 'changed':
            return float(self.vec(t[2]) != self.vec(t[3]))
        # uninterpreted: smooth pseudo-random function of the arguments
        return self._unint(n, [self.any(x) for x in t[2:]])

    def _unint(self, name, args, dim=None):
        flat = []
        for a in args:
            if isinstance(a, float):
                flat.append(a)
            elif isinstance(a, list):
                for x in a:
                    flat.extend(x if isinstance(x, list) else [x])
            else:
                name += "|" + str(a)
        R = self.S.hashrand("fn" + name)
        out = []
        for _ in range(dim if dim is not None else 1):
            s = 0.0
            for x in flat:
                w = R.uniform(.3, 1.2)
                y = math.copysign(min(abs(x), 50.0) , x) if abs(x) > 50 else x
                s += w * y + math.cos(y + R.uniform(0, 3))
            out.append(s)
        return out[0] if dim is None else out

    # ------------------------------------------------------------ conditions
    def cond(self, c):
        h = c[0]
        if h == 'k':
            return c[1] != 0
        if h == 'not':
            return not self.cond(c[1])
        if h == 'and':
            return self.cond(c[1]) and self.cond(c[2])
        if h == 'or':
            return self.cond(c[1]) or self.cond(c[2])
        if h in ('lt', 'eq'):
            a, b = c[1], c[2]
            if self._ptrish(a) or self._ptrish(b):
                raise Undecided("pointer comparison")
            x, y = self.num(a), self.num(b)
            if h == 'lt':
                return x < y
            return x == y or abs(x - y) <= 1e-12 * max(abs(x), abs(y))
        v = self.num(c)
        return v != 0

    def _ptrish(self, t):
        if t[0] in ('alloc', 'alloca', 'fn', 'glob', 'str', 'ptr'):
            return True
        if t[0] == 'arg':
            return t not in self.S.scalars
        if t[0] == 'init':
            fs = fields(t[2])
            ty = self.S.fieldtype.get(fs[-1], '') if fs else ''
            return ty.endswith('*')
        return False

    # ------------------------------------------------------------ vectors
    def dim(self, a):
        S = self.S
        if S.dims:
            b = a[1] if a[0] == 'init' else a[3][1][0] if a[0] == 'phi' and isinstance(a[3], tuple) and a[3][0] == 'm' else None
            if b in S.dims:
                return S.n if S.dims[b] == 'n' else S.m
        if a[0] == 'init':
            fs = fields(a[2])
            last = fs[-1] if fs else None
            if last == '$v':
                if len(fs) > 1:
                    last = fs[-2]
                else:
                    c = chain(a[1])
                    last = c[-1] if c else None
        elif a[0] == 'phi' and isinstance(a[3], tuple) and a[3][0] == 'm':
            return self.dimloc(a[3][1])
        elif a[0] in ('view',):
            n = self.num(a[3])
            return int(n)
        else:
            last = None
        return self.dimname(last)

    def dimname(self, last):
        S = self.S
        if last in NVEC:
            return S.n
        if last in MVEC:
            return S.m
        if last in NMVEC:
            return S.n + S.m
        raise Undecided("unknown vector length: %s" % (last,))

    def dimloc(self, loc):
        """dimension of the vector stored at memory location (base, path)"""
        base, path = loc
        fs = [x for x in fields(path) if x != '$v']
        if fs:
            return self.dimname(fs[-1])
        c = chain(base)
        if c:
            return self.dimname(c[-1])
        if base[0] == 'alloc' and self.st is not None:
            v = self.st.mem.get((base, IN(('$len',))))
            if v is not None:
                return int(self.num(v))
        raise Undecided("unknown vector length")

    def vec(self, t):
        r = self.m.get(t)
        if r is not None:
            return r
        if t[0] != 'vec':
            raise Undecided("not a vector")
        parts = []
        const = 0.0
        for m, c in t[1]:
            k = self.num(c)
            if not m:
                const += k
            else:
                w = self.mono(m)
                if isinstance(w, Const):
                    const += k * w.c
                else:
                    parts.append((k, w))
        if not parts:
            r = Const(const)
        else:
            n = len(parts[0][1])
            r = [const] * n
            for k, v in parts:
                if len(v) != n:
                    raise Undecided("vector length mismatch")
                for i in range(n):
                    r[i] += k * v[i]
        self.m[t] = r
        return r

    def mono(self, m):
        out = None
        kc = 1.0
        for a, e in m:
            v = self.vatom(a)
            if isinstance(v, Const):
                if e < 0 and v.c == 0:
                    raise Undecided("division by zero")
                kc *= v.c ** e
                continue
            w = []
            for x in v:
                if e < 0 and x == 0:
                    raise Undecided("division by zero")
                w.append(x ** e)
            if out is None:
                out = w
            else:
                if len(out) != len(w):
                    raise Undecided("vector length mismatch")
                out = [x * y for x, y in zip(out, w)]
        if out is None:
            return Const(kc)
        return out if kc == 1.0 else [kc * x for x in out]

    def vatom(self, a):
        r = self.m.get(('v', a))
        if r is None:
            r = self._vatom(a)
            self.m[('v', a)] = r
        return r

    def _vatom(self, a):
        h = a[0]
        S = self.S
        if h == 'vec':
            return self.vec(a)
        if h == 'init':
            c = chain(a)
            if c and c[-1] == '$v':
                c = c[:-1]
                for k in (3, 2, 1):
                    if c[-k:] in S.over:
                        return S.over[c[-k:]]
                if c[-2:] in S.vecs:
                    return S.vecs[c[-2:]]
            return self._randvec(a, self.dim(a))
        if h in ('phi', 'ret'):
            def ev(x):
                return self.vec(x) if x[0] == 'vec' else self.vatom(x)
            return self._phi(a, ev, lambda: self._randvec(a, self.dim(a)))
        if h == 'view':
            base = a[1]
            off, n = int(self.num(a[2])), int(self.num(a[3]))
            src = None
            if self.st is not None:
                src = self.st.mem.get((base, IN(('$v',))))
            if src is not None and src[0] == 'vec':
                v = self.vec(src)
                if isinstance(v, Const):
                    return [v.c] * n
                return v[off:off + n]
            R = S.hashrand("view" + str(base.id) + "|%d" % off)
            return [R.uniform(-3, 3) for _ in range(n)]
        if h == 'mv':
            M = self.mat(a[1])
            x = self.mono(a[3])
            if a[2]:
                return [self._sum(M[i][j] * x[i] for i in range(len(M))) for j in range(len(M[0]) if M else S.n)] if M else [0.0] * S.n
            if isinstance(x, Const):
                x = [x.c] * (len(M[0]) if M else 0)
            return [self._sum(row[j] * x[j] for j in range(len(row))) for row in M]
        if h == 'vf':
            return self._vf(a)
        if h in ('sub', 'elem'):
            raise Undecided("array element")
        if h == 'undef':
            if getattr(self, 'anyundef', False):
                return Const(self._rand(a))
            raise Undecided("uninitialised vector")
        raise Undecided("vector " + T.show(a)[:60])

    def _sum(self, it):
        return float(sum(it))

    def _randvec(self, a, n):
        S = self.S
        v = S.vectors.get(a)
        if v is None or len(v) != n:
            R = S.hashrand("v" + (T.show(a) if a[0] == 'init' else str(a.id)))
            nm = T.show(a)
            pos = any(x in nm for x in ('rho_vec', 'rho_inv_vec')) and a[0] == 'init'
            v = [math.exp(R.uniform(-2, 2)) if pos else R.uniform(-3, 3) for _ in range(n)]
            if S.wild and not pos:
                f = 10 ** R.uniform(-2, 2)
                v = [x * f for x in v]
            if a[0] == 'init' and chain(a) and chain(a)[-2:-1] == ('constr_type',):
                v = [float(R.choice((-1, 0, 1))) for _ in range(n)]
            S.vectors[a] = v
        return v

    def mat(self, core):
        S = self.S
        if core[0] == 'init':
            c = chain(core)
            if c:
                c = tuple(x for x in c if x != '$m')
                if c[-2:] in S.over:
                    return S.over[c[-2:]]
                if c[-2:] in S.mats:
                    return S.mats[c[-2:]]
        if core[0] == 'mat':
            return self.matterm(core)
        r = self.m.get(('M', core))
        if r is not None:
            return r
        if core[0] == 'csc':
            c = S.over.get(('csc', core[1]))
            if c is not None:
                return c
        if core[0] == 'upd':
            # overwrite a fixed random subset of the entries
            M = self.matterm(core[1])
            R = S.hashrand("upd" + T.show(core[2]) + T.show(core[3]))
            return [[(R.uniform(-3, 3) if R.random() < .5 else x) for x in row] for row in M]
        if core[0] == 'phi':
            return self._phi(core, lambda x: self.matterm(x) if x[0] == 'mat' else self.mat(x), lambda: self._norand())
        raise Undecided("matrix " + T.show(core)[:60])

    def _norand(self):
        raise Undecided("matrix symbol")

    def matterm(self, M):
        k = self.num(M[1])
        X = self.mat(M[3])
        L, R = self.mono(M[2]), self.mono(M[4])
        return [[k * L[i] * X[i][j] * R[j] for j in range(len(X[i]))] for i in range(len(X))]

    def _vf(self, a):
        n = a[1]
        args = [self.any(x) for x in a[2:]]
        d = next((len(x) for x in args if isinstance(x, list) and not isinstance(x, Const) and (not x or not isinstance(x[0], list))), None)

        def at(x, i):
            if isinstance(x, float):
                return x
            return x[i]
        if n in ('proj', 'projrec', 'pos', 'neg', 'abs', 'max', 'min', 'round0', 'iflt', 'ifgt', 'cond', 'btype', 'sqrt'):
            if d is None:
                raise Undecided("constant vector function")
            out = []
            for i in range(d):
                x = [at(y, i) for y in args]
                if n == 'proj':
                    v = min(max(x[0], x[1]), x[2])
                elif n == 'projrec':
                    y, l, u, inf = x
                    if u > inf:
                        v = 0.0 if l < -inf else min(y, 0.0)
                    elif l < -inf:
                        v = max(y, 0.0)
                    else:
                        v = y
                elif n == 'pos':
                    v = max(x[0], 0.0)
                elif n == 'neg':
                    v = min(x[0], 0.0)
                elif n == 'abs':
                    v = abs(x[0])
                elif n == 'max':
                    v = max(x)
                elif n == 'min':
                    v = min(x)
                elif n == 'round0':
                    v = 0.0 if abs(x[0]) < x[1] else x[0]
                elif n == 'iflt':
                    v = x[2] if x[0] < x[1] else x[0]
                elif n == 'ifgt':
                    v = x[2] if x[0] > x[1] else x[0]
                elif n == 'cond':
                    v = x[2] if x[0] == 0 else (x[3] if x[0] > 0 else x[1])
                elif n == 'btype':
                    l, u, tol, inf = x
                    v = -1.0 if l < -inf and u > inf else (1.0 if u - l < tol else 0.0)
                elif n == 'sqrt':
                    if x[0] < 0:
                        raise Undecided("sqrt")
                    v = math.sqrt(x[0])
                out.append(v)
            return out
        if n in ('col_norm_inf', 'row_norm_inf', 'diag'):
            X = args[0]
            if n == 'col_norm_inf':
                return [max([abs(X[i][j]) for i in range(len(X))], default=0.0) for j in range(len(X[0]) if X else self.S.n)]
            if n == 'row_norm_inf':
                return [max([abs(x) for x in row], default=0.0) for row in X]
            return [X[i][i] for i in range(len(X))]
        if n in ('linx', 'linz'):
            return self._unint(n, args, self.S.n if n == 'linx' else self.S.m)
        if getattr(self, 'anyundef', False):
            return Const(self._rand(a))
        raise Undecided("vector function " + n)

    def any(self, x):
        if isinstance(x, tuple) and x and x[0] == 'vec':
            return self.vec(x)
        if isinstance(x, tuple) and x and x[0] == 'mat':
            return self.matterm(x)
        if isinstance(x, tuple) and x and isinstance(x[0], str):
            return float(self.num(x))
        return str(x)


def gatekey(cv):
    return cv[0].id


class Const(list):
    """all-equal vector of unknown length"""

    def __init__(self, c):
        super().__init__()
        self.c = c

    def __len__(self):
        return 0

    def __getitem__(self, i):
        return self.c


class Infeasible(Exception):
    """the choices made contradict the recorded path conditions"""


def runs(sample, st, f, limit=200, trunc=False):
    """evaluate f(Eval) for every resolution of the nondeterministic symbols; yields (Eval, result).  With trunc, a
    pseudo-random selection of `limit` resolutions when there are more"""
    import random
    rnd = random.Random(12345)
    todo = [()]
    n = 0
    while todo:
        sc = todo.pop(rnd.randrange(len(todo))) if trunc else todo.pop()
        ev = Eval(sample, st, sc)
        n += 1
        if n > limit:
            if trunc:
                return
            raise Undecided("too many alternatives")
        try:
            r = f(ev)
            ok = True
        except Infeasible:
            ok = False
        for i in range(len(sc), len(ev.branch)):
            for j in range(1, ev.branch[i]):
                todo.append(tuple(list(sc) + [0] * (i - len(sc)) + [j]))
        if ok:
            yield ev, r


def close(a, b, tol=1e-7):
    if isinstance(a, list) or isinstance(b, list):
        if isinstance(a, Const) and isinstance(b, Const):
            return close(a.c, b.c)
        if isinstance(a, Const):
            a = [a.c] * len(b)
        if isinstance(b, Const):
            b = [b.c] * len(a)
        return len(a) == len(b) and all(close(x, y, tol) for x, y in zip(a, b))
    if a == b:
        return True
    if math.isinf(a) or math.isinf(b) or math.isnan(a) or math.isnan(b):
        return False
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))
