"""Value-number terms: scalars as (Laurent-)polynomial normal forms, vectors as linear combinations of elementwise
monomials, matrices as products of scalings around an atom.  All arithmetic is over the reals (rounding is not modelled).

Scalar  ::= ('k', Fraction) | atom | ('sum', ((mono, coef), ...))     mono = ((atom, exp), ...)
Vector  ::= ('vec', ((vmono, Scalar), ...))                            vmono = ((vatom, exp), ...)  () = all ones
Matrix  ::= ('mat', Scalar, ((vatom,exp)..) left, core, ((vatom,exp)..) right)
Cond    ::= ('k', 0/1) | ('lt', a, b) | ('eq', a, b) | ('not', c) | ('or', frozenset) ...
"""
from fractions import Fraction
import math

class N(tuple):
    """hash-consed term node: equality is identity"""
    __hash__ = object.__hash__
    __eq__ = object.__eq__
    __ne__ = object.__ne__


_tab = {}
_EMPTY = frozenset()


def I(t):
    """intern a term (deeply); terms are compared by identity"""
    if t.__class__ is N:
        return t
    for c in t:
        if c.__class__ is tuple:
            t = tuple([I(c) if c.__class__ is tuple else c for c in t])
            break
    r = _tab.get(t)
    if r is None:
        r = N(t)
        r.id = len(_tab)
        if t and (t[0] == 'phi' or t[0] == 'ret'):
            r.ph = frozenset((r,))
        else:
            ph = None
            for c in t:
                if c.__class__ is N:
                    p = c.ph
                elif c.__class__ is frozenset:
                    p = frozenset().union(*[x.ph for x in c if x.__class__ is N])
                else:
                    continue
                if p:
                    ph = p if ph is None or p is ph else ph | p
            r.ph = ph or _EMPTY
        _tab[t] = r
    return r


def key(a):
    return I(a).id


def q(x):
    """integers as int, everything else as Fraction"""
    if x.__class__ is int:
        return x
    if x.denominator == 1:
        return int(x)
    return x


def num(x):
    return I(('k', q(Fraction(x))))


ZERO = I(('k', 0))
ONE = I(('k', 1))
MONE = I(('k', -1))


def K(x):
    if isinstance(x, float):
        if math.isnan(x):
            return I(('nan',))
        if math.isinf(x):
            return I(('inf', x > 0))
    return num(x)


def is_k(t):
    return t[0] == 'k'


def kval(t):
    v = t[1]
    return int(v) if v.denominator == 1 else float(v)


# ---------------------------------------------------------------- scalars
NIL = I(())


def _items(t):
    """list of (mono, coef)"""
    if t[0] == 'k':
        return (((NIL, t[1]),) if t[1] != 0 else ())
    if t[0] == 'sum':
        return t[1]
    return ((I(((t, 1),)), 1),)


def _mk(d):
    it = [(m if m.__class__ is N else I(m), q(c)) for m, c in d.items() if c != 0]
    if not it:
        return ZERO
    if len(it) == 1:
        m, c = it[0]
        if not m:
            return I(('k', c))
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    it.sort(key=lambda x: key(x[0]))
    return I(('sum', tuple(it)))


def s_add(a, b):
    if a[0] == 'k' and b[0] == 'k':
        return I(('k', q(a[1] + b[1])))
    d = {}
    for m, c in _items(a):
        d[m] = d.get(m, 0) + c
    for m, c in _items(b):
        d[m] = d.get(m, 0) + c
    return _mk(d)


def s_neg(a):
    return s_mul(MONE, a)


def s_sub(a, b):
    return s_add(a, s_neg(b))


def mono_mul(m1, m2):
    d = {}
    for a, e in m1:
        d[a] = d.get(a, 0) + e
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return I(tuple(sorted(((a, e) for a, e in d.items() if e != 0), key=lambda x: key(x[0]))))


def s_mul(a, b):
    if a[0] == 'k':
        if a[1] == 0:
            return ZERO
        if b[0] == 'k':
            return I(('k', q(a[1] * b[1])))
        if a[1] == 1:
            return b
    elif b[0] == 'k' and b[1] == 1:
        return a
    d = {}
    ia, ib = _items(a), _items(b)
    if len(ia) * len(ib) > 400:
        return I(('mulx', a, b) if key(a) < key(b) else ('mulx', b, a))
    for m, c in ia:
        for m2, c2 in ib:
            mm = mono_mul(m, m2)
            d[mm] = d.get(mm, 0) + c * c2
    return _mk(d)


def s_inv(a):
    it = _items(a)
    if len(it) == 0:
        return I(('div0',))
    if len(it) == 1:
        m, c = it[0]
        return _mk({I(tuple((x, -e) for x, e in m)): Fraction(1) / c})
    # factor leading coefficient so that inv(2a+2b) = 1/2 inv(a+b)
    c0 = it[0][1]
    body = _mk({m: Fraction(c) / c0 for m, c in it})
    return _mk({I(((body, -1),)): Fraction(1) / c0})


def s_div(a, b):
    if b[0] == 'k' and b[1] == 0:
        return I(('div0', a))
    return s_mul(a, s_inv(b))


def fn(name, *args):
    return I(('f', name) + tuple(args))


def s_abs(a):
    if a[0] == 'k':
        return I(('k', abs(a[1])))
    it = _items(a)
    if len(it) == 1:
        m, c = it[0]
        out = I(('k', abs(c)))
        for x, e in m:
            if is_pos(x):
                out = s_mul(out, _mk({I(((x, e),)): 1}))
            else:
                out = s_mul(out, _mk({I(((('f', 'abs', x), e),)): 1}))
        return out
    n = s_neg(a)
    if key(a) > key(n):
        a = n
    return I(('f', 'abs', a))


POS = set()    # atoms assumed strictly positive


def is_pos(x):
    return x in POS or (x[0] == 'f' and x[1] in ('norm', 'abs', 'sqrt')) or (x[0] == 'k' and x[1] > 0)


def _flat(name, args):
    out = set()
    for a in args:
        if a[0] == 'f' and a[1] == name:
            out |= a[2]
        else:
            out.add(a)
    return out


def s_max(*args):
    s = _flat('max', args)
    ks = [x for x in s if x[0] == 'k']
    if ks:
        s -= set(ks)
        s.add(max(ks, key=lambda x: x[1]))
    if len(s) == 1:
        return next(iter(s))
    # common positive factor extraction
    f, s2 = common_factor(s)
    if f is not None:
        return s_mul(f, I(('f', 'max', frozenset(s2))))
    return I(('f', 'max', frozenset(s)))


def s_min(*args):
    s = _flat('min', args)
    ks = [x for x in s if x[0] == 'k']
    if ks:
        s -= set(ks)
        s.add(min(ks, key=lambda x: x[1]))
    if len(s) == 1:
        return next(iter(s))
    return I(('f', 'min', frozenset(s)))


def common_factor(terms):
    """positive factors common to every monomial of every term; zero terms are skipped"""
    com = None
    for t in terms:
        for m, c in _items(t):
            d = {a: e for a, e in m if a in POS}
            if com is None:
                com = d
            else:
                com = {a: e for a, e in com.items() if d.get(a) == e}
    if not com:
        return None, None
    mono = I(tuple(sorted(com.items(), key=lambda x: key(x[0]))))
    f = _mk({mono: 1})
    inv = s_inv(f)
    return f, [s_mul(inv, t) for t in terms]


# ---------------------------------------------------------------- vectors
def V(d):
    it = [(I(m), c) for m, c in d.items() if c is not ZERO]
    it.sort(key=lambda x: key(x[0]))
    return I(('vec', tuple(it)))


def v_atom(a):
    return I(('vec', (((((I(a), 1),)), ONE),)))


def is_vec(t):
    return t[0] == 'vec'


def v_of(t):
    """coerce a memory value to vector form"""
    if t[0] == 'vec':
        return t
    return v_atom(I(t))


def v_const(s):
    return V({NIL: I(s)})


def v_add(a, b, sa=ONE, sb=ONE):
    d = {}
    for m, c in v_of(a)[1]:
        d[m] = s_add(d.get(m, ZERO), s_mul(sa, c))
    for m, c in v_of(b)[1]:
        d[m] = s_add(d.get(m, ZERO), s_mul(sb, c))
    return V(d)


def v_scale(s, a):
    return V({m: s_mul(s, c) for m, c in v_of(a)[1]})


def v_mul(a, b):
    d = {}
    for m, c in v_of(a)[1]:
        for m2, c2 in v_of(b)[1]:
            mm = mono_mul(m, m2)
            d[mm] = s_add(d.get(mm, ZERO), s_mul(c, c2))
    return V(d)


def v_recip(a):
    a = v_of(a)
    if len(a[1]) == 1:
        m, c = a[1][0]
        return V({I(tuple((x, -e) for x, e in m)): s_inv(c)})
    return V({I(((a, -1),)): ONE})


def v_sqrt(a):
    a = v_of(a)
    if len(a[1]) == 1:
        m, c = a[1][0]
        if all(e % 2 == 0 for _, e in m) and c[0] == 'k' and c[1] == 1:
            return V({I(tuple((x, e // 2) for x, e in m)): ONE})
    return v_atom(I(('vf', 'sqrt', a)))


def vf(name, *args):
    return v_atom(I(('vf', name) + tuple(args)))


VPOS = set()    # vector atoms assumed strictly positive elementwise


def v_posfactor(vs):
    """(common positive elementwise/scalar factor, residues) over a list of vectors"""
    com = None
    coms = None
    for v in vs:
        for m, c in v_of(v)[1]:
            d = {a: e for a, e in m if a in VPOS}
            com = d if com is None else {a: e for a, e in com.items() if d.get(a) == e}
            for sm, sc in _items(c):
                d = {a: e for a, e in sm if a in POS}
                coms = d if coms is None else {a: e for a, e in coms.items() if d.get(a) == e}
    com = com or {}
    coms = coms or {}
    vm = I(tuple(sorted(com.items(), key=lambda x: key(x[0]))))
    sm = _mk({I(tuple(sorted(coms.items(), key=lambda x: key(x[0])))): 1})
    f = V({vm: sm})
    inv = v_recip(f)
    return f, [v_mul(inv, v) for v in vs]


def v_fn_homog(name, *vs):
    """positively homogeneous elementwise function: f(k*v) = k*f(v) for k>0 common to all arguments"""
    vs = [v_of(v) for v in vs]
    if all(len(v[1]) == 0 for v in vs):
        return V({})
    f, rest = v_posfactor([v for v in vs])
    return v_mul(f, v_atom(I(('vf', name) + tuple(rest))))


def v_neg(a):
    return v_scale(MONE, a)


def v_canon_sign(v):
    n = v_neg(v)
    return v if key(v) <= key(n) else n


def s_norm(v, kind='inf'):
    v = v_of(v)
    if not v[1]:
        return ZERO
    # scalar positive common factor; numeric constants
    coms = None
    for m, c in v[1]:
        for sm, sc in _items(c):
            d = {a: e for a, e in sm if a in POS}
            coms = d if coms is None else {a: e for a, e in coms.items() if d.get(a) == e}
    sm = _mk({I(tuple(sorted((coms or {}).items(), key=lambda x: key(x[0])))): 1})
    v2 = v_scale(s_inv(sm), v)
    if len(v2[1]) == 1:
        m, c = v2[1][0]
        if not m:
            return s_mul(sm, s_abs(c))
        a = s_abs(c)
        return s_mul(s_mul(sm, a), I(('f', 'norm' if kind == 'inf' else 'norm' + kind, V({m: ONE}))))
    return s_mul(sm, I(('f', 'norm' if kind == 'inf' else 'norm' + kind, v_canon_sign(v2))))


def s_dot(a, b):
    p = v_mul(a, b)
    return s_vsum(p)


def s_vsum(p):
    out = ZERO
    for m, c in p[1]:
        out = s_add(out, s_mul(c, I(('f', 'vsum', m))))
    return out


# ---------------------------------------------------------------- matrices
def m_atom(a):
    return I(('mat', ONE, (), a, ()))


def m_of(t):
    return t if t[0] == 'mat' else m_atom(I(t))


def m_scale(s, M):
    M = m_of(M)
    return I(('mat', s_mul(s, M[1]), M[2], M[3], M[4]))


def _diag(v):
    v = v_of(v)
    if len(v[1]) == 1:
        return v[1][0][1], v[1][0][0]
    return ONE, I(((v, 1),))


def m_ldiag(v, M):
    M = m_of(M)
    s, mono = _diag(v)
    return I(('mat', s_mul(s, M[1]), mono_mul(mono, M[2]), M[3], M[4]))


def m_rdiag(v, M):
    M = m_of(M)
    s, mono = _diag(v)
    return I(('mat', s_mul(s, M[1]), M[2], M[3], mono_mul(mono, M[4])))


def _mono_vec(m):
    return V({m: ONE})


def m_apply(M, v, trans=False):
    M = m_of(M)
    v = v_of(v)
    L, R = (M[4], M[2]) if trans else (M[2], M[4])
    core = M[3]
    rv = v_mul(_mono_vec(R), v)
    d = {}
    for m, c in rv[1]:
        a = I(('mv', core, trans, m))
        am = I(((a, 1),))
        d[am] = s_add(d.get(am, ZERO), c)
    return v_scale(M[1], v_mul(_mono_vec(L), V(d)))


# ---------------------------------------------------------------- generic substitution
def rebuild(t, f, memo=None):
    """bottom-up rebuild; f(atom) -> replacement term (scalar/vector/matrix as appropriate) or None to keep"""
    if memo is None:
        memo = {}

    def sc(t):
        if t[0] == 'k':
            return t
        r = memo.get(('s', t))
        if r is not None:
            return r
        if t[0] == 'sum':
            out = ZERO
            for m, c in t[1]:
                x = I(('k', c))
                for a, e in m:
                    b = sc(a)
                    if e < 0:
                        b, e = s_inv(b), -e
                    for _ in range(e):
                        x = s_mul(x, b)
                out = s_add(out, x)
        else:
            out = f('s', t)
            if out is None:
                out = sc_atom(t)
        memo[('s', t)] = out
        return out

    def sc_atom(t):
        if t[0] == 'f':
            n = t[1]
            if n == 'abs':
                return s_abs(sc(t[2]))
            if n == 'max':
                return s_max(*[sc(x) for x in t[2]])
            if n == 'min':
                return s_min(*[sc(x) for x in t[2]])
            if n.startswith('norm'):
                return s_norm(vec(t[2]), n[4:] or 'inf')
            if n == 'vsum':
                p = v_const(ONE)
                for a, e in t[2]:
                    p = v_mul(p, vpow(vatom(a), e))
                return s_vsum(p)
            return I(('f', n) + tuple(anyt(x) for x in t[2:]))
        if t[0] in ('lt', 'eq'):
            return I((t[0], anyt(t[1]), anyt(t[2])))
        if t[0] == 'not':
            return I(('not', anyt(t[1])))
        return t

    def vpow(v, e):
        if e < 0:
            v, e = v_recip(v), -e
        r = v
        for _ in range(e - 1):
            r = v_mul(r, v)
        return r

    def vatom(a):
        r = memo.get(('v', a))
        if r is not None:
            return r
        if a[0] == 'vec':
            out = vec(a)
        else:
            out = f('v', a)
            if out is None:
                if a[0] == 'mv':
                    p = v_const(ONE)
                    for x, e in a[3]:
                        p = v_mul(p, vpow(vatom(x), e))
                    out = m_apply(mat(m_atom(a[1])), p, a[2])
                elif a[0] == 'vf':
                    args = [anyt(x) if isinstance(x, tuple) else x for x in a[2:]]
                    if a[1] in ('proj', 'pos', 'neg', 'abs', 'projrec'):
                        out = v_fn_homog(a[1], *args)
                    else:
                        out = v_atom(I(('vf', a[1]) + tuple(args)))
                else:
                    out = v_atom(a)
            else:
                out = v_of(out)
        memo[('v', a)] = out
        return out

    def vec(v):
        v = v_of(v)
        out = V({})
        for m, c in v[1]:
            x = v_const(sc(c))
            for a, e in m:
                x = v_mul(x, vpow(vatom(a), e))
            out = v_add(out, x)
        return out

    def mono(m):
        p = v_const(ONE)
        for x, e in m:
            p = v_mul(p, vpow(vatom(x), e))
        return p

    def mat(M):
        core = f('m', M[3])
        r = m_of(core) if core is not None else m_atom(M[3])
        r = m_ldiag(mono(M[2]), r)
        r = m_rdiag(mono(M[4]), r)
        return m_scale(sc(M[1]), r)

    def anyt(t):
        if isinstance(t, frozenset):
            return frozenset(anyt(x) for x in t)
        if not isinstance(t, tuple) or not t or not isinstance(t[0], str):
            return t
        if t[0] == 'vec':
            return vec(t)
        if t[0] == 'mat':
            return mat(t)
        return sc(t)

    return anyt(t)


def _nodes(t):
    """all sub-tuples"""
    st = [t]
    seen = set()
    while st:
        x = st.pop()
        if isinstance(x, frozenset):
            st.extend(x)
            continue
        if not isinstance(x, tuple) or id(x) in seen:
            continue
        seen.add(id(x))
        yield x
        st.extend(x)


def mentions(t, pred):
    for x in _nodes(t):
        if x and isinstance(x[0], str) and pred(x):
            return True
    return False


# ---------------------------------------------------------------- pretty printing
def show(t, d=0):
    if d > 40:
        return "..."
    if not isinstance(t, tuple) or not t:
        return str(t)
    h = t[0]
    if h == 'k':
        v = t[1]
        return str(v) if v.denominator == 1 else "%g" % float(v)
    if h == 'sum':
        return " + ".join(_smono(m, c) for m, c in t[1])
    if h == 'vec':
        if not t[1]:
            return "0"
        out = []
        for m, c in t[1]:
            body = "*".join(show(a) + ("" if e == 1 else "^%d" % e) for a, e in m) or "1"
            if c == ONE:
                out.append(body)
            elif c == MONE:
                out.append("-" + body)
            else:
                out.append("(%s)*%s" % (show(c), body))
        return "[" + " + ".join(out) + "]"
    if h == 'mat':
        return "mat(%s;%s,%s,%s)" % (show(t[1]), _m(t[2]), show(t[3]), _m(t[4]))
    if h == 'mv':
        return "%s%s(%s)" % (show(t[1]), "'" if t[2] else "", _m(t[3]))
    if h in ('f', 'vf'):
        if isinstance(t[2] if len(t) > 2 else None, frozenset):
            return "%s{%s}" % (t[1], ", ".join(sorted(show(x) for x in t[2])))
        if t[1] == 'vsum':
            return "sum(%s)" % _m(t[2])
        return "%s(%s)" % (t[1], ", ".join(show(x) for x in t[2:]))
    if h == 'init':
        p = pathstr(t[2])
        b = show(t[1])
        if p == "$v" or p == "$m":
            return b
        return b + "->" + p if t[1][0] in ('init', 'arg') else b + "." + p
    if h == 'arg':
        return t[1]
    if h == 'ptr':
        return "&" + show(t[1]) + "->" + pathstr(t[2])
    if h == 'phi':
        return "phi[%s:%s]" % (t[2], t[3] if isinstance(t[3], str) else pathstr(t[3][1]))
    if h in ('lt', 'eq'):
        return "(%s %s %s)" % (show(t[1]), {'lt': '<', 'eq': '=='}[h], show(t[2]))
    if h == 'not':
        return "!" + show(t[1])
    if h == 'alloc':
        return "alloc@%s" % (t[2],)
    return "%s(%s)" % (h, ", ".join(show(x) for x in t[1:]))


def _m(m):
    return "*".join(show(a) + ("" if e == 1 else "^%d" % e) for a, e in m) or "1"


def _smono(m, c):
    b = _m(m) if m else ""
    if not b:
        return show(('k', c))
    if c == 1:
        return b
    return show(('k', c)) + "*" + b


def pathstr(p):
    out = []
    for x in p:
        if isinstance(x, tuple) and x and x[0] == 'i':
            out.append("[%s]" % show(x[1]))
        else:
            out.append(("." if out else "") + str(x))
    return "".join(out)
