"""Transfer functions of the algebra layer's vector/matrix operations (their definitions, as documented in
include/private/algebra_vector.h and algebra_matrix.h) and of libc functions.  Check C25 verifies that the vector backends
implement exactly these definitions."""
from fractions import Fraction
from . import terms as T
from .absint import K0, K1, split, mkptr, IN, PV, PM, VOID

M = {}


def model(*names):
    def deco(f):
        for n in names:
            M[n] = f
        return f
    return deco


def W(I, st, inst, args, ctx):
    return I, st, inst, args, ctx


def setv(f):
    """model of an operation whose first argument is the destination vector"""
    def g(I, st, inst, args, ctx):
        I.setvec(st, args[0], f(I, st, args), inst, ctx)
        return VOID
    return g


v = lambda I, st, p: I.vec(st, p)

M['OSQPVectorf_copy'] = setv(lambda I, st, a: v(I, st, a[1]))
M['OSQPVectorf_from_raw'] = setv(lambda I, st, a: rawvec(I, st, a[1]))
M['OSQPVectorf_set_scalar'] = setv(lambda I, st, a: T.v_const(a[1]))
M['OSQPVectorf_mult_scalar'] = setv(lambda I, st, a: T.v_scale(a[1], v(I, st, a[0])))
M['OSQPVectorf_plus'] = setv(lambda I, st, a: T.v_add(v(I, st, a[1]), v(I, st, a[2])))
M['OSQPVectorf_minus'] = setv(lambda I, st, a: T.v_add(v(I, st, a[1]), v(I, st, a[2]), K1, T.MONE))
M['OSQPVectorf_add_scaled'] = setv(lambda I, st, a: T.v_add(v(I, st, a[2]), v(I, st, a[4]), a[1], a[3]))
M['OSQPVectorf_add_scaled3'] = setv(lambda I, st, a: T.v_add(T.v_add(v(I, st, a[2]), v(I, st, a[4]), a[1], a[3]),
                                                            v(I, st, a[6]), K1, a[5]))
M['OSQPVectorf_ew_prod'] = setv(lambda I, st, a: T.v_mul(v(I, st, a[1]), v(I, st, a[2])))
M['OSQPVectorf_ew_reciprocal'] = setv(lambda I, st, a: T.v_recip(v(I, st, a[1])))
M['OSQPVectorf_ew_sqrt'] = setv(lambda I, st, a: T.v_sqrt(v(I, st, a[0])))
M['OSQPVectorf_ew_max_vec'] = setv(lambda I, st, a: T.vf('max', *sorted([v(I, st, a[1]), v(I, st, a[2])], key=T.key)))
M['OSQPVectorf_ew_min_vec'] = setv(lambda I, st, a: T.vf('min', *sorted([v(I, st, a[1]), v(I, st, a[2])], key=T.key)))
M['OSQPVectorf_ew_bound_vec'] = setv(lambda I, st, a: T.v_fn_homog('proj', v(I, st, a[1]), v(I, st, a[2]), v(I, st, a[3])))
M['OSQPVectorf_project_polar_reccone'] = setv(lambda I, st, a: T.v_fn_homog('projrec', v(I, st, a[0]), v(I, st, a[1]), v(I, st, a[2]), T.v_const(a[3])))
M['OSQPVectorf_set_scalar_if_lt'] = setv(lambda I, st, a: T.vf('iflt', v(I, st, a[1]), a[2], a[3]))
M['OSQPVectorf_set_scalar_if_gt'] = setv(lambda I, st, a: T.vf('ifgt', v(I, st, a[1]), a[2], a[3]))
M['OSQPVectorf_round_to_zero'] = setv(lambda I, st, a: T.vf('round0', v(I, st, a[0]), a[1]))
M['OSQPVectorf_set_scalar_conditional'] = setv(lambda I, st, a: T.vf('cond', v(I, st, a[1]), a[2], a[3], a[4]))
M['OSQPVectorf_subvector_assign'] = setv(lambda I, st, a: T.vf('subassign', v(I, st, a[0]), rawvec(I, st, a[1]), a[2], a[3], a[4]))
M['OSQPVectorf_subvector_assign_scalar'] = setv(lambda I, st, a: T.vf('subassigns', v(I, st, a[0]), a[1], a[2], a[3]))
M['OSQPVectori_from_raw'] = setv(lambda I, st, a: rawvec(I, st, a[1]))


def rawvec(I, st, p):
    """contents of a raw array as a vector"""
    base, path = split(p)
    if base[0] == 'rawof':      # OSQPVectorf_data(x) (+ offset)
        if not path:
            return I.vec(st, base[1])
        return T.v_atom(IN(('sub', I.vec(st, base[1]), path)))
    r = st.mem.get((base, IN(path + ('$v',))))
    if r is not None:
        return r
    return T.v_atom(IN(('init', p, ('$v',))))


@model('OSQPVectorf_to_raw', 'OSQPVectori_to_raw')
def _to_raw(I, st, inst, a, ctx):
    I.setvec(st, a[0], I.vec(st, a[1]), inst, ctx)
    return VOID


@model('OSQPVectorf_data', 'OSQPVectori_data')
def _data(I, st, inst, a, ctx):
    return IN(('rawof', a[0]))


@model('OSQPVectorf_length', 'OSQPVectori_length')
def _len(I, st, inst, a, ctx):
    return IN(('len', a[0]))


for _n, _f in {
    'OSQPVectorf_norm_inf': lambda I, st, a: T.s_norm(v(I, st, a[0])),
    'OSQPVectorf_norm_2': lambda I, st, a: T.s_norm(v(I, st, a[0]), '2'),
    'OSQPVectorf_norm_1': lambda I, st, a: T.s_norm(v(I, st, a[0]), '1'),
    'OSQPVectorf_scaled_norm_inf': lambda I, st, a: T.s_norm(T.v_mul(v(I, st, a[0]), v(I, st, a[1]))),
    'OSQPVectorf_norm_inf_diff': lambda I, st, a: T.s_norm(T.v_add(v(I, st, a[0]), v(I, st, a[1]), K1, T.MONE)),
    'OSQPVectorf_dot_prod': lambda I, st, a: T.s_dot(v(I, st, a[0]), v(I, st, a[1])),
}.items():
    M[_n] = (lambda f: lambda I, st, inst, a, ctx: f(I, st, a))(_f)


@model('OSQPVectorf_dot_prod_signed')
def _dps(I, st, inst, a, ctx):
    if a[2] == K1:
        p = T.v_fn_homog('pos', v(I, st, a[1]))
    elif a[2] == T.MONE:
        p = T.v_fn_homog('neg', v(I, st, a[1]))
    elif a[2][0] == 'k':
        p = v(I, st, a[1])
    else:
        p = T.vf('signed', v(I, st, a[1]), a[2])
    return T.s_dot(v(I, st, a[0]), p)


@model('OSQPVectorf_all_leq')
def _leq(I, st, inst, a, ctx):
    return IN(('f', 'all_leq', v(I, st, a[0]), v(I, st, a[1])))


@model('OSQPVectorf_in_reccone')
def _inrec(I, st, inst, a, ctx):
    return IN(('f', 'in_reccone', v(I, st, a[0]), v(I, st, a[1]), v(I, st, a[2]), a[3], a[4]))


@model('OSQPVectorf_is_eq', 'OSQPMatrix_is_eq')
def _iseq(I, st, inst, a, ctx):
    return I.unknown(st, inst, a, ctx, 'is_eq', havoc=False)


@model('OSQPVectorf_ew_bounds_type')
def _bt(I, st, inst, a, ctx):
    new = T.vf('btype', v(I, st, a[1]), v(I, st, a[2]), a[3], a[4])
    old = I.vec(st, a[0])
    I.setvec(st, a[0], new, inst, ctx)
    return IN(('f', 'changed', old, new))


def newobj(I, st, inst, ctx, content, kind='m', slot='$v', n=None):
    out = I.alloc(st, inst, ctx, kind)
    for val, s in out:
        if val[0] == 'alloc' and content is not None:
            s.mem[(val, IN((slot,)))] = content
        if val[0] == 'alloc' and n is not None:
            s.mem[(val, IN(('$len',)))] = n
    return out


@model('OSQPVectorf_malloc', 'OSQPVectori_malloc')
def _vm(I, st, inst, a, ctx):
    return newobj(I, st, inst, ctx, None, n=a[0])


@model('OSQPVectorf_calloc', 'OSQPVectori_calloc')
def _vc(I, st, inst, a, ctx):
    return newobj(I, st, inst, ctx, T.V({}), n=a[0])


@model('OSQPVectorf_new', 'OSQPVectori_new')
def _vn(I, st, inst, a, ctx):
    return newobj(I, st, inst, ctx, rawvec(I, st, a[0]), n=a[1])


@model('OSQPVectorf_copy_new')
def _vcn(I, st, inst, a, ctx):
    return newobj(I, st, inst, ctx, I.vec(st, a[0]))


@model('OSQPVectorf_view')
def _view(I, st, inst, a, ctx):
    return newobj(I, st, inst, ctx, T.v_atom(IN(('view', a[0], a[1], a[2]))))


@model('OSQPVectorf_view_update')
def _viewu(I, st, inst, a, ctx):
    I.setvec(st, a[0], T.v_atom(IN(('view', a[1], a[2], a[3]))), inst, ctx)
    return VOID


@model('OSQPVectorf_subvector_byrows')
def _sub(I, st, inst, a, ctx):
    return newobj(I, st, inst, ctx, T.vf('rows', I.vec(st, a[0]), a[1]))


@model('OSQPVectorf_concat')
def _cat(I, st, inst, a, ctx):
    return newobj(I, st, inst, ctx, T.vf('concat', I.vec(st, a[0]), I.vec(st, a[1])))


@model('OSQPVectorf_free', 'OSQPVectori_free', 'OSQPVectorf_view_free', 'OSQPMatrix_free')
def _free(I, st, inst, a, ctx):
    return VOID


# ---------------------------------------------------------------- matrices
@model('OSQPMatrix_mult_scalar')
def _ms(I, st, inst, a, ctx):
    I.setmat(st, a[0], T.m_scale(a[1], I.mat(st, a[0])), inst, ctx)
    return VOID


@model('OSQPMatrix_lmult_diag')
def _ml(I, st, inst, a, ctx):
    I.setmat(st, a[0], T.m_ldiag(I.vec(st, a[1]), I.mat(st, a[0])), inst, ctx)
    return VOID


@model('OSQPMatrix_rmult_diag')
def _mr(I, st, inst, a, ctx):
    I.setmat(st, a[0], T.m_rdiag(I.vec(st, a[1]), I.mat(st, a[0])), inst, ctx)
    return VOID


@model('OSQPMatrix_update_values')
def _mu(I, st, inst, a, ctx):
    idx = a[2]
    from .absint import evalc, c_eq
    if evalc(st, c_eq(idx, K0)):
        idx = K0
    I.setmat(st, a[0], T.m_atom(IN(('upd', I.mat(st, a[0]), a[1], idx, a[3]))), inst, ctx)
    return VOID


def axpy(trans):
    def g(I, st, inst, a, ctx):
        r = T.v_add(T.m_apply(I.mat(st, a[0]), I.vec(st, a[1]), trans), I.vec(st, a[2]), a[3], a[4])
        I.setvec(st, a[2], r, inst, ctx)
        return VOID
    return g


M['OSQPMatrix_Axpy'] = axpy(False)
M['OSQPMatrix_Atxpy'] = axpy(True)


@model('OSQPMatrix_get_m', 'OSQPMatrix_get_n', 'OSQPMatrix_get_nz', 'OSQPMatrix_get_x', 'OSQPMatrix_get_i', 'OSQPMatrix_get_p')
def _mg(I, st, inst, a, ctx):
    n = inst.x["callee"][1] if inst.x["callee"][0] == 'glob' else 'get'
    return IN(('init', a[0], ('$' + n[len('OSQPMatrix_'):],)))


@model('OSQPMatrix_col_norm_inf', 'OSQPMatrix_row_norm_inf')
def _mn(I, st, inst, a, ctx):
    I.setvec(st, a[1], T.vf(inst.x["callee"][1][len('OSQPMatrix_'):], I.mat(st, a[0])), inst, ctx)
    return VOID


@model('OSQPMatrix_extract_diag')
def _md(I, st, inst, a, ctx):
    I.setvec(st, a[1], T.vf('diag', I.mat(st, a[0])), inst, ctx)
    return VOID


@model('OSQPMatrix_AtDA_extract_diag')
def _mad(I, st, inst, a, ctx):
    I.setvec(st, a[2], T.vf('AtDAdiag', I.mat(st, a[0]), I.vec(st, a[1])), inst, ctx)
    return VOID


@model('OSQPMatrix_new_from_csc')
def _mnew(I, st, inst, a, ctx):
    return newobj(I, st, inst, ctx, T.m_atom(IN(('csc', a[0]))), slot='$m')


@model('OSQPMatrix_copy_new', 'OSQPMatrix_triu_to_symm')
def _mcopy(I, st, inst, a, ctx):
    return newobj(I, st, inst, ctx, I.mat(st, a[0]), slot='$m')


@model('OSQPMatrix_submatrix_byrows')
def _msub(I, st, inst, a, ctx):
    return newobj(I, st, inst, ctx, T.m_atom(IN(('rows', I.mat(st, a[0]), a[1]))), slot='$m')


@model('OSQPMatrix_vstack')
def _mvs(I, st, inst, a, ctx):
    return newobj(I, st, inst, ctx, T.m_atom(IN(('vstack', I.mat(st, a[0]), I.mat(st, a[1])))), slot='$m')


@model('OSQPMatrix_get_csc')
def _mcsc(I, st, inst, a, ctx):
    return newobj(I, st, inst, ctx, None)


# ---------------------------------------------------------------- libc / math
@model('malloc', 'mkl_malloc', 'MKL_malloc', 'blas_malloc')
def _malloc(I, st, inst, a, ctx):
    return I.alloc(st, inst, ctx, 'm')


@model('calloc', 'mkl_calloc', 'MKL_calloc')
def _calloc(I, st, inst, a, ctx):
    return I.alloc(st, inst, ctx, 'z')


@model('realloc')
def _realloc(I, st, inst, a, ctx):
    return I.alloc(st, inst, ctx, 'm')


@model('free', 'mkl_free', 'MKL_free')
def _cfree(I, st, inst, a, ctx):
    return VOID


for _n in ('printf', 'fprintf', 'puts', 'putchar', 'fflush', 'fputs', 'fputc', 'vprintf'):
    M[_n] = lambda I, st, inst, a, ctx: I.unknown(st, inst, a, ctx, 'print', havoc=False)


@model('fabs', 'llvm.fabs', 'fabs.f64')
def _fabs(I, st, inst, a, ctx):
    return T.s_abs(a[0])


@model('sqrt')
def _sqrt(I, st, inst, a, ctx):
    return IN(('f', 'sqrt', a[0]))


@model('pow')
def _pow(I, st, inst, a, ctx):
    return IN(('f', 'pow', a[0], a[1]))


@model('fmuladd', 'fma', 'llvm.fmuladd')
def _fma(I, st, inst, a, ctx):
    return T.s_add(T.s_mul(a[0], a[1]), a[2])


@model('fmod')
def _fmod(I, st, inst, a, ctx):
    return IN(('f', 'fmod', a[0], a[1]))


@model('fmax')
def _fmax(I, st, inst, a, ctx):
    return T.s_max(a[0], a[1])


@model('fmin')
def _fmin(I, st, inst, a, ctx):
    return T.s_min(a[0], a[1])


@model('strlen')
def _strlen(I, st, inst, a, ctx):
    return IN(('f', 'strlen', a[0]))


@model('llvm.memcpy', 'llvm.memmove', 'memcpy', 'memmove')
def _memcpy(I, st, inst, a, ctx):
    d, s = a[0], a[1]
    db, dp = split(d)
    sb, sp = split(s)
    # contents of the destination object are replaced by those of the source
    for k in [k for k in st.mem if k[0] == db and IN(k[1][:len(dp)]) is dp]:
        del st.mem[k]
    for k in [k for k in st.mem if k[0] == sb and IN(k[1][:len(sp)]) is sp]:
        st.mem[(db, IN(tuple(dp) + tuple(k[1][len(sp):])))] = st.mem[k]
    if (db, IN(dp + ('$v',))) not in st.mem:
        st.mem[(db, IN(dp + ('$v',)))] = rawvec(I, st, s)
    st.mem[(db, IN(dp + ('$copyof',)))] = s
    return d


@model('llvm.memset', 'memset')
def _memset(I, st, inst, a, ctx):
    db, dp = split(a[0])
    for k in [k for k in st.mem if k[0] == db and IN(k[1][:len(dp)]) is dp]:
        st.mem[k] = a[1]
    st.mem[(db, IN(dp + ('$v',)))] = T.v_const(a[1])
    return a[0]


@model('llvm.stacksave', 'stacksave')
def _ss(I, st, inst, a, ctx):
    return IN(('undef', 'ss'))


@model('llvm.stackrestore', 'stackrestore')
def _sr(I, st, inst, a, ctx):
    return IN(('undef', 'sr'))
