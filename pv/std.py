"""Models of std and dependency functions used by the crate.  Every entry is part of the trusted base and is reported
(by name, with the number of uses) in the evidence of each run that relies on it."""
import re
import z3
from .engine import *
from .engine import _Uninit, SKIP
from .tys import Ty, UNIT, INTS, parse_ty
from . import loops as _loops

TABLE = {}


def M(*names):
    def deco(f):
        for n in names:
            TABLE[n] = f
        return f
    return deco


def install(E):
    E.intrinsics = TABLE


U8 = Ty('adt', 'u8')
I32 = Ty('adt', 'i32')
USIZE = Ty('adt', 'usize')
STRING = Ty('adt', 'String')
STR = Ty('adt', 'str')
BOOL = Ty('adt', 'bool')
IOERR = Ty('adt', 'io::Error')


def opt_ty(t):
    return Ty('adt', 'Option', [t])


def res_ty(t, e):
    return Ty('adt', 'Result', [t, e])


def some(t, v):
    return Agg(opt_ty(t) if t is not None else None, [v], 1)


def none(t):
    return Agg(opt_ty(t), [], 0)


def ok(ty, v):
    return Agg(ty, [v], 0)


def err(ty, v):
    return Agg(ty, [v], 1)


def unit():
    return Agg(UNIT, [])


def last(t):
    return t.name.split('::')[-1]


def arg_ty(c, i):
    """static type of argument i, when known"""
    return None


def target(E, st, v):
    """(RefV or None, value) behind any number of references"""
    ref = None
    while isinstance(v, (RefV, GuardV)):
        ref = v.addr if isinstance(v, GuardV) else v
        v = E.load_ref(st, v)
    return ref, v


def val(E, st, v):
    return target(E, st, v)[1]


def boxed(E, st, v):
    return E.deref_all(st, v)


def variant(E, st, v):
    """(ref, variant index, fields) of an enum value, deciding which variant it is on this path"""
    ref, v = target(E, st, v)
    if isinstance(v, tuple) and v and v[0] == 'symvar':
        v = v[1]
    if isinstance(v, Agg):
        return ref, v, v.vi, v.fields
    if isinstance(v, Sym):
        while z3.is_app(v.term) and v.term.decl().kind() == z3.Z3_OP_ITE:
            t = v.term.arg(1) if E.decide(st, v.term.arg(0)) else v.term.arg(2)
            v = E.unpack(st, t, v.ty)
            if isinstance(v, Agg):
                return ref, v, v.vi, v.fields
        s = E.sort(v.ty)
        n = s.num_constructors()
        for vi in range(n):
            if vi == n - 1 or E.decide(st, simp(s.recognizer(vi)(v.term))):
                if vi == n - 1:
                    E_assume(E, st, simp(s.recognizer(vi)(v.term)))
                a = E.explode(st, v, vi)
                return ref, a, vi, a.fields
    raise Unsupported(f'variant of {type(v).__name__} {str(v)[:80]}')


def E_assume(E, st, c):
    b = as_bool(c)
    if b is False:
        raise PathEnd()
    st.assume(c)


def field_ref(E, st, ref, a, i, mut=False):
    """reference to payload field i of enum value `a` located at ref"""
    if ref is None:
        return E.ref_to(st, a.fields[i], None, mut)
    info = E.db.info(a.ty)
    return RefV(ref.root, ref.path + (('v', info.variants[a.vi][0]), ('f', i)), mut)


def seq_outs(outs, k):
    """apply k(st, v) -> outcomes to each outcome"""
    r = []
    for s, v in outs:
        x = k(s, v)
        r += x if isinstance(x, list) else [(s, x)]
    return r


def callf(E, st, f, args):
    """call a closure; each continuation handled by the caller"""
    return E.call_value(st, f, args)


def uf(name, *sorts):
    return z3.Function(name, *sorts)


# ------------------------------------------------------------------------------------------ identity-like
@M('Clone::clone', 'ToOwned::to_owned', 'Option::cloned', 'Option::copied', 'Rc::clone', 'Arc::clone')
def clone(E, st, c):
    ref, v = target(E, st, c.args[0])
    if c.dty is not None and c.dty.kind == 'ref':
        # clone of a reference
        x = c.args[0]
        while isinstance(x, (RefV, GuardV)):
            y = E.load_ref(st, x)
            if not isinstance(y, (RefV, GuardV)):
                return x
            x = y
        return x
    if c.cal.method in ('cloned', 'copied') and isinstance(v, Agg) and v.vi == 1 and c.dty is not None:
        w = v.fields[0]
        t = c.dty.args[0]
        if isinstance(w, RefV) and t.kind != 'ref':
            w = val(E, st, w)
        elif isinstance(w, RefV):
            n = E.load_ref(st, w)
            w = n if isinstance(n, RefV) else w
        return Agg(c.dty, [w], 1)
    if c.cal.method in ('cloned', 'copied') and isinstance(v, Agg) and v.vi == 0:
        return Agg(c.dty, [], 0)
    if c.cal.method in ('cloned', 'copied') and isinstance(v, Sym):
        return Sym(c.dty, v.term) if c.dty is not None else v
    return retype(E, st, v, c.dty)


def retype(E, st, v, ty):
    return v


@M('AsRef::as_ref', 'Borrow::borrow', 'String::as_str', 'String::as_mut_str', 'String::as_bytes_ref', 'Path::new', 'PathBuf::as_path',
   'OsStr::new', 'Vec::as_slice', 'Vec::as_mut_slice', 'Box::new', 'slice::as_ref', 'str::as_ref', 'CString::as_c_str',
   'MaybeUninit::new', 'ManuallyDrop::new', 'Pin::new', 'Pin::new_unchecked', 'Box::pin', 'IntoFuture::into_future',
   'Option::as_deref', 'Option::as_ref_identity', 'must_use', 'hint::must_use', 'Wrapping', 'identity', 'convert::identity',
   'String::into_boxed_str', 'Vec::into_boxed_slice', 'OsStr::to_os_string', 'Path::as_os_str', 'str::as_str', 'AssertUnwindSafe',
   'Box::into_pin', 'Pin::as_mut', 'Pin::get_mut', 'RefCell::new', 'Cell::new', 'Mutex::new', 'RwLock::new', 'Arc::new',
   'Path::to_path_buf', 'str::to_string', 'String::clone', 'RefCell::into_inner', 'Cell::into_inner', 'str::to_owned', 'black_box')
def ident(E, st, c):
    v = c.args[0]
    if c.cal.short in ('RefCell::new', 'Cell::new', 'Mutex::new', 'RwLock::new', 'RefCell::into_inner', 'Cell::into_inner'):
        return v
    if c.cal.short == 'Option::as_deref':
        ref, a, vi, fs = variant(E, st, v)
        if vi == 0:
            return Agg(c.dty, [], 0)
        return Agg(c.dty, [field_ref(E, st, ref, a, 0)], 1)
    if c.cal.method in ('to_path_buf', 'to_owned', 'to_string', 'to_os_string'):
        return val(E, st, v)
    return v


@M('Deref::deref', 'DerefMut::deref_mut', 'Rc::as_ref', 'Box::as_ref', 'Box::as_mut')
def deref(E, st, c):
    v = c.args[0]
    t = E.load_ref(st, v) if isinstance(v, (RefV, GuardV)) else v
    if isinstance(t, RcV):
        return RefV(('h', cell_strip(t.ty), t.ptr), ())
    if isinstance(t, GuardV):
        return RefV(t.addr.root, t.addr.path, True)
    if isinstance(t, RefV):
        return t
    if isinstance(t, Agg) and t.ty is not None and t.ty.kind == 'adt' and t.ty.name in ('Box', 'Pin', 'Arc'):
        return RefV(v.root, v.path + (('f', 0),), v.mut)
    if isinstance(t, PyV) and t.kind == 'static':
        return static_ref(E, st, t)
    if isinstance(t, Agg) and t.ty is not None and t.ty.name == 'Cow':
        w = t.fields[0]
        return w if isinstance(w, RefV) else E.ref_to(st, w, STR)
    return v


def cell_strip(t):
    while t.kind == 'adt' and t.name in ('RefCell', 'Cell', 'RwLock', 'Mutex', 'UnsafeCell') and t.args:
        t = t.args[0]
    return t


def static_ref(E, st, s):
    """lazy_static: run its real initialiser once per state"""
    raise Unsupported(f'static {s.name}')


@M('Into::into', 'From::from', 'Cow::into_owned', 'String::from', 'PathBuf::from', 'Box::from', 'Rc::from', 'TryInto::try_into', 'TryFrom::try_from')
def into(E, st, c):
    v = c.args[0]
    if c.cal.method in ('try_into', 'try_from'):
        return try_into(E, st, c, v)
    d = c.dty
    if d is None:
        return v
    if d.kind == 'ref':
        return v
    if d.kind == 'adt':
        n = d.name
        if n in STR_TYPES:
            x = val(E, st, v)
            if isinstance(x, Agg) and x.ty.name == 'Cow':
                x = val(E, st, x.fields[0])
            if isinstance(x, z3.ExprRef):
                return x
        if n in INTS and isinstance(v, z3.ExprRef) and z3.is_int(v):
            return v
        if n in INTS and isinstance(v, z3.ExprRef) and z3.is_bool(v):
            return simp(z3.If(v, z3.IntVal(1), z3.IntVal(0)))
        if n in ('f64',) and isinstance(v, z3.ExprRef):
            return z3.ToReal(v) if z3.is_int(v) else v
        if n in ('Vec', 'Box', 'VecDeque'):
            x = val(E, st, v)
            if isinstance(x, VecV):
                return x
            if n == 'Vec' and isinstance(x, z3.ExprRef):
                return str_bytes(E, st, x)
        if n == 'Option':
            return Agg(d, [v], 1)
        if n == 'Rc':
            return E.alloc_heap(st, cell_strip(d.args[0]), v)
        if n in ('HashMap', 'BTreeMap', 'HashSet', 'BTreeSet'):
            x = val(E, st, v)
            return build_map(E, st, d, x)
        if c.cal.self_ty is not None and str(c.cal.self_ty) == str(d):
            if c.cal.trait_args and str(c.cal.trait_args[0]) == str(d):
                return v
            if c.cal.method == 'into' and c.cal.trait_args and str(c.cal.trait_args[0]) == str(c.cal.self_ty):
                return v
        return opaque_app(E, st, 'into_' + E.tname(d), [v], d, c)
    raise Unsupported(f'into {d}')


def try_into(E, st, c, v):
    t = c.dty.args[0]
    if t.is_int() and isinstance(v, z3.ExprRef):
        if E.decide(st, simp(E.in_range(v, t.name))):
            return ok(c.dty, v)
        return err(c.dty, E.fresh(st, c.dty.args[1], 'tryerr'))
    raise Unsupported('try_into')


def build_map(E, st, d, x):
    """HashMap::from([(k, v); n])"""
    isset = d.name in ('HashSet', 'BTreeSet')
    kty = d.args[0]
    vty = UNIT if isset else d.args[1]
    if x.items is None:
        raise Unsupported('map from symbolic array')
    m = E.empty_map(kty, vty)
    for it in x.items:
        if isset:
            m = map_insert(E, st, m, E.pack(st, it, kty), unit())
        else:
            f = it.fields
            m = map_insert(E, st, m, E.pack(st, f[0], kty), f[1])
    ks = [E.pack(st, it if isset else it.fields[0], kty) for it in x.items]
    if distinct_literals(ks):
        m.items = [(k, unit() if isset else it.fields[1]) for k, it in zip(ks, x.items)]
    return m


def distinct_literals(ks):
    ks = [simp(k) for k in ks]
    return all(z3.is_string_value(k) or z3.is_int_value(k) for k in ks) and len({str(k) for k in ks}) == len(ks)


def opaque_app(E, st, name, args, dty, c=None):
    """result as an uninterpreted function of the (packed) arguments"""
    ts = []
    for a in args:
        a = val(E, st, a)
        ts.append(pack_any(E, st, a))
    f = z3.Function(name, *[t.sort() for t in ts], E.sort(dty))
    return E.unpack(st, f(*ts), dty)


def pack_any(E, st, a):
    if isinstance(a, z3.ExprRef):
        return a
    if isinstance(a, (Sym, OpaqueV)):
        return a.term
    if isinstance(a, RcV):
        return a.ptr
    if isinstance(a, VecV):
        return E.pack(st, a, Ty('adt', 'Vec', [a.ety]))
    if isinstance(a, MapV):
        return E.pack(st, a, None)
    if isinstance(a, Agg) and a.ty is not None:
        return E.pack(st, a, a.ty)
    raise Unsupported(f'pack_any {type(a).__name__} {a}')


@M('Default::default')
def default(E, st, c):
    return default_of(E, st, c.dty)


def default_of(E, st, t):
    if t.kind == 'adt':
        if t.is_int():
            return z3.IntVal(0)
        if t.name == 'bool':
            return z3.BoolVal(False)
        if t.name in STR_TYPES:
            return z3.StringVal('')
        if t.last in REAL_TYPES:
            return z3.RealVal(0)
        if t.name == 'Option':
            return Agg(t, [], 0)
        if t.name in ('Vec', 'VecDeque'):
            return VecV(t.args[0], [])
        if t.name in MAP_TYPES:
            return E.empty_map(t.args[0], t.args[1])
        if t.name in SET_TYPES:
            return E.empty_map(t.args[0], UNIT)
        m = E.find_method(t.name, 'Default', 'default')
        if m:
            outs = E.run(E.load(m), [], st.copy())
            if len(outs) == 1:
                st.cells.update(outs[0][0].cells)
                st.overlay = outs[0][0].overlay
                st.ghost = outs[0][0].ghost
                return outs[0][1]
    if t.kind == 'tuple':
        return Agg(t, [default_of(E, st, x) for x in t.args])
    raise Unsupported(f'default of {t}')


# ------------------------------------------------------------------------------------------ comparison
def eq_val(E, st, a, b):
    """structural equality as a formula"""
    a, b = boxed(E, st, a), boxed(E, st, b)
    if isinstance(a, Agg) and a.ty is not None and a.ty.name == 'Cow':
        a = boxed(E, st, a.fields[0])
    if isinstance(b, Agg) and b.ty is not None and b.ty.name == 'Cow':
        b = boxed(E, st, b.fields[0])
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        if a.sort() != b.sort():
            raise Unsupported(f'eq of {a.sort()} and {b.sort()}')
        member_facts(E, st, a, b)
        member_facts(E, st, b, a)
        return a == b
    if isinstance(a, Agg) and isinstance(b, Agg):
        if a.vi != b.vi:
            return z3.BoolVal(False)
        fs = [eq_val(E, st, x, y) for x, y in zip(a.fields, b.fields)]
        return z3.And(*fs) if fs else z3.BoolVal(True)
    if isinstance(a, VecV) and isinstance(b, VecV):
        if a.items is not None and b.items is not None:
            if len(a.items) != len(b.items):
                return z3.BoolVal(False)
            return z3.And([eq_val(E, st, x, y) for x, y in zip(a.items, b.items)] + [z3.BoolVal(True)])
        i = z3.Int('eqi')
        x, y = E.vec_arr(st, a), E.vec_arr(st, b)
        return z3.And(a.length() == b.length(), z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < a.length()), z3.Select(x, i) == z3.Select(y, i))))
    ty = getattr(a, 'ty', None) or getattr(b, 'ty', None)
    if isinstance(a, (Sym, OpaqueV, Agg)) and isinstance(b, (Sym, OpaqueV, Agg)):
        return E.pack(st, a, ty) == E.pack(st, b, ty)
    if isinstance(a, RcV) and isinstance(b, RcV):
        x = E.load_ref(st, RefV(('h', cell_strip(a.ty), a.ptr)))
        y = E.load_ref(st, RefV(('h', cell_strip(b.ty), b.ptr)))
        return eq_val(E, st, x, y)
    if isinstance(a, MapV) and isinstance(b, MapV):
        return z3.And(a.has == b.has, a.size == b.size)
    raise Unsupported(f'eq of {type(a).__name__} {type(b).__name__}')


def find_select(t):
    """the element access arr[i] inside t (arr: Int -> value), if there is exactly one"""
    found = []

    def walk(e, d):
        if d > 8 or len(found) > 1:
            return
        if z3.is_app(e):
            if e.decl().kind() == z3.Z3_OP_SELECT and e.arg(0).sort().domain() == I and z3.is_const(e.arg(0)) or \
                    e.decl().kind() == z3.Z3_OP_SELECT and e.arg(0).sort().domain() == I and z3.is_app(e.arg(0)) and e.arg(0).decl().kind() == z3.Z3_OP_DT_ACCESSOR:
                found.append(e)
                return
            for c in e.children():
                walk(c, d + 1)
    walk(t, 0)
    return found[0] if len(found) == 1 else None


def member_fn(E, el, arr, i, t):
    """CI(arr, t, j): some element of arr[0..j) has shape(element) == t"""
    hole = z3.Const('hole', el.sort())
    return hole


def ci(arr, shape, t, j):
    f = z3.Function('CI_' + shape, arr.sort(), t.sort(), I, B)
    return f(arr, t, j)


def shape_of(a, sel):
    if a.eq(sel):
        return ''
    hole = z3.Const('hole_' + sel.sort().name(), sel.sort())
    return re.sub(r'\W+', '_', str(z3.substitute(a, (sel, hole))))


def member_facts(E, st, a, t, n=None):
    """true instances of the definition of CI at the element compared"""
    sel = find_select(a)
    if sel is None or find_select(t) is not None and find_select(t).eq(sel):
        return
    arr, i = sel.arg(0), sel.arg(1)
    sh = shape_of(a, sel)
    E.eq_log.append((arr, sh, t))
    if as_int(i) is not None:
        return
    st.assume(z3.Not(ci(arr, sh, t, z3.IntVal(0))))
    st.assume(z3.Implies(i >= 0, ci(arr, sh, t, i + 1) == z3.Or(a == t, ci(arr, sh, t, i))))
    for m in E.seq_lens.get(arr.get_id(), ()):
        st.assume(z3.Implies(z3.And(i >= 0, i < m, a == t), ci(arr, sh, t, m)))


@M('PartialEq::eq')
def p_eq(E, st, c):
    return simp(eq_val(E, st, c.args[0], c.args[1]))


@M('PartialEq::ne')
def p_ne(E, st, c):
    return simp(z3.Not(eq_val(E, st, c.args[0], c.args[1])))


@M('discriminant_value', 'intrinsics::discriminant_value', 'mem::discriminant')
def discrv(E, st, c):
    return E.discr(st, val(E, st, c.args[0]))


@M('Level::le', '<Level as PartialOrd>::le')
def loglevel(E, st, c):
    return z3.BoolVal(True)


def _cmp(op):
    def f(E, st, c):
        a, b = val(E, st, c.args[0]), val(E, st, c.args[1])
        if isinstance(a, OpaqueV) and a.ty.last in ('Level',) or isinstance(b, OpaqueV) and b.ty.last in ('LevelFilter',) or isinstance(a, FnV):
            return z3.BoolVal(True)
        if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
            return simp(op(a, b))
        raise Unsupported('partial_cmp')
    return f


TABLE['PartialOrd::lt'] = _cmp(lambda a, b: a < b)
TABLE['PartialOrd::le'] = _cmp(lambda a, b: a <= b)
TABLE['PartialOrd::gt'] = _cmp(lambda a, b: a > b)
TABLE['PartialOrd::ge'] = _cmp(lambda a, b: a >= b)


@M('Ord::cmp', 'PartialOrd::partial_cmp')
def ordcmp(E, st, c):
    a, b = val(E, st, c.args[0]), val(E, st, c.args[1])
    o = Ty('adt', 'Ordering')
    if not isinstance(a, z3.ExprRef):
        raise Unsupported('cmp')
    r = Agg(o, [], 0) if E.decide(st, simp(a < b)) else Agg(o, [], 1) if E.decide(st, simp(a == b)) else Agg(o, [], 2)
    return Agg(c.dty, [r], 1) if c.cal.method == 'partial_cmp' else r


@M('Ord::min', 'cmp::min')
def omin(E, st, c):
    a, b = c.args
    return simp(z3.If(a <= b, a, b))


@M('Ord::max', 'cmp::max')
def omax(E, st, c):
    a, b = c.args
    return simp(z3.If(a >= b, a, b))


@M('Ord::clamp')
def oclamp(E, st, c):
    a, lo, hi = c.args
    E.require_nopanic(st, lo <= hi, 'clamp')
    return simp(z3.If(a < lo, lo, z3.If(a > hi, hi, a)))


TABLE['f64::min'] = omin
TABLE['f64::max'] = omax


# ------------------------------------------------------------------------------------------ integers
def int_name(c):
    return c.cal.self_ty.name if c.cal.self_ty is not None else None


def _int_ops():
    ops = {'add': lambda a, b: a + b, 'sub': lambda a, b: a - b, 'mul': lambda a, b: a * b}
    for n in INTS:
        lo, hi = INTS[n]
        for o, f in ops.items():
            def chk(E, st, c, f=f, n=n):
                r = simp(f(c.args[0], c.args[1]))
                if E.decide(st, simp(E.in_range(r, n))):
                    return some(Ty('adt', n), r)
                return none(Ty('adt', n))
            TABLE[f'{n}::checked_{o}'] = chk

            def sat(E, st, c, f=f, lo=lo, hi=hi):
                r = f(c.args[0], c.args[1])
                return simp(z3.If(r < lo, z3.IntVal(lo), z3.If(r > hi, z3.IntVal(hi), r)))
            TABLE[f'{n}::saturating_{o}'] = sat

            def wr(E, st, c, f=f, n=n):
                return simp(E.wrap(simp(f(c.args[0], c.args[1])), n))
            TABLE[f'{n}::wrapping_{o}'] = wr
        TABLE[f'{n}::abs'] = lambda E, st, c: simp(z3.If(c.args[0] >= 0, c.args[0], -c.args[0]))
        TABLE[f'{n}::is_negative'] = lambda E, st, c: simp(c.args[0] < 0)
        TABLE[f'{n}::is_positive'] = lambda E, st, c: simp(c.args[0] > 0)

        def tobytes(E, st, c, n=n):
            k = (hi_bits(n)) // 8
            v = c.args[0]
            lo, _ = INTS[n]
            if lo < 0:
                v = v % (1 << (8 * k))
            return VecV(U8, [simp((v / (1 << (8 * i))) % 256) for i in range(k)])

        def frombytes(E, st, c, n=n):
            k = hi_bits(n) // 8
            x = val(E, st, c.args[0])
            r = z3.IntVal(0)
            for i in range(k):
                r = r + zint(E.sel(st, x, z3.IntVal(i))) * (1 << (8 * i))
            return simp(E.wrap(simp(r), n))
        TABLE[f'{n}::to_be_bytes'] = lambda E, st, c, f=tobytes: VecV(U8, f(E, st, c).items[::-1])
        TABLE[f'{n}::to_ne_bytes'] = TABLE[f'{n}::to_le_bytes'] = tobytes
        TABLE[f'{n}::from_ne_bytes'] = TABLE[f'{n}::from_le_bytes'] = frombytes

        def pow_(E, st, c, n=n):
            a, b = as_int(c.args[0]), as_int(c.args[1])
            if a is None or b is None:
                raise Unsupported('pow')
            return z3.IntVal(a ** b)
        TABLE[f'{n}::pow'] = pow_

        def diveu(E, st, c):
            b = as_int(c.args[1])
            if not b:
                raise Unsupported('div_euclid')
            return simp(c.args[0] / b)

        def remeu(E, st, c):
            b = as_int(c.args[1])
            if not b:
                raise Unsupported('rem_euclid')
            return simp(c.args[0] % b)
        TABLE[f'{n}::div_euclid'] = diveu
        TABLE[f'{n}::rem_euclid'] = remeu


def hi_bits(n):
    lo, hi = INTS[n]
    return (hi - lo + 1).bit_length() - 1


_int_ops()


# ------------------------------------------------------------------------------------------ option / result
@M('Option::is_some', 'Result::is_err')
def is1(E, st, c):
    return simp(E.discr(st, val(E, st, c.args[0])) == 1)


@M('Option::is_none', 'Result::is_ok')
def is0(E, st, c):
    return simp(E.discr(st, val(E, st, c.args[0])) == 0)


def hpanic(E, st, what):
    E.panic(st, what)


@M('Option::unwrap', 'Option::expect', 'Option::unwrap_unchecked')
def o_unwrap(E, st, c):
    _, a, vi, fs = variant_np(E, st, c.args[0], 1, f'{c.cal.method} of None in {where(E)}')
    return fs[0]


@M('Result::unwrap', 'Result::expect')
def r_unwrap(E, st, c):
    _, a, vi, fs = variant_np(E, st, c.args[0], 0, f'{c.cal.method} of Err in {where(E)}')
    return fs[0]


@M('Result::unwrap_err', 'Result::expect_err')
def r_unwrap_err(E, st, c):
    _, a, vi, fs = variant_np(E, st, c.args[0], 1, f'{c.cal.method} of Ok in {where(E)}')
    return fs[0]


def where(E):
    return short(E.cur_fn[-1]) if E.cur_fn else '?'


def variant_np(E, st, v, want, what):
    v0 = val(E, st, v)
    if isinstance(v0, Sym):
        E.require_nopanic(st, simp(E.sort(v0.ty).recognizer(want)(v0.term)), what)
    ref, a, vi, fs = variant(E, st, v)
    if vi != want:
        E.panic(st, what)
    return ref, a, vi, fs


@M('Option::unwrap_or', 'Result::unwrap_or')
def unwrap_or(E, st, c):
    good = 1 if c.cal.short.startswith('Option') else 0
    _, a, vi, fs = variant(E, st, c.args[0])
    return fs[0] if vi == good else c.args[1]


@M('Option::unwrap_or_default', 'Result::unwrap_or_default')
def unwrap_or_default(E, st, c):
    good = 1 if c.cal.short.startswith('Option') else 0
    _, a, vi, fs = variant(E, st, c.args[0])
    return fs[0] if vi == good else default_of(E, st, c.dty)


@M('Option::unwrap_or_else')
def o_unwrap_or_else(E, st, c):
    _, a, vi, fs = variant(E, st, c.args[0])
    return fs[0] if vi == 1 else callf(E, st, c.args[1], [])


@M('Result::unwrap_or_else')
def r_unwrap_or_else(E, st, c):
    _, a, vi, fs = variant(E, st, c.args[0])
    return fs[0] if vi == 0 else callf(E, st, c.args[1], [fs[0]])


@M('Option::map')
def o_map(E, st, c):
    _, a, vi, fs = variant(E, st, c.args[0])
    if vi == 0:
        return Agg(c.dty, [], 0)
    return [(s, Agg(c.dty, [v], 1)) for s, v in callf(E, st, c.args[1], [fs[0]])]


@M('array::map')
def array_map(E, st, c):
    a = val(E, st, c.args[0])
    items = getattr(a, 'items', None)
    if items is None:
        raise Unsupported('map over an array of unknown items')
    outs = [(st, [])]
    for x in items:
        nxt = []
        for s, acc in outs:
            nxt += [(s2, acc + [v]) for s2, v in callf(E, s, c.args[1], [x])]
        outs = nxt
    return [(s, VecV(c.dty.args[0] if c.dty is not None and c.dty.args else None, acc)) for s, acc in outs]


@M('Option::inspect', 'Result::inspect', 'Result::inspect_err')
def o_inspect(E, st, c):
    _, a, vi, fs = variant(E, st, c.args[0])
    good = {'Option::inspect': 1, 'Result::inspect': 0, 'Result::inspect_err': 1}[c.cal.short]
    if vi != good:
        return a
    return [(s, a) for s, _ in callf(E, st, c.args[1], [E.ref_to(st, fs[0], None)])]


@M('Option::map_or')
def o_map_or(E, st, c):
    _, a, vi, fs = variant(E, st, c.args[0])
    return c.args[1] if vi == 0 else callf(E, st, c.args[2], [fs[0]])


@M('Option::map_or_else')
def o_map_or_else(E, st, c):
    _, a, vi, fs = variant(E, st, c.args[0])
    return callf(E, st, c.args[1], []) if vi == 0 else callf(E, st, c.args[2], [fs[0]])


@M('Result::map_or')
def r_map_or(E, st, c):
    _, a, vi, fs = variant(E, st, c.args[0])
    return c.args[1] if vi == 1 else callf(E, st, c.args[2], [fs[0]])


@M('Result::map_or_else')
def r_map_or_else(E, st, c):
    _, a, vi, fs = variant(E, st, c.args[0])
    return callf(E, st, c.args[1], [fs[0]]) if vi == 1 else callf(E, st, c.args[2], [fs[0]])


@M('Option::is_some_and')
def o_is_some_and(E, st, c):
    _, a, vi, fs = variant(E, st, c.args[0])
    return z3.BoolVal(False) if vi == 0 else callf(E, st, c.args[1], [fs[0]])


@M('Option::is_none_or')
def o_is_none_or(E, st, c):
    _, a, vi, fs = variant(E, st, c.args[0])
    return z3.BoolVal(True) if vi == 0 else callf(E, st, c.args[1], [fs[0]])


@M('Option::and_then')
def o_and_then(E, st, c):
    _, a, vi, fs = variant(E, st, c.args[0])
    return Agg(c.dty, [], 0) if vi == 0 else callf(E, st, c.args[1], [fs[0]])


@M('Option::filter')
def o_filter(E, st, c):
    _, a, vi, fs = variant(E, st, c.args[0])
    if vi == 0:
        return Agg(c.dty, [], 0)

    def k(s, b):
        return [(s, a if E.decide(s, b) else Agg(c.dty, [], 0))]
    return seq_outs_fork(E, callf(E, st, c.args[1], [E.ref_to(st, fs[0], None)]), k)


def seq_outs_fork(E, outs, k):
    r = []
    for s, v in outs:
        r += E.forked(s, lambda s2, v=v: k(s2, v))
    return r


@M('Option::or_else')
def o_or_else(E, st, c):
    _, a, vi, fs = variant(E, st, c.args[0])
    return a if vi == 1 else callf(E, st, c.args[1], [])


@M('Option::or')
def o_or(E, st, c):
    _, a, vi, fs = variant(E, st, c.args[0])
    return a if vi == 1 else c.args[1]


@M('Option::and')
def o_and(E, st, c):
    _, a, vi, fs = variant(E, st, c.args[0])
    return c.args[1] if vi == 1 else Agg(c.dty, [], 0)


@M('Option::xor')
def o_xor(E, st, c):
    _, a, vi, fs = variant(E, st, c.args[0])
    _, b, vj, _ = variant(E, st, c.args[1])
    return a if vi == 1 and vj == 0 else b if vi == 0 and vj == 1 else Agg(c.dty, [], 0)


@M('Option::ok_or')
def ok_or(E, st, c):
    _, a, vi, fs = variant(E, st, c.args[0])
    return Agg(c.dty, [fs[0]], 0) if vi == 1 else Agg(c.dty, [c.args[1]], 1)


@M('Option::ok_or_else')
def ok_or_else(E, st, c):
    _, a, vi, fs = variant(E, st, c.args[0])
    if vi == 1:
        return Agg(c.dty, [fs[0]], 0)
    return [(s, Agg(c.dty, [v], 1)) for s, v in callf(E, st, c.args[1], [])]


@M('Result::ok')
def r_ok(E, st, c):
    _, a, vi, fs = variant(E, st, c.args[0])
    return Agg(c.dty, [fs[0]], 1) if vi == 0 else Agg(c.dty, [], 0)


@M('Result::err')
def r_err(E, st, c):
    _, a, vi, fs = variant(E, st, c.args[0])
    return Agg(c.dty, [fs[0]], 1) if vi == 1 else Agg(c.dty, [], 0)


@M('Result::map')
def r_map(E, st, c):
    _, a, vi, fs = variant(E, st, c.args[0])
    if vi == 1:
        return Agg(c.dty, [fs[0]], 1)
    return [(s, Agg(c.dty, [v], 0)) for s, v in callf(E, st, c.args[1], [fs[0]])]


@M('Result::map_err')
def r_map_err(E, st, c):
    _, a, vi, fs = variant(E, st, c.args[0])
    if vi == 0:
        return Agg(c.dty, [fs[0]], 0)
    return [(s, Agg(c.dty, [v], 1)) for s, v in callf(E, st, c.args[1], [fs[0]])]


@M('Result::and_then')
def r_and_then(E, st, c):
    _, a, vi, fs = variant(E, st, c.args[0])
    return Agg(c.dty, [fs[0]], 1) if vi == 1 else callf(E, st, c.args[1], [fs[0]])


@M('Result::or_else')
def r_or_else(E, st, c):
    _, a, vi, fs = variant(E, st, c.args[0])
    return Agg(c.dty, [fs[0]], 0) if vi == 0 else callf(E, st, c.args[1], [fs[0]])


@M('Option::as_ref', 'Option::as_mut', 'Option::as_deref_mut', 'Result::as_ref', 'Result::as_mut')
def o_as_ref(E, st, c):
    ref, a, vi, fs = variant(E, st, c.args[0])
    if c.cal.short.startswith('Option') and vi == 0:
        return Agg(c.dty, [], 0)
    return Agg(c.dty, [field_ref(E, st, ref, a, 0, c.cal.method != 'as_ref')], vi)


@M('Option::take', 'mem::take')
def o_take(E, st, c):
    ref, v = target(E, st, c.args[0])
    if c.cal.short == 'mem::take':
        E.store_addr(st, ref.root, ref.path, default_of(E, st, c.dty))
        return v
    E.store_addr(st, ref.root, ref.path, Agg(c.dty, [], 0))
    return v


@M('Option::replace', 'mem::replace')
def replace(E, st, c):
    ref, v = target(E, st, c.args[0])
    E.store_addr(st, ref.root, ref.path, c.args[1] if c.cal.short == 'mem::replace' else Agg(c.dty, [c.args[1]], 1))
    return v


@M('Option::insert', 'Option::get_or_insert_with', 'Option::get_or_insert')
def o_insert(E, st, c):
    ref, a, vi, fs = variant(E, st, c.args[0])
    if vi == 1 and c.cal.method != 'insert':
        return field_ref(E, st, ref, a, 0, True)
    if c.cal.method == 'get_or_insert_with':
        out = []
        for s, v in callf(E, st, c.args[1], []):
            n = Agg(a.ty, [v], 1)
            E.store_addr(s, ref.root, ref.path, n)
            out.append((s, field_ref(E, s, ref, n, 0, True)))
        return out
    n = Agg(a.ty, [c.args[1]], 1)
    E.store_addr(st, ref.root, ref.path, n)
    return field_ref(E, st, ref, n, 0, True)


@M('mem::swap')
def swap(E, st, c):
    a, b = c.args
    va, vb = E.load_ref(st, a), E.load_ref(st, b)
    E.store_addr(st, a.root, a.path, vb)
    E.store_addr(st, b.root, b.path, va)
    return unit()


@M('mem::drop', 'mem::forget')
def mdrop(E, st, c):
    if c.cal.method == 'forget':
        return unit()
    v = c.args[0]
    ty = c.cal.targs[0] if c.cal.targs else None
    return [(s, unit()) for s in E.drop(st, v, ty)]


@M('Option::transpose')
def o_transpose(E, st, c):
    _, a, vi, fs = variant(E, st, c.args[0])
    if vi == 0:
        return Agg(c.dty, [none(c.dty.args[0].args[0])], 0)
    _, b, vj, gs = variant(E, st, fs[0])
    return Agg(c.dty, [some(c.dty.args[0].args[0], gs[0])], 0) if vj == 0 else Agg(c.dty, [gs[0]], 1)


@M('Option::zip')
def o_zip(E, st, c):
    _, a, vi, fs = variant(E, st, c.args[0])
    _, b, vj, gs = variant(E, st, c.args[1])
    return Agg(c.dty, [Agg(c.dty.args[0], [fs[0], gs[0]])], 1) if vi == vj == 1 else Agg(c.dty, [], 0)


@M('Option::flatten', 'Result::flatten')
def o_flatten(E, st, c):
    _, a, vi, fs = variant(E, st, c.args[0])
    return Agg(c.dty, [], 0) if vi == 0 else fs[0]


@M('bool::then')
def b_then(E, st, c):
    if E.decide(st, c.args[0]):
        return [(s, Agg(c.dty, [v], 1)) for s, v in callf(E, st, c.args[1], [])]
    return Agg(c.dty, [], 0)


@M('bool::then_some')
def b_then_some(E, st, c):
    return Agg(c.dty, [c.args[1]], 1) if E.decide(st, c.args[0]) else Agg(c.dty, [], 0)


@M('Try::branch')
def branch(E, st, c):
    _, a, vi, fs = variant(E, st, c.args[0])
    isopt = a.ty.name == 'Option'
    if isopt:
        return Agg(c.dty, [fs[0]], 0) if vi == 1 else Agg(c.dty, [Agg(c.dty.args[0], [], 0)], 1)
    if vi == 0:
        return Agg(c.dty, [fs[0]], 0)
    return Agg(c.dty, [Agg(c.dty.args[0], [fs[0]], 1)], 1)


@M('Try::from_output')
def from_output(E, st, c):
    return Agg(c.dty, [c.args[0]], 1 if c.dty.name == 'Option' else 0)


@M('FromResidual::from_residual')
def from_residual(E, st, c):
    _, a, vi, fs = variant(E, st, c.args[0])
    if c.dty.name == 'Option':
        return Agg(c.dty, [], 0)
    e = fs[0]
    src = c.cal.trait_args[0].args[1] if c.cal.trait_args else None
    dst = c.dty.args[1]
    if src is None or str(src) == str(dst):
        return Agg(c.dty, [e], 1)
    p = E.find_method(dst.name, 'From', 'from', [src]) if dst.kind == 'adt' else None
    if p:
        return [(s, Agg(c.dty, [v], 1)) for s, v in E.run(E.load(p), [e], st)]
    return Agg(c.dty, [opaque_app(E, st, f'from_{E.tname(src)}_to_{E.tname(dst)}', [e], dst)], 1)


# ------------------------------------------------------------------------------------------ rc, cells, locks
@M('Rc::new')
def rc_new(E, st, c):
    t = cell_strip(c.dty.args[0] if c.dty is not None else c.cal.pargs[0])
    return E.alloc_heap(st, t, c.args[0])


@M('Rc::ptr_eq')
def rc_ptr_eq(E, st, c):
    a, b = val(E, st, c.args[0]), val(E, st, c.args[1])
    return simp(a.ptr == b.ptr)


@M('Rc::into_inner', 'Rc::try_unwrap')
def rc_into_inner(E, st, c):
    v = val(E, st, c.args[0])
    x = E.load_ref(st, RefV(('h', cell_strip(v.ty), v.ptr)))
    b = E.fresh_const(B, 'unique')
    h = E.contract.rc_unique(E, st, v) if E.contract is not None and hasattr(E.contract, 'rc_unique') else None
    if h is not None:
        b = h
    if E.decide(st, b):
        return Agg(c.dty, [x], 1 if c.cal.method == 'into_inner' else 0)
    return Agg(c.dty, [], 0) if c.cal.method == 'into_inner' else Agg(c.dty, [v], 1)


@M('RefCell::borrow', 'RefCell::borrow_mut', 'RwLock::read', 'RwLock::write', 'Mutex::lock', 'RefCell::try_borrow', 'RefCell::try_borrow_mut')
def borrow(E, st, c):
    ref, v = target_cell(E, st, c.args[0])
    kind = 'mut' if c.cal.method in ('borrow_mut', 'write', 'lock', 'try_borrow_mut') else 'ref'
    if ref is None:
        ref = E.ref_to(st, v, None, True)
    if c.cal.short.startswith('RefCell'):
        check_borrow(E, st, ref, kind)
    E.nguard += 1
    g = GuardV(ref, kind, E.nguard)
    st.guards[g.gid] = (ref, kind)
    if c.cal.short.startswith(('RwLock', 'Mutex')) or c.cal.method.startswith('try_'):
        return Agg(c.dty, [g], 0)
    return g


def target_cell(E, st, v):
    """address of the cell a &RefCell points at"""
    if isinstance(v, GuardV):
        v = v.addr
    t = E.load_ref(st, v)
    if isinstance(t, (RefV, GuardV)):
        return target_cell(E, st, t)
    if isinstance(t, PyV) and t.kind == 'static':
        return static_cell(E, st, t), None
    return v, t


def static_cell(E, st, t):
    k = 'static:' + str(t.name)
    if k not in st.ghost:
        ty = t.ty
        while ty.kind in ('ref', 'ptr'):
            ty = ty.args[0]
        cid = E.new_cell(st, E.fresh(st, cell_strip(ty), 'static'), cell_strip(ty))
        st.ghost[k] = RefV(cid, ())
    return st.ghost[k]


def same_addr(a, b):
    """formula: may the two roots be the same object"""
    if isinstance(a.root, int) or isinstance(b.root, int):
        return a.root == b.root and str(a.path) == str(b.path)
    if str(a.root[1]) != str(b.root[1]):
        return False
    if str(a.path) != str(b.path):
        return False
    return a.root[2] == b.root[2]


def check_borrow(E, st, ref, kind):
    for gid, (r, k) in list(st.guards.items()):
        if k == 'ref' and kind == 'ref':
            continue
        e = same_addr(r, ref)
        if e is False:
            continue
        E.require_nopanic(st, z3.BoolVal(False) if e is True else simp(z3.Not(e)), f'RefCell already borrowed in {where(E)}')


@M('Cell::get')
def cell_get(E, st, c):
    return val(E, st, c.args[0])


@M('Cell::set', 'Cell::replace')
def cell_set(E, st, c):
    ref, v = target(E, st, c.args[0])
    E.store_addr(st, ref.root, ref.path, c.args[1])
    return unit() if c.cal.method == 'set' else v


@M('MaybeUninit::uninit', 'MaybeUninit::zeroed', 'Box::new_uninit')
def mu_uninit(E, st, c):
    t = c.cal.pargs[0] if c.cal.pargs else c.dty.args[0]
    if c.cal.short == 'Box::new_uninit':
        return E.ref_to(st, UNINIT, t, True)
    return E.fresh(st, t, 'uninit')


@M('MaybeUninit::as_mut_ptr', 'MaybeUninit::as_ptr', 'MaybeUninit::assume_init', 'Vec::as_mut_ptr', 'Vec::as_ptr', 'slice::as_ptr', 'slice::as_mut_ptr',
   'str::as_ptr', 'ptr::cast', 'ptr::cast_mut', 'ptr::cast_const')
def mu_ident(E, st, c):
    return c.args[0]


NULL = z3.StringVal('\x00')     # a null char pointer; no C string has a NUL in it


@M('CString::as_ptr', 'CStr::as_ptr')
def cs_ptr(E, st, c):
    """a pointer to a C string is modelled by the string"""
    return val(E, st, c.args[0])


@M('CString::into_raw')
def cs_into_raw(E, st, c):
    """... and one that may be written through by a cell holding it"""
    return E.ref_to(st, val(E, st, c.args[0]), Ty('adt', 'str'), True)


@M('CString::from_raw', 'CStr::from_ptr')
def cs_from_raw(E, st, c):
    return val(E, st, c.args[0])


@M('ptr::null', 'ptr::null_mut')
def ptr_null(E, st, c):
    t = c.dty.args[0] if c.dty is not None and c.dty.args else None
    if t is not None and t.is_int():
        return NULL
    return E.fresh(st, c.dty, 'null')


@M('boxed::box_assume_init_into_vec_unsafe')
def box_into_vec(E, st, c):
    return val(E, st, c.args[0])


# ------------------------------------------------------------------------------------------ vec / slice
@M('Vec::new', 'VecDeque::new')
def vec_new(E, st, c):
    t = c.dty.args[0] if c.dty is not None and c.dty.args else c.cal.pargs[0]
    return VecV(t, [])


@M('Vec::with_capacity')
def vec_cap(E, st, c):
    return vec_new(E, st, c)


@M('vec::from_elem')
def from_elem(E, st, c):
    v, n = c.args
    t = c.dty.args[0]
    k = as_int(n)
    if k is not None and k <= 32:
        return VecV(t, [v] * k)
    return VecV(t, n=n, arr=z3.K(I, E.pack(st, v, t)))


def vset(E, st, ref, v):
    E.store_addr(st, ref.root, ref.path, v)


@M('Vec::push', 'VecDeque::push_back')
def vec_push(E, st, c):
    ref, v = target(E, st, c.args[0])
    x = c.args[1]
    if v.items is not None:
        nv = VecV(v.ety, v.items + (x,))
    else:
        nv = VecV(v.ety, n=simp(v.n + 1), arr=z3.Store(v.arr, v.n, E.pack(st, x, v.ety)))
    vset(E, st, ref, nv)
    return unit()


@M('Vec::pop')
def vec_pop(E, st, c):
    ref, v = target(E, st, c.args[0])
    if v.items is not None:
        if not v.items:
            return none(v.ety)
        vset(E, st, ref, VecV(v.ety, v.items[:-1]))
        return some(v.ety, v.items[-1])
    if E.decide(st, simp(v.n == 0)):
        return none(v.ety)
    x = E.sel(st, v, simp(v.n - 1))
    vset(E, st, ref, VecV(v.ety, n=simp(v.n - 1), arr=v.arr))
    return some(v.ety, x)


@M('Vec::clear')
def vec_clear(E, st, c):
    ref, v = target(E, st, c.args[0])
    vset(E, st, ref, VecV(v.ety, []))
    return unit()


@M('Vec::len', 'slice::len', 'VecDeque::len', 'Bytes::len', 'BytesMut::len')
def vec_len(E, st, c):
    v = val(E, st, c.args[0])
    if isinstance(v, z3.ExprRef):
        return byte_len(E, st, v)
    return v.length()


@M('Vec::is_empty', 'slice::is_empty')
def vec_is_empty(E, st, c):
    return simp(val(E, st, c.args[0]).length() == 0)


def concat(E, st, a, b):
    if a.items is not None and b.items is not None:
        return VecV(a.ety, a.items + b.items)
    if a.items is not None and not a.items:
        return b
    x, y = E.vec_arr(st, a), E.vec_arr(st, b)
    i = z3.Int('cc_i')
    n = a.length()
    return VecV(a.ety, n=simp(n + b.length()), arr=z3.Lambda([i], z3.If(i < n, z3.Select(x, i), z3.Select(y, i - n))))


@M('Vec::append')
def vec_append(E, st, c):
    ref, v = target(E, st, c.args[0])
    r2, w = target(E, st, c.args[1])
    vset(E, st, ref, concat(E, st, v, w))
    vset(E, st, r2, VecV(w.ety, []))
    return unit()


@M('Vec::extend_from_slice', 'BufMut::put_slice', 'BytesMut::extend_from_slice')
def vec_extend_slice(E, st, c):
    ref, v = target(E, st, c.args[0])
    w = val(E, st, c.args[1])
    vset(E, st, ref, concat(E, st, v, w))
    return unit()


@M('BytesMut::with_capacity', 'BytesMut::new')
def bytes_new(E, st, c):
    return VecV(U8, [])


def put_int(name, big):
    k = hi_bits(name) // 8

    def f(E, st, c):
        ref, v = target(E, st, c.args[0])
        x = c.args[1]
        if INTS[name][0] < 0:
            x = x % (1 << (8 * k))
        bs = [simp((x / (1 << (8 * i))) % 256) for i in range(k)]
        vset(E, st, ref, concat(E, st, v, VecV(U8, bs[::-1] if big else bs)))
        return unit()
    return f


for _n in ('u8', 'u16', 'u32', 'u64', 'i8', 'i16', 'i32', 'i64'):
    TABLE[f'BufMut::put_{_n}'] = put_int(_n, True)
    TABLE[f'BufMut::put_{_n}_le'] = TABLE[f'BufMut::put_{_n}_ne'] = put_int(_n, False)


@M('Vec::truncate')
def vec_truncate(E, st, c):
    ref, v = target(E, st, c.args[0])
    n = c.args[1]
    k = as_int(n)
    if v.items is not None and k is not None:
        nv = VecV(v.ety, v.items[:k])
    else:
        nv = VecV(v.ety, n=simp(z3.If(n < v.length(), n, v.length())), arr=E.vec_arr(st, v))
    vset(E, st, ref, nv)
    return unit()


@M('Vec::resize')
def vec_resize(E, st, c):
    ref, v = target(E, st, c.args[0])
    n, x = c.args[1], c.args[2]
    a = E.vec_arr(st, v)
    i = z3.Int('rs_i')
    vset(E, st, ref, VecV(v.ety, n=n, arr=z3.Lambda([i], z3.If(i < v.length(), z3.Select(a, i), E.pack(st, x, v.ety)))))
    return unit()


@M('slice::to_vec', 'slice::into_vec', 'slice::concat_identity', 'Vec::into_iter_identity', 'Bytes::from', 'Bytes::to_vec', 'Vec::from', 'BytesMut::freeze')
def to_vec(E, st, c):
    v = val(E, st, c.args[0])
    if isinstance(v, z3.ExprRef):
        return str_bytes(E, st, v)
    return v


@M('slice::contains', 'Vec::contains', 'VecDeque::contains')
def vec_contains(E, st, c):
    v = val(E, st, c.args[0])
    x = val(E, st, c.args[1])
    return simp(contains_term(E, st, v, x))


def contains_term(E, st, v, x):
    xt = pack_any(E, st, x)
    if v.items is not None:
        return simp(z3.Or([eq_val(E, st, y, x) for y in v.items] + [z3.BoolVal(False)]))
    st.assume(z3.Not(ci(v.arr, '', xt, z3.IntVal(0))))
    return ci(v.arr, '', xt, v.n)


@M('slice::get', 'slice::get_mut', 'Vec::get', 'Vec::get_mut')
def vec_get(E, st, c):
    ref, v = target(E, st, c.args[0])
    i = c.args[1]
    if isinstance(i, z3.ExprRef):
        if E.decide(st, simp(i < v.length())):
            return Agg(c.dty, [RefV(ref.root, ref.path + (('i', i),))], 1)
        return Agg(c.dty, [], 0)
    a, b = range_bounds(E, st, v.length(), i)
    if E.decide(st, simp(z3.And(a <= b, b <= v.length()))):
        return Agg(c.dty, [RefV(ref.root, ref.path + (('slice', a, b),))], 1)
    return Agg(c.dty, [], 0)


@M('slice::first', 'slice::last', 'Vec::first', 'Vec::last')
def vec_first(E, st, c):
    ref, v = target(E, st, c.args[0])
    if E.decide(st, simp(v.length() == 0)):
        return Agg(c.dty, [], 0)
    i = z3.IntVal(0) if c.cal.method == 'first' else simp(v.length() - 1)
    return Agg(c.dty, [RefV(ref.root, ref.path + (('i', i),))], 1)


def range_bounds(E, st, n, r):
    """(start, end) of a std range value over length n"""
    if isinstance(r, Sym):
        r = E.explode(st, r)
    if isinstance(r, IterV) and r.kind == 'range':
        return r.idx, r.hi
    if not isinstance(r, Agg):
        raise Unsupported(f'range {r}')
    k = r.ty.last
    if k == 'Range':
        return r.fields[0], r.fields[1]
    if k == 'RangeTo':
        return z3.IntVal(0), r.fields[0]
    if k == 'RangeFrom':
        return r.fields[0], n
    if k == 'RangeFull':
        return z3.IntVal(0), n
    if k == 'RangeToInclusive':
        return z3.IntVal(0), simp(r.fields[0] + 1)
    if k == 'RangeInclusive':
        return r.fields[0], simp(r.fields[1] + 1)
    raise Unsupported(f'range {k}')


@M('RangeInclusive::new')
def range_incl(E, st, c):
    return Agg(Ty('adt', 'RangeInclusive', [USIZE]), list(c.args))


@M('Index::index', 'IndexMut::index_mut')
def index(E, st, c):
    ref, v = target(E, st, c.args[0])
    i = c.args[1]
    if isinstance(v, MapV):
        k = E.pack(st, i, v.kty)
        E.require_nopanic(st, simp(z3.Select(v.has, k)), f'map index in {where(E)}')
        return RefV(ref.root, ref.path + (('mv', k),), True)
    if isinstance(v, z3.ExprRef):
        # string slicing
        n = z3.Length(v)
        a, b = range_bounds(E, st, n, i)
        E.require_nopanic(st, simp(z3.And(a >= 0, a <= b, b <= n)), f'string slice in {where(E)}')
        return E.str_ref(st, simp(z3.SubString(v, a, b - a)))
    if isinstance(i, z3.ExprRef):
        E.require_nopanic(st, simp(z3.And(i >= 0, i < v.length())), f'index out of bounds in {where(E)}')
        return RefV(ref.root, ref.path + (('i', i),), True)
    a, b = range_bounds(E, st, v.length(), i)
    E.require_nopanic(st, simp(z3.And(a >= 0, a <= b, b <= v.length())), f'slice out of range in {where(E)}')
    if as_int(a) == 0 and same_len(b, v.length()):
        return ref
    return RefV(ref.root, ref.path + (('slice', a, b),), True)


def same_len(a, b):
    return a.eq(b) or (as_int(a) is not None and as_int(a) == as_int(b))


@M('slice::join', 'slice::concat')
def s_join(E, st, c):
    v = val(E, st, c.args[0])
    sep = val(E, st, c.args[1]) if len(c.args) > 1 else z3.StringVal('')
    if v.items is not None:
        out = z3.StringVal('')
        for n, x in enumerate(v.items):
            x = val(E, st, x)
            out = z3.Concat(out, sep, x) if n else x
        return simp(out)
    f = z3.Function('str_join', E._vecsort(STRING), S, S)
    return f(E._vecsort(STRING).constructor(0)(v.length(), v.arr), sep)


@M('Vec::remove', 'VecDeque::pop_front')
def vec_remove(E, st, c):
    ref, v = target(E, st, c.args[0])
    i = as_int(c.args[1]) if len(c.args) > 1 else 0
    if v.items is not None and i is not None:
        if c.cal.method == 'pop_front':
            if not v.items:
                return none(v.ety)
            vset(E, st, ref, VecV(v.ety, v.items[1:]))
            return some(v.ety, v.items[0])
        E.require_nopanic(st, z3.BoolVal(i < len(v.items)), 'remove')
        vset(E, st, ref, VecV(v.ety, v.items[:i] + v.items[i+1:]))
        return v.items[i]
    raise Unsupported('vec remove')


# ------------------------------------------------------------------------------------------ maps
def probes_for(E, sort):
    c = E.contract
    ps = list(getattr(c, 'probes', ()) or ()) if c is not None else []
    return [p for p in ps if p.sort() == sort]


def map_wf_at(E, st, m, k):
    """facts of any map at key k"""
    st.assume(z3.Implies(z3.Select(m.has, k), z3.And(z3.Select(m.pos, k) >= 0, z3.Select(m.pos, k) < m.size,
                                                    z3.Select(m.key, z3.Select(m.pos, k)) == k)))


def map_wf_idx(E, st, m, i):
    k = z3.Select(m.key, i)
    st.assume(z3.Implies(z3.And(i >= 0, i < m.size), z3.And(z3.Select(m.has, k), z3.Select(m.pos, k) == i)))


def touch(E, st, m, k):
    map_wf_at(E, st, m, k)
    st.assume(m.size >= 0)


def new_enum(E, st, m):
    ks = m.has.sort().domain()
    return MapV(m.kty, m.vty, m.has, m.val, m.size, E.fresh_const(z3.ArraySort(I, ks), 'mk'), E.fresh_const(z3.ArraySort(ks, I), 'mp'))


def map_insert(E, st, m, k, v):
    had = z3.Select(m.has, k)
    return new_enum(E, st, MapV(m.kty, m.vty, simp(z3.Store(m.has, k, z3.BoolVal(True))),
                                simp(z3.Store(m.val, k, E.pack(st, v, m.vty))), simp(z3.If(had, m.size, m.size + 1)), m.key, m.pos))


def map_remove(E, st, m, k):
    had = z3.Select(m.has, k)
    return new_enum(E, st, MapV(m.kty, m.vty, simp(z3.Store(m.has, k, z3.BoolVal(False))), m.val,
                                simp(z3.If(had, m.size - 1, m.size)), m.key, m.pos))


for _n in ('BTreeMap', 'HashMap', 'BTreeSet', 'HashSet'):
    def _mk(E, st, c, n=_n):
        a = c.dty.args if c.dty is not None and c.dty.args else c.cal.pargs
        return E.empty_map(a[0], a[1] if 'Map' in n else UNIT)
    TABLE[_n + '::new'] = _mk
    TABLE[_n + '::with_capacity'] = _mk


@M('BTreeMap::insert', 'HashMap::insert')
def m_insert(E, st, c):
    ref, m = target(E, st, c.args[0])
    k = E.pack(st, c.args[1], m.kty)
    touch(E, st, m, k)
    nm = map_insert(E, st, m, k, c.args[2])
    E.store_addr(st, ref.root, ref.path, nm)
    return old_value(E, st, m, k)


def old_value(E, st, m, k):
    """Option of the value at k, without a case split"""
    t = opt_ty(m.vty)
    s = E.sort(t)
    has = simp(z3.Select(m.has, k))
    b = as_bool(has)
    if b is None:
        b = st.known.get(has.get_id())
    if b is True:
        return some(m.vty, E.unpack(st, simp(z3.Select(m.val, k)), m.vty))
    if b is False:
        return none(m.vty)
    return Sym(t, z3.If(has, s.constructor(1)(simp(z3.Select(m.val, k))), s.constructor(0)()))


@M('BTreeSet::insert', 'HashSet::insert')
def s_insert(E, st, c):
    ref, m = target(E, st, c.args[0])
    k = E.pack(st, c.args[1], m.kty)
    touch(E, st, m, k)
    nm = map_insert(E, st, m, k, unit())
    E.store_addr(st, ref.root, ref.path, nm)
    return simp(z3.Not(z3.Select(m.has, k)))


@M('BTreeMap::remove', 'HashMap::remove')
def m_remove(E, st, c):
    ref, m = target(E, st, c.args[0])
    k = E.pack(st, c.args[1], m.kty)
    touch(E, st, m, k)
    E.store_addr(st, ref.root, ref.path, map_remove(E, st, m, k))
    return old_value(E, st, m, k)


@M('BTreeMap::remove_entry', 'HashMap::remove_entry')
def m_remove_entry(E, st, c):
    ref, m = target(E, st, c.args[0])
    k = E.pack(st, c.args[1], m.kty)
    touch(E, st, m, k)
    E.store_addr(st, ref.root, ref.path, map_remove(E, st, m, k))
    if E.decide(st, simp(z3.Select(m.has, k))):
        return Agg(c.dty, [Agg(c.dty.args[0], [E.unpack(st, k, m.kty), E.unpack(st, simp(z3.Select(m.val, k)), m.vty)])], 1)
    return Agg(c.dty, [], 0)


@M('BTreeSet::remove', 'HashSet::remove')
def s_remove(E, st, c):
    ref, m = target(E, st, c.args[0])
    k = E.pack(st, c.args[1], m.kty)
    touch(E, st, m, k)
    E.store_addr(st, ref.root, ref.path, map_remove(E, st, m, k))
    return simp(z3.Select(m.has, k))


@M('BTreeMap::get', 'HashMap::get', 'BTreeMap::get_mut', 'HashMap::get_mut')
def m_get(E, st, c):
    ref, m = target(E, st, c.args[0])
    k = E.pack(st, c.args[1], m.kty)
    touch(E, st, m, k)
    if E.decide(st, simp(z3.Select(m.has, k))):
        return Agg(c.dty, [RefV(ref.root, ref.path + (('mv', k),), c.cal.method == 'get_mut')], 1)
    return Agg(c.dty, [], 0)


@M('BTreeMap::get_key_value', 'HashMap::get_key_value')
def m_get_kv(E, st, c):
    ref, m = target(E, st, c.args[0])
    k = E.pack(st, c.args[1], m.kty)
    touch(E, st, m, k)
    if E.decide(st, simp(z3.Select(m.has, k))):
        return Agg(c.dty, [Agg(c.dty.args[0], [E.ref_to(st, E.unpack(st, k, m.kty), m.kty), RefV(ref.root, ref.path + (('mv', k),))])], 1)
    return Agg(c.dty, [], 0)


@M('BTreeMap::contains_key', 'HashMap::contains_key', 'HashSet::contains', 'BTreeSet::contains')
def m_has(E, st, c):
    ref, m = target(E, st, c.args[0])
    k = E.pack(st, c.args[1], m.kty)
    touch(E, st, m, k)
    return simp(z3.Select(m.has, k))


@M('BTreeMap::len', 'HashMap::len', 'HashSet::len', 'BTreeSet::len')
def m_len(E, st, c):
    return val(E, st, c.args[0]).size


@M('BTreeMap::is_empty', 'HashMap::is_empty', 'HashSet::is_empty', 'BTreeSet::is_empty')
def m_empty(E, st, c):
    m = val(E, st, c.args[0])
    nonempty_facts(E, st, m)
    return simp(m.size == 0)


def nonempty_facts(E, st, m):
    st.assume(m.size >= 0)
    map_wf_idx(E, st, m, z3.IntVal(0))
    for p in probes_for(E, m.has.sort().domain()):
        touch(E, st, m, p)


@M('BTreeMap::clear', 'HashMap::clear', 'HashSet::clear', 'BTreeSet::clear')
def m_clear(E, st, c):
    ref, m = target(E, st, c.args[0])
    E.store_addr(st, ref.root, ref.path, E.empty_map(m.kty, m.vty))
    return unit()


@M('BTreeMap::first_key_value', 'BTreeMap::last_key_value')
def m_first(E, st, c):
    ref, m = target(E, st, c.args[0])
    nonempty_facts(E, st, m)
    if E.decide(st, simp(m.size == 0)):
        return Agg(c.dty, [], 0)
    i = z3.IntVal(0) if 'first' in c.cal.method else simp(m.size - 1)
    map_wf_idx(E, st, m, i)
    k = simp(z3.Select(m.key, i))
    return Agg(c.dty, [Agg(c.dty.args[0], [E.ref_to(st, E.unpack(st, k, m.kty), m.kty), RefV(ref.root, ref.path + (('mv', k),))])], 1)


@M('BTreeMap::pop_first', 'BTreeMap::pop_last')
def m_pop_first(E, st, c):
    ref, m = target(E, st, c.args[0])
    nonempty_facts(E, st, m)
    if E.decide(st, simp(m.size == 0)):
        return Agg(c.dty, [], 0)
    i = z3.IntVal(0) if 'first' in c.cal.method else simp(m.size - 1)
    map_wf_idx(E, st, m, i)
    k = simp(z3.Select(m.key, i))
    E.store_addr(st, ref.root, ref.path, map_remove(E, st, m, k))
    return Agg(c.dty, [Agg(c.dty.args[0], [E.unpack(st, k, m.kty), E.unpack(st, simp(z3.Select(m.val, k)), m.vty)])], 1)


@M('BTreeMap::entry', 'HashMap::entry')
def m_entry(E, st, c):
    ref, m = target(E, st, c.args[0])
    k = E.pack(st, c.args[1], m.kty)
    touch(E, st, m, k)
    return PyV('entry', ref=ref, key=k)


def _entry_get(E, st, c, mk):
    e = c.args[0]
    if not isinstance(e, PyV) or e.kind != 'entry':
        raise Unsupported('entry')
    m = E.load_ref(st, e.ref)
    r = RefV(e.ref.root, e.ref.path + (('mv', e.key),), True)
    if E.decide(st, simp(z3.Select(m.has, e.key))):
        return r
    outs = mk(st)
    res = []
    for s, v in outs:
        m = E.load_ref(s, e.ref)
        E.store_addr(s, e.ref.root, e.ref.path, map_insert(E, s, m, e.key, v))
        res.append((s, r))
    return res


@M('Entry::or_insert_with', 'btree_map::Entry::or_insert_with', 'hash_map::Entry::or_insert_with')
def e_or_insert_with(E, st, c):
    return _entry_get(E, st, c, lambda s: callf(E, s, c.args[1], []))


@M('Entry::or_insert', 'btree_map::Entry::or_insert', 'hash_map::Entry::or_insert')
def e_or_insert(E, st, c):
    return _entry_get(E, st, c, lambda s: [(s, c.args[1])])


@M('Entry::or_default', 'btree_map::Entry::or_default', 'hash_map::Entry::or_default')
def e_or_default(E, st, c):
    e = c.args[0]
    return _entry_get(E, st, c, lambda s: [(s, default_of(E, s, E.load_ref(s, e.ref).vty))])


# ------------------------------------------------------------------------------------------ iterators
def seq_iter(vec, addr=None, mode='val'):
    return IterV('seq', vec=vec, idx=z3.IntVal(0), len=vec.length(), addr=addr, mode=mode)


def map_iter(E, st, m, mode, addr=None):
    if m.items is not None and not mode.endswith('_mut'):
        t = Ty('tuple', '', [UNIT, UNIT])
        r = lambda x, ty: E.ref_to(st, x, ty)
        f = {'iter': lambda k, v: Agg(t, [r(E.unpack(st, k, m.kty), m.kty), r(v, m.vty)]), 'keys': lambda k, v: r(E.unpack(st, k, m.kty), m.kty),
             'set': lambda k, v: r(E.unpack(st, k, m.kty), m.kty), 'values': lambda k, v: r(v, m.vty), 'into_keys': lambda k, v: E.unpack(st, k, m.kty),
             'intoset': lambda k, v: E.unpack(st, k, m.kty), 'into_values': lambda k, v: v}.get(mode, lambda k, v: Agg(t, [E.unpack(st, k, m.kty), v]))
        return seq_iter(VecV(m.kty, [f(k, v) for k, v in m.items]), None, 'unordered')
    nonempty_facts(E, st, m)
    return IterV('map', m=m, idx=z3.IntVal(0), len=m.size, mode=mode, addr=addr)


@M('slice::iter', 'Vec::iter', 'slice::iter_mut', 'Vec::iter_mut', 'VecDeque::iter')
def it_slice(E, st, c):
    ref, v = target(E, st, c.args[0])
    if ref is None:
        ref = E.ref_to(st, v, None)
    return seq_iter(v, ref, 'refmut' if 'mut' in c.cal.method else 'ref')


@M('BTreeMap::iter', 'HashMap::iter', 'BTreeMap::keys', 'HashMap::keys', 'BTreeMap::values', 'HashMap::values', 'HashSet::iter', 'BTreeSet::iter',
   'BTreeMap::into_keys', 'HashMap::into_keys', 'BTreeMap::into_values', 'HashMap::into_values', 'BTreeMap::iter_mut', 'BTreeMap::values_mut',
   'HashMap::iter_mut', 'HashMap::values_mut', 'HashMap::drain', 'HashSet::drain')
def it_map(E, st, c):
    ref, m = target(E, st, c.args[0])
    mode = c.cal.method
    if mode == 'iter' and 'Set' in c.cal.short:
        mode = 'set'
    if mode == 'drain':
        mode = 'into' if 'Map' in c.cal.short else 'intoset'
        E.store_addr(st, ref.root, ref.path, E.empty_map(m.kty, m.vty))
    return map_iter(E, st, m, mode, ref)


@M('IntoIterator::into_iter')
def it_into(E, st, c):
    v = c.args[0]
    if isinstance(v, (IterV,)):
        return v
    if isinstance(v, PyV):
        return v
    ref, x = target(E, st, v)
    byref = isinstance(v, (RefV, GuardV))
    if isinstance(x, IterV):
        return v
    if isinstance(x, VecV):
        return seq_iter(x, ref, ('refmut' if v.mut and c.cal.self_ty is not None and c.cal.self_ty.extra else 'ref') if byref else 'val')
    if isinstance(x, MapV):
        isset = x.vty.is_unit()
        return map_iter(E, st, x, ('set' if isset else 'iter') if byref else ('intoset' if isset else 'into'), ref)
    if isinstance(x, Agg) and x.ty is not None and x.ty.last == 'Range':
        return IterV('range', idx=x.fields[0], len=simp(z3.If(x.fields[1] > x.fields[0], x.fields[1], x.fields[0])), hi=x.fields[1])
    if isinstance(x, Agg) and x.ty is not None and x.ty.last == 'RangeInclusive':
        hi = simp(x.fields[1] + 1)
        return IterV('range', idx=x.fields[0], len=simp(z3.If(hi > x.fields[0], hi, x.fields[0])), hi=hi)
    if isinstance(x, (Agg, Sym)) and x.ty is not None and x.ty.name == 'Option':
        _, a, vi, fs = variant(E, st, x)
        return seq_iter(VecV(x.ty.args[0], [fs[0]] if vi == 1 else []))
    raise Unsupported(f'into_iter of {type(x).__name__} {str(x)[:80]}')


def as_iter(E, st, v):
    x = v
    while isinstance(x, RefV):
        x = E.load_ref(st, x)
    if isinstance(x, IterV):
        return x
    if isinstance(x, Agg) and x.ty is not None and x.ty.last in ('Range', 'RangeInclusive'):
        hi = x.fields[1] if x.ty.last == 'Range' else simp(x.fields[1] + 1)
        return IterV('range', idx=x.fields[0], len=simp(z3.If(hi > x.fields[0], hi, x.fields[0])), hi=hi)
    if isinstance(x, (VecV, MapV)):
        byref = isinstance(v, RefV)
        ref, x = target(E, st, v)
        if isinstance(x, VecV):
            return seq_iter(x, ref, 'ref' if byref else 'val')
        return map_iter(E, st, x, 'iter' if byref else 'into', ref)
    if isinstance(x, (Agg, Sym)) and x.ty is not None and x.ty.name == 'Option':
        _, a, vi, fs = variant(E, st, x)
        return seq_iter(VecV(x.ty.args[0], [fs[0]] if vi == 1 else []))
    raise Unsupported(f'not an iterator: {type(x).__name__} {str(x)[:100]}')


def adapter(kind, fname='f'):
    def f(E, st, c):
        it = as_iter(E, st, c.args[0])
        if isinstance(c.args[0], RefV):
            it = IterV('byref', addr=c.args[0])
        return IterV(kind, inner=it, **({fname: c.args[1]} if len(c.args) > 1 else {}))
    return f


TABLE['Iterator::map'] = adapter('map_')
TABLE['Iterator::filter'] = adapter('filter')
TABLE['Iterator::filter_map'] = adapter('filter_map')
TABLE['Iterator::cloned'] = adapter('cloned')
TABLE['Iterator::copied'] = adapter('cloned')
TABLE['Iterator::inspect'] = adapter('inspect')
TABLE['Iterator::take_while'] = adapter('take_while')
TABLE['Iterator::map_while'] = adapter('map_while')


@M('Iterator::flatten')
def it_flatten(E, st, c):
    if not re.search(r'IntoIter<(std::option::|core::option::)?Option<', str(c.func)):
        raise Unsupported('flatten of something other than options')
    return IterV('flatten', inner=as_iter(E, st, c.args[0]))


@M('Iterator::by_ref')
def it_by_ref(E, st, c):
    return c.args[0]


@M('Iterator::fuse', 'Iterator::peekable')
def it_fuse(E, st, c):
    return c.args[0]


@M('Iterator::enumerate')
def it_enum(E, st, c):
    it = as_iter(E, st, c.args[0])
    return IterV('enumerate', inner=it, n=z3.IntVal(0))


@M('Iterator::chain')
def it_chain(E, st, c):
    return IterV('chain', inner=as_iter(E, st, c.args[0]), second=as_iter(E, st, c.args[1]), phase=z3.IntVal(0))


@M('Iterator::zip')
def it_zip(E, st, c):
    return IterV('zip', inner=as_iter(E, st, c.args[0]), second=as_iter(E, st, c.args[1]))


@M('Iterator::take')
def it_take(E, st, c):
    return IterV('take', inner=as_iter(E, st, c.args[0]), k=c.args[1])


@M('Iterator::skip')
def it_skip(E, st, c):
    it = as_iter(E, st, c.args[0])
    n = c.args[1]
    if it.kind in ('seq', 'map', 'range'):
        if it.kind == 'seq' and it.vec.items is not None and as_int(n) is not None and as_int(it.idx) is not None:
            return it.with_(idx=z3.IntVal(min(as_int(it.idx) + as_int(n), len(it.vec.items))))
        return it.with_(idx=simp(z3.If(it.idx + n > it.len, it.len, it.idx + n)))
    raise Unsupported('skip')


@M('Iterator::rev')
def it_rev(E, st, c):
    it = as_iter(E, st, c.args[0])
    if it.kind == 'seq' and as_int(it.idx) == 0:
        v = it.vec
        if v.items is not None:
            if it.mode == 'val':
                return seq_iter(VecV(v.ety, v.items[::-1]))
            nv = VecV(v.ety, v.items[::-1])
            return seq_iter(nv, E.ref_to(st, nv, None), it.mode)
    if it.kind in ('map', 'seq', 'range'):
        return IterV('rev', inner=it)
    raise Unsupported('rev')


@M('iter::empty', 'iter::once')
def it_once(E, st, c):
    return seq_iter(VecV(c.dty.args[0], [c.args[0]] if c.args else []))


@M('env::vars')
def env_vars(E, st, c):
    t = Ty('tuple', '', [STRING, STRING])
    v = VecV(t, n=E.fresh_const(I, 'nenv'), arr=E.fresh_const(z3.ArraySort(I, E.sort(t)), 'envarr'))
    st.assume(v.n >= 0)
    return seq_iter(v)


def log_next(E, kind):
    if getattr(E, 'probing', 0):
        E.next_log.append((kind, E.depth_key()))
        if E.probe_at == E.depth_key():
            raise StopProbe()


def iter_next(E, st, it):
    """outcomes [(state, iterator', ('none',) | ('some', v) | ('skip',))]"""
    k = it.kind
    if k == 'byref':
        outs = []
        inner = as_iter(E, st, it.addr)
        for s, i2, r in iter_next(E, st, inner):
            E.store_addr(s, it.addr.root, it.addr.path, i2)
            outs.append((s, it, r))
        return outs
    if k in ('seq', 'map', 'range'):
        concrete = as_int(it.idx) is not None and as_int(it.len) is not None
        log_next(E, 'concrete' if concrete else 'symbolic')
        if not E.decide(st, simp(it.idx < it.len)):
            h = getattr(E.contract, 'on_end', None) if E.contract is not None else None
            if h:
                h(E, st, it)
            return [(st, it, ('none',))]
        i = it.idx
        n = it.with_(idx=simp(i + 1))
        if k == 'range':
            return [(st, n, ('some', i))]
        if k == 'seq':
            if it.vec.items is None:
                E.seq_lens.setdefault(it.vec.arr.get_id(), [])
                if not any(x.eq(it.vec.n) for x in E.seq_lens[it.vec.arr.get_id()]):
                    E.seq_lens[it.vec.arr.get_id()].append(it.vec.n)
                    E.keep_alive.append(it.vec.arr)
                for p in probes_for(E, it.vec.arr.sort().range()):
                    member_facts(E, st, z3.Select(it.vec.arr, i), p)
            h = getattr(E.contract, 'on_item', None) if E.contract is not None else None
            if h:
                h(E, st, it, i)
            if it.mode == 'unordered' and not E.any_order:
                raise Unsupported('order of a hash map')
            if it.mode in ('val', 'unordered'):
                return [(st, n, ('some', E.sel(st, it.vec, i)))]
            return [(st, n, ('some', RefV(it.addr.root, it.addr.path + (('i', i),), it.mode == 'refmut')))]
        h = getattr(E.contract, 'on_item', None) if E.contract is not None else None
        if h:
            h(E, st, it, i)
        return [(st, n, ('some', map_item(E, st, it, i)))]
    if k == 'rev':
        b = it.inner
        concrete = as_int(b.idx) is not None and as_int(b.len) is not None
        log_next(E, 'concrete' if concrete else 'symbolic')
        if not E.decide(st, simp(b.idx < b.len)):
            return [(st, it, ('none',))]
        i = simp(b.len - 1)
        n = it.with_(inner=b.with_(len=i))
        if b.kind == 'range':
            return [(st, n, ('some', i))]
        if b.kind == 'seq':
            if b.mode == 'val':
                return [(st, n, ('some', E.sel(st, b.vec, i)))]
            return [(st, n, ('some', RefV(b.addr.root, b.addr.path + (('i', i),), b.mode == 'refmut')))]
        return [(st, n, ('some', map_item(E, st, b, i)))]
    out = []
    if k == 'take':
        log_next(E, 'concrete' if as_int(it.k) is not None else 'symbolic')
        if not E.decide(st, simp(it.k > 0)):
            return [(st, it, ('none',))]
        for s, i2, r in iter_next(E, st, it.inner):
            out.append((s, it.with_(inner=i2, k=simp(it.k - 1) if r[0] == 'some' else it.k), r))
        return out
    if k == 'chain':
        if as_int(it.phase) == 0:
            for s, i2, r in iter_next(E, st, it.inner):
                if r[0] == 'none':
                    out.append((s, it.with_(inner=i2, phase=z3.IntVal(1)), ('skip',)))
                else:
                    out.append((s, it.with_(inner=i2), r))
            return out
        for s, i2, r in iter_next(E, st, it.second):
            out.append((s, it.with_(second=i2), r))
        return out
    if k == 'zip':
        for s, i2, r in iter_next(E, st, it.inner):
            if r[0] != 'some':
                out.append((s, it.with_(inner=i2), r))
                continue
            for s3, j2, q in E_forked(E, s, lambda x: iter_next(E, x, it.second)):
                if q[0] == 'some':
                    t = Ty('tuple', '', [UNIT, UNIT])
                    q = ('some', Agg(t, [r[1], q[1]]))
                elif q[0] == 'skip':
                    raise Unsupported('zip with filter')
                out.append((s3, it.with_(inner=i2, second=j2), q))
        return out
    for s, i2, r in iter_next(E, st, it.inner):
        it2 = it.with_(inner=i2)
        if r[0] != 'some':
            out.append((s, it2, r))
            continue
        x = r[1]
        if k == 'map_':
            out += [(s2, it2, ('some', v)) for s2, v in E_forked(E, s, lambda z: callf(E, z, it.f, [x]))]
        elif k == 'inspect':
            out += [(s2, it2, ('some', x)) for s2, v in E_forked(E, s, lambda z: callf(E, z, it.f, [E.ref_to(z, x, None)]))]
        elif k == 'filter':
            def flt(z):
                o = []
                for s2, b in callf(E, z, it.f, [E.ref_to(z, x, None)]):
                    o += E.forked(s2, lambda y, b=b: [(y, it2, ('some', x) if E.decide(y, b) else ('skip',))])
                return o
            out += E_forked(E, s, flt)
        elif k in ('filter_map', 'map_while'):
            def fm(z):
                o = []
                for s2, b in callf(E, z, it.f, [x]):
                    def dec(y, b=b):
                        _, a, vi, fs = variant(E, y, b)
                        return [(y, it2, ('some', fs[0]) if vi == 1 else ('skip' if k == 'filter_map' else 'none',))]
                    o += E.forked(s2, dec)
                return o
            out += E_forked(E, s, fm)
        elif k == 'flatten':
            def fl(z):
                _, a, vi, fs = variant(E, z, x)
                return [(z, it2, ('some', fs[0]) if vi == 1 else ('skip',))]
            out += E_forked(E, s, fl)
        elif k == 'take_while':
            def tw(z):
                o = []
                for s2, b in callf(E, z, it.f, [E.ref_to(z, x, None)]):
                    o += E.forked(s2, lambda y, b=b: [(y, it2, ('some', x) if E.decide(y, b) else ('none',))])
                return o
            out += E_forked(E, s, tw)
        elif k == 'cloned':
            v = x
            if isinstance(v, RefV):
                w = E.load_ref(s, v)
                v = w
            out.append((s, it2, ('some', v)))
        elif k == 'enumerate':
            t = Ty('tuple', '', [USIZE, UNIT])
            out.append((s, it2.with_(n=simp(it.n + 1)), ('some', Agg(t, [it.n, x]))))
        else:
            raise Unsupported(f'iterator {k}')
    return out


def E_forked(E, s, f):
    return E.forked(s, f)


def map_item(E, st, it, i):
    m = it.m
    map_wf_idx(E, st, m, i)
    kt = simp(z3.Select(m.key, i))
    kv = E.unpack(st, kt, m.kty)
    mode = it.mode
    if mode in ('iter', 'iter_mut'):
        t = Ty('tuple', '', [Ty('ref', '', [m.kty], False), Ty('ref', '', [m.vty], False)])
        return Agg(t, [E.ref_to(st, kv, m.kty), mv_ref(E, st, it, kt)])
    if mode in ('keys', 'set'):
        return E.ref_to(st, kv, m.kty)
    if mode in ('values', 'values_mut'):
        return mv_ref(E, st, it, kt)
    if mode in ('into_keys', 'intoset'):
        return kv
    vv = E.unpack(st, simp(z3.Select(m.val, kt)), m.vty)
    if mode == 'into_values':
        return vv
    return Agg(Ty('tuple', '', [m.kty, m.vty]), [kv, vv])


def mv_ref(E, st, it, kt):
    if it.addr is not None:
        return RefV(it.addr.root, it.addr.path + (('mv', kt),), it.mode.endswith('_mut'))
    return E.ref_to(st, E.unpack(st, simp(z3.Select(it.m.val, kt)), it.m.vty), it.m.vty)


@M('Iterator::next')
def it_next(E, st, c):
    r0 = c.args[0]
    if isinstance(r0, PyV):
        raise Unsupported('next on model')
    # follow references to the iterator itself
    ref = r0
    while isinstance(E.load_ref(st, ref), RefV):
        ref = E.load_ref(st, ref)
    it = E.load_ref(st, ref)
    if not isinstance(it, IterV):
        it = as_iter(E, st, it)
    out = []
    work = [(st, it)]
    n = 0
    while work:
        s, i1 = work.pop()
        for s2, i2, r in E.forked(s, lambda z: iter_next(E, z, i1)):
            E.store_addr(s2, ref.root, ref.path, i2)
            if r[0] == 'none':
                out.append((s2, Agg(c.dty, [], 0)))
            elif r[0] == 'some':
                out.append((s2, Agg(c.dty, [r[1]], 1)))
            elif is_concrete(i2):
                work.append((s2, i2))
                n += 1
                if n > 300:
                    raise Unsupported('iterator')
            elif getattr(E, 'cur_head', None) is None:
                # not the head of a loop: look for the next item that passes, as a loop of its own
                for s3, r3 in drive(E, s2, i2, [], lambda z, v: [(z, ('break', v))], 'next'):
                    E.store_addr(s3, ref.root, ref.path, s3.cells[E.last_itc])
                    out.append((s3, Agg(c.dty, [r3[1]], 1) if r3[0] == 'break' else Agg(c.dty, [], 0)))
            else:
                out.append((s2, SKIP))
    return out


def is_concrete(it):
    if it.kind in ('seq', 'map', 'range'):
        return as_int(it.idx) is not None and as_int(it.len) is not None
    if it.kind == 'chain':
        return (as_int(it.phase) == 1 or is_concrete(it.inner)) and is_concrete(it.second) or as_int(it.phase) == 1
    if it.kind == 'byref':
        return False
    return is_concrete(it.inner)


def drive(E, st, it, cells, step, label):
    """run `it` to exhaustion (or to a break); cells: accumulator cell numbers (already in st).
    step(s, v) -> [(s, None | ('break', value))].  Result: [(s, ('done',) | ('break', value))]"""
    itc = E.new_cell(st, it, None)
    tag = ('drive', label, short(E.cur_fn[-1]) if E.cur_fn else '')

    def body(s0):
        res = {'ret': [], 'exit': [], 'back': []}

        def go(s):
            o = []
            for s2, i2, r in iter_next(E, s, s.cells[itc]):
                s2.cells[itc] = i2
                if r[0] == 'none':
                    o.append(('exit', s2, ('done',)))
                elif r[0] == 'skip':
                    o.append(('back', s2, None))
                else:
                    for s3, b in E.forked(s2, lambda z: step(z, r[1])):
                        o.append(('back', s3, None) if b is None else ('exit', s3, b))
            return o
        for kind, s2, x in E.forked(s0, go):
            if kind == 'exit':
                res['exit'].append((s2, x))
            else:
                res['back'].append(s2)
        return res
    E.drive_depth = getattr(E, 'drive_depth', 0) + 1
    try:
        r = _loops.generic_loop(E, st, body, tag)
    finally:
        E.drive_depth -= 1
    E.last_itc = itc
    return r['exit']


def item_ty(dty):
    return dty


def whole(E, st, it):
    """the vector that an iterator over the whole of a vector, by value or cloned, gives; None for other iterators"""
    if isinstance(it, IterV) and it.kind == 'cloned' and 'inner' in it.a and isinstance(it.inner, IterV) and it.inner.kind == 'seq' and it.inner.mode == 'ref':
        it = it.inner.with_(mode='val')
    if not isinstance(it, IterV) or it.kind != 'seq' or it.mode != 'val' or set(it.a) - {'vec', 'idx', 'len', 'addr', 'mode'}:
        return None
    if as_int(it.idx) != 0 or not z3.eq(simp(it.len), simp(it.vec.length())) or it.vec.items is not None:
        return None
    return it.vec


@M('Vec::drain', 'VecDeque::drain')
def vec_drain(E, st, c):
    ref, v = target(E, st, c.args[0])
    r = c.args[1]
    if not (isinstance(r, (Agg, Sym)) and r.ty is not None and r.ty.last == 'RangeFull'):
        raise Unsupported(f'drain of a part: {r}')
    vset(E, st, ref, VecV(v.ety, []))
    return seq_iter(v)


@M('Iterator::collect', 'FromIterator::from_iter', 'Extend::extend', 'Vec::extend')
def collect(E, st, c):
    if c.cal.method == 'extend':
        ref, cur = target(E, st, c.args[0])
        it = as_iter(E, st, c.args[1])
        d = None
        acc = cur
        w = whole(E, st, it.with_(mode='val') if it.kind == 'seq' and it.mode == 'ref' and isinstance(cur, VecV) and it.vec.ety == cur.ety else it)
        if w is not None and isinstance(cur, VecV):
            vset(E, st, ref, concat(E, st, cur, w))
            return unit()
    else:
        it = as_iter(E, st, c.args[0])
        d = c.dty
        w = whole(E, st, it) if d.kind == 'adt' and d.name in ('Vec', 'VecDeque') else None
        if w is not None:
            return w
        if d.kind == 'adt' and d.name not in MAP_TYPES | SET_TYPES | {'Vec', 'VecDeque', 'String', 'Result', 'Option', 'Box'} and c.cal.targs:
            d = c.cal.targs[0]
        # a generic target (get_proc_ids<T>): taken from the caller's substitution
        acc = None
    wrap = None
    if d is not None and d.kind == 'adt' and d.name in ('Result', 'Option'):
        wrap = d
        d = d.args[0]
    if acc is None:
        acc = empty_acc(E, st, d)
    ty = d if d is not None else None
    cell = E.new_cell(st, acc, ty)

    def step(s, v):
        if wrap is not None:
            _, a, vi, fs = variant(E, s, v)
            bad = (vi == 1) if wrap.name == 'Result' else (vi == 0)
            if bad:
                return [(s, ('break', Agg(wrap, list(fs), vi)))]
            v = fs[0]
        if isinstance(acc, MapV) and not E.probing:
            added.append(E.pack(s, v if acc.vty.is_unit() else fields0(E, s, v), acc.kty))
        s.cells[cell] = acc_add(E, s, s.cells[cell], v)
        return [(s, None)]
    outs = []
    added = []
    base = it
    while 'inner' in base.a:
        base = base.a['inner']
    free = base.kind == 'seq' and base.mode == 'unordered'
    if free:
        E.any_order += 1
    try:
        driven = drive(E, st, it, [cell], step, 'collect')
    finally:
        if free:
            E.any_order -= 1
    if free and not (isinstance(acc, MapV) and len(driven) == 1 and distinct_literals(added)):
        raise Unsupported('result depends on the order of a hash map')
    for s, r in driven:
        if r[0] == 'break':
            outs.append((s, r[1]))
            continue
        v = s.cells[cell]
        if c.cal.method == 'extend':
            E.store_addr(s, ref.root, ref.path, v)
            outs.append((s, unit()))
        elif wrap is not None:
            outs.append((s, Agg(wrap, [v], 0 if wrap.name == 'Result' else 1)))
        else:
            outs.append((s, v))
    return outs


def fields0(E, st, v):
    v = val(E, st, v)
    return (v if isinstance(v, Agg) else E.explode(st, v)).fields[0]


def empty_acc(E, st, d):
    if d.kind == 'adt':
        if d.name in ('Vec', 'VecDeque'):
            return VecV(d.args[0], [])
        if d.name in MAP_TYPES:
            return E.empty_map(d.args[0], d.args[1])
        if d.name in SET_TYPES:
            return E.empty_map(d.args[0], UNIT)
        if d.name == 'String':
            return z3.StringVal('')
        if d.name == 'Box':
            return empty_acc(E, st, d.args[0])
    if d.kind == 'slice':
        return VecV(d.args[0], [])
    if d.is_unit():
        return unit()
    h = getattr(E.contract, 'generic_collect', None) if E.contract is not None else None
    if h:
        return h(E, st, d)
    raise Unsupported(f'collect into {d}')


def acc_add(E, st, acc, v):
    if isinstance(acc, VecV):
        if acc.items is not None:
            return VecV(acc.ety, acc.items + (v,))
        return VecV(acc.ety, n=simp(acc.n + 1), arr=z3.Store(acc.arr, acc.n, E.pack(st, v, acc.ety)))
    if isinstance(acc, MapV):
        if acc.vty.is_unit():
            return map_insert(E, st, acc, E.pack(st, v, acc.kty), unit())
        kv = boxed(E, st, v)
        if isinstance(kv, Sym):
            kv = E.explode(st, kv)
        return map_insert(E, st, acc, E.pack(st, kv.fields[0], acc.kty), kv.fields[1])
    if isinstance(acc, z3.ExprRef):
        x = val(E, st, v)
        return simp(z3.Concat(acc, x))
    if isinstance(acc, Agg) and acc.ty.is_unit():
        return acc
    raise Unsupported(f'collect add {acc}')


@M('Iterator::for_each')
def for_each(E, st, c):
    it = as_iter(E, st, c.args[0])
    fc = E.new_cell(st, c.args[1], None)

    def step(s, v):
        return [(s2, None) for s2, _ in E.call_value(s, RefV(fc, (), True), [v])]
    return [(s, unit()) for s, r in drive(E, st, it, [], step, 'for_each')]


@M('Iterator::try_for_each')
def try_for_each(E, st, c):
    it = as_iter(E, st, c.args[0])
    fc = E.new_cell(st, c.args[1], None)

    def step(s, v):
        o = []
        for s2, x in E.call_value(s, RefV(fc, (), True), [v]):
            def dec(y, x=x):
                _, a, vi, fs = variant(E, y, x)
                good = 0 if a.ty.name == 'Result' else 1
                return [(y, None if vi == good else ('break', a))]
            o += E.forked(s2, dec)
        return o
    outs = []
    for s, r in drive(E, st, it, [], step, 'try_for_each'):
        if r[0] == 'break':
            outs.append((s, r[1]))
        else:
            outs.append((s, Agg(c.dty, [unit()], 0 if c.dty.name == 'Result' else 1)))
    return outs


def search(kind):
    def f(E, st, c):
        it = as_iter(E, st, c.args[0])
        fc = E.new_cell(st, c.args[1], None) if len(c.args) > 1 else None
        pos = E.new_cell(st, z3.IntVal(0), USIZE) if kind == 'position' else None

        def step(s, v):
            o = []
            a = E.ref_to(s, v, None) if kind == 'find' else v
            for s2, b in E.call_value(s, RefV(fc, (), True), [a]):
                def dec(y, b=b):
                    if kind == 'find_map':
                        _, q, vi, fs = variant(E, y, b)
                        return [(y, ('break', q) if vi == 1 else None)]
                    t = E.decide(y, b)
                    if kind == 'any':
                        return [(y, ('break', z3.BoolVal(True)) if t else None)]
                    if kind == 'all':
                        return [(y, None if t else ('break', z3.BoolVal(False)))]
                    if kind == 'find':
                        return [(y, ('break', Agg(c.dty, [v], 1)) if t else None)]
                    if kind == 'position':
                        if t:
                            return [(y, ('break', Agg(c.dty, [y.cells[pos]], 1)))]
                        y.cells[pos] = simp(y.cells[pos] + 1)
                        return [(y, None)]
                o += E.forked(s2, dec)
            return o
        outs = []
        for s, r in drive(E, st, it, [], step, kind):
            if r[0] == 'break':
                outs.append((s, r[1]))
            else:
                outs.append((s, z3.BoolVal(kind == 'all') if kind in ('any', 'all') else Agg(c.dty, [], 0)))
        # a by-reference iterator would have to be advanced too
        if isinstance(c.args[0], RefV) and not isinstance(it, IterV):
            raise Unsupported('search by ref')
        return outs
    return f


for _k in ('any', 'all', 'find', 'position', 'find_map'):
    TABLE['Iterator::' + _k] = search(_k)


@M('Iterator::count', 'Iterator::sum', 'Iterator::last', 'Iterator::fold', 'Iterator::max', 'Iterator::min')
def it_fold(E, st, c):
    it = as_iter(E, st, c.args[0])
    k = c.cal.method
    if k == 'count':
        cell = E.new_cell(st, z3.IntVal(0), USIZE)
    elif k == 'sum':
        cell = E.new_cell(st, z3.RealVal(0) if c.dty.last in REAL_TYPES else z3.IntVal(0), c.dty)
    elif k == 'fold':
        cell = E.new_cell(st, c.args[1], c.dty)
    elif k == 'last':
        cell = E.new_cell(st, Agg(c.dty, [], 0), c.dty)
    else:
        raise Unsupported(k)

    def step(s, v):
        cur = s.cells[cell]
        if k == 'count':
            s.cells[cell] = simp(cur + 1)
        elif k == 'sum':
            s.cells[cell] = simp(cur + val(E, s, v))
        elif k == 'last':
            s.cells[cell] = Agg(c.dty, [v], 1)
        else:
            o = []
            for s2, x in E.call_value(s, c.args[2], [cur, v]):
                s2.cells[cell] = x
                o.append((s2, None))
            return o
        return [(s, None)]
    return [(s, s.cells[cell]) for s, r in drive(E, st, it, [cell], step, k)]


@M('BTreeMap::retain', 'HashMap::retain', 'BTreeSet::retain', 'HashSet::retain')
def m_retain(E, st, c):
    """the keys that the predicate keeps: known at the contract's probes, where it is evaluated; it must have no effect"""
    ref, m = target(E, st, c.args[0])
    ps = probes_for(E, m.has.sort().domain())
    if not ps:
        raise Unsupported('retain without a probe')
    for p in ps:
        touch(E, st, m, p)
    has = E.fresh_const(m.has.sort(), 'kept')
    n = E.fresh_const(I, 'nkept')
    st.assume(z3.And(n >= 0, n <= m.size))
    ismap = 'Map' in c.cal.short
    outs = [st]
    for p in ps:
        nxt = []
        for s in outs:
            cells = dict(s.cells)
            ntrace = len(s.trace)
            a = [E.ref_to(s, E.unpack(s, p, m.kty), m.kty)]
            v0 = None
            if ismap:
                v0 = E.unpack(s, simp(z3.Select(m.val, p)), m.vty)
                a.append(E.ref_to(s, v0, m.vty, True))
            for s2, b in callf(E, s, c.args[1], a):
                if len(s2.trace) != ntrace or any(s2.cells.get(k) is not v for k, v in cells.items()) or (ismap and s2.cells.get(a[1].root) is not v0):
                    raise Unsupported('retain with a predicate that has effects')
                s2.assume(z3.Select(has, p) == z3.And(z3.Select(m.has, p), b))
                nxt.append(s2)
        outs = nxt
    res = []
    for s in outs:
        new = new_enum(E, s, MapV(m.kty, m.vty, has, m.val, n, m.key, m.pos))
        for p in ps:
            touch(E, s, new, p)
        E.store_addr(s, ref.root, ref.path, new)
        res.append((s, unit()))
    return res


@M('Vec::retain')
def retain(E, st, c):
    raise Unsupported('retain')


@M('slice::split_at')
def split_at(E, st, c):
    ref, v = target(E, st, c.args[0])
    n = c.args[1]
    E.require_nopanic(st, simp(n <= v.length()), 'split_at')
    return Agg(c.dty, [RefV(ref.root, ref.path + (('slice', z3.IntVal(0), n),)), RefV(ref.root, ref.path + (('slice', n, v.length()),))])


@M('Fn::call', 'FnMut::call_mut', 'FnOnce::call_once')
def fncall(E, st, c):
    a = c.args[1]
    return E.call_value(st, c.args[0], list(a.fields))


# ------------------------------------------------------------------------------------------ strings
def byte_len(E, st, s):
    """length in bytes: an uninterpreted function bounded below by the number of characters"""
    if z3.is_string_value(s):
        return z3.IntVal(len(s.as_string().encode()))
    f = z3.Function('utf8_len', S, I)
    t = f(s)
    st.assume(z3.And(t >= z3.Length(s), t <= 4 * z3.Length(s), t <= INTS['isize'][1]))
    return t


def str_bytes(E, st, s):
    if z3.is_string_value(s):
        return VecV(U8, [z3.IntVal(b) for b in s.as_string().encode()])
    f = z3.Function('utf8_bytes', S, z3.ArraySort(I, I))
    return VecV(U8, n=byte_len(E, st, s), arr=f(s))


@M('String::new')
def s_new(E, st, c):
    return z3.StringVal('')


@M('String::len', 'str::len')
def s_len(E, st, c):
    return byte_len(E, st, val(E, st, c.args[0]))


@M('String::is_empty', 'str::is_empty')
def s_is_empty(E, st, c):
    return simp(val(E, st, c.args[0]) == z3.StringVal(''))


@M('String::as_bytes', 'str::as_bytes', 'String::into_bytes')
def s_bytes(E, st, c):
    v = str_bytes(E, st, val(E, st, c.args[0]))
    if c.cal.method == 'into_bytes':
        return v
    return E.ref_to(st, v, Ty('slice', '', [U8]))


@M('String::from_utf8', 'str::from_utf8', 'CStr::to_str', 'CString::into_string', 'Path::to_str', 'OsStr::to_str')
def s_from_utf8(E, st, c):
    v = val(E, st, c.args[0])
    good_opt = c.dty.name == 'Option'
    if isinstance(v, z3.ExprRef):
        f = z3.Function('is_utf8_str', S, B)
        isok, r = f(v), v
    else:
        t = pack_any(E, st, v)
        isok = z3.Function('is_utf8', t.sort(), B)(t)
        r = z3.Function('utf8_decode', t.sort(), S)(t)
    if E.decide(st, isok):
        x = r if c.dty.args[0].kind != 'ref' else E.str_ref(st, r)
        return Agg(c.dty, [x], 1 if good_opt else 0)
    return Agg(c.dty, [], 0) if good_opt else Agg(c.dty, [E.fresh(st, c.dty.args[1], 'utf8err')], 1)


@M('String::from_utf8_lossy', 'Path::to_string_lossy', 'OsStr::to_string_lossy', 'CStr::to_string_lossy')
def s_lossy(E, st, c):
    v = val(E, st, c.args[0])
    if isinstance(v, z3.ExprRef):
        r = v
    else:
        t = pack_any(E, st, v)
        r = z3.Function('utf8_lossy', t.sort(), S)(t)
    return Agg(Ty('adt', 'Cow', [STR]), [E.str_ref(st, r)], 0)


@M('str::trim', 'str::trim_end', 'str::trim_start', 'str::to_lowercase', 'str::to_uppercase', 'str::to_ascii_uppercase', 'str::to_ascii_lowercase')
def s_trim(E, st, c):
    v = val(E, st, c.args[0])
    if z3.is_string_value(v) and 'trim' in c.cal.method:
        x = v.as_string()
        r = z3.StringVal(x.strip() if c.cal.method == 'trim' else x.rstrip() if c.cal.method == 'trim_end' else x.lstrip())
    else:
        r = z3.Function('str_' + c.cal.method, S, S)(v)
    return E.str_ref(st, r) if c.dty is not None and c.dty.kind == 'ref' else r


def pat(E, st, p):
    p = val(E, st, p)
    if isinstance(p, z3.ExprRef) and z3.is_int(p):
        k = as_int(p)
        return z3.StringVal(chr(k)) if k is not None else z3.StrFromCode(p)
    if isinstance(p, z3.ExprRef):
        return p
    raise Unsupported('string pattern')


@M('str::split_once', 'str::rsplit_once')
def split_once(E, st, c):
    v = val(E, st, c.args[0])
    p = pat(E, st, c.args[1])
    if not E.decide(st, simp(z3.Contains(v, p))):
        return Agg(c.dty, [], 0)
    n = z3.Length(p)
    i = z3.IndexOf(v, p, 0) if c.cal.method == 'split_once' else z3.LastIndexOf(v, p)
    a = simp(z3.SubString(v, 0, i))
    b = simp(z3.SubString(v, i + n, z3.Length(v) - i - n))
    return Agg(c.dty, [Agg(c.dty.args[0], [E.str_ref(st, a), E.str_ref(st, b)])], 1)


@M('str::split', 'str::split_whitespace', 'str::lines', 'str::splitn')
def s_split(E, st, c):
    v = val(E, st, c.args[0])
    p = pat(E, st, c.args[-1]) if len(c.args) > 1 else z3.StringVal(c.cal.method)
    n = z3.Function('split_len', S, S, I)(v, p)
    a = z3.Function('split_parts', S, S, z3.ArraySort(I, S))(v, p)
    st.assume(n >= (1 if c.cal.method == 'split' else 0))
    vec = VecV(STR, n=n, arr=a)
    return seq_iter(vec, E.ref_to(st, vec, None), 'ref')


@M('str::find', 'str::rfind')
def s_find(E, st, c):
    v = val(E, st, c.args[0])
    p = pat(E, st, c.args[1])
    if not E.decide(st, simp(z3.Contains(v, p))):
        return Agg(c.dty, [], 0)
    return Agg(c.dty, [z3.IndexOf(v, p, 0) if c.cal.method == 'find' else z3.LastIndexOf(v, p)], 1)


@M('str::contains')
def s_contains(E, st, c):
    return simp(z3.Contains(val(E, st, c.args[0]), pat(E, st, c.args[1])))


@M('str::starts_with')
def s_starts(E, st, c):
    return simp(z3.PrefixOf(pat(E, st, c.args[1]), val(E, st, c.args[0])))


@M('str::ends_with')
def s_ends(E, st, c):
    return simp(z3.SuffixOf(pat(E, st, c.args[1]), val(E, st, c.args[0])))


@M('str::strip_prefix')
def s_strip_prefix(E, st, c):
    v, p = val(E, st, c.args[0]), pat(E, st, c.args[1])
    if not E.decide(st, simp(z3.PrefixOf(p, v))):
        return Agg(c.dty, [], 0)
    return Agg(c.dty, [E.str_ref(st, simp(z3.SubString(v, z3.Length(p), z3.Length(v) - z3.Length(p))))], 1)


@M('str::strip_suffix')
def s_strip_suffix(E, st, c):
    v, p = val(E, st, c.args[0]), pat(E, st, c.args[1])
    if not E.decide(st, simp(z3.SuffixOf(p, v))):
        return Agg(c.dty, [], 0)
    return Agg(c.dty, [E.str_ref(st, simp(z3.SubString(v, 0, z3.Length(v) - z3.Length(p))))], 1)


@M('String::push_str')
def s_push_str(E, st, c):
    ref, v = target(E, st, c.args[0])
    E.store_addr(st, ref.root, ref.path, simp(z3.Concat(v, val(E, st, c.args[1]))))
    return unit()


@M('String::push')
def s_push(E, st, c):
    ref, v = target(E, st, c.args[0])
    E.store_addr(st, ref.root, ref.path, simp(z3.Concat(v, pat(E, st, c.args[1]))))
    return unit()


@M('<String as Add>::add', 'Add::add', 'Sub::sub', 'Mul::mul', 'BitAnd::bitand', 'BitOr::bitor', 'BitXor::bitxor', 'Shl::shl', 'Shr::shr')
def s_add(E, st, c):
    """operators on references (on plain numbers they are no calls)"""
    if c.cal.method == 'sub' and c.cal.self_ty is not None and last(c.cal.self_ty) == 'Instant' and last(c.dty) == 'Duration':
        return since(E, st, c)
    a, b = val(E, st, c.args[0]), val(E, st, c.args[1])
    op = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mul', 'bitand': 'BitAnd', 'bitor': 'BitOr', 'bitxor': 'BitXor', 'shl': 'Shl', 'shr': 'Shr'}[c.cal.method]
    if z3.is_string(a) and op == 'Add':
        return simp(z3.Concat(a, b))
    if z3.is_real(a) and z3.is_real(b) and op in ('Add', 'Sub', 'Mul'):
        if op == 'Sub' and last(c.dty) == 'Duration':
            E.require_nopanic(st, simp(a >= b), f'overflow in {c.cal.method} in {where(E)}')
        return E.binop(st, op, a, b, c.dty)
    if z3.is_bool(a) and z3.is_bool(b):
        return E.binop(st, op, a, b, c.dty)
    if z3.is_int(a) and z3.is_int(b) and c.dty.is_int():
        if op in ('Add', 'Sub', 'Mul'):
            r = simp({'Add': a + b, 'Sub': a - b, 'Mul': a * b}[op])
            E.require_nopanic(st, simp(E.in_range(r, c.dty.name)), f'overflow in {c.cal.method} in {where(E)}')
            return r
        if op in ('Shl', 'Shr'):
            E.require_nopanic(st, simp(z3.And(b >= 0, b < hi_bits(c.dty.name))), f'overflow in {c.cal.method} in {where(E)}')
        return E.binop(st, op, a, b, c.dty)
    raise Unsupported(c.cal.method)


@M('str::parse', 'FromStr::from_str')
def s_parse(E, st, c):
    v = val(E, st, c.args[0])
    t = c.dty.args[0]
    good, x = parse_uf(E, t, v)
    if t.is_int():
        st.assume(z3.Implies(good, E.in_range(x, t.name)))
        n = un_itoa(v)
        if n is not None:       # parsing what formatting an integer gives
            st.assume(good == E.in_range(n, t.name))
            st.assume(z3.Implies(good, x == n))
    if E.decide(st, simp(good)):
        return Agg(c.dty, [E.unpack(st, simp(x), t)], 0)
    return Agg(c.dty, [E.fresh(st, c.dty.args[1], 'perr')], 1)


def parse_uf(E, t, v):
    n = E.tname(t)
    if z3.is_string_value(v) and t.is_int():
        s = v.as_string()
        okv = re.fullmatch(r'[+-]?[0-9]+', s) is not None and (INTS[t.name][0] < 0 or not s.startswith('-'))
        if okv and INTS[t.name][0] <= int(s) <= INTS[t.name][1]:
            return z3.BoolVal(True), z3.IntVal(int(s))
        return z3.BoolVal(False), z3.IntVal(0)
    return z3.Function('parse_ok_' + n, S, B)(v), z3.Function('parse_' + n, S, E.sort(t))(v)


def un_itoa(v):
    """x if v is itoa(x)"""
    if not z3.is_app(v):
        return None
    if z3.is_app_of(v, z3.Z3_OP_ITE) and v.arg(1).decl().kind() == z3.Z3_OP_INT_TO_STR:
        x = v.arg(1).arg(0)
        if simp(v).eq(simp(itoa(x))):
            return x
    return None


def itoa(x):
    k = as_int(x)
    if k is not None:
        return z3.StringVal(str(k))
    return z3.If(x >= 0, z3.IntToStr(x), z3.Concat(z3.StringVal('-'), z3.IntToStr(-x)))


def show(E, st, v, how='display'):
    """Display/Debug rendering as a string term"""
    v = boxed(E, st, v)
    if isinstance(v, Agg) and v.ty is not None and v.ty.name == 'Cow':
        v = boxed(E, st, v.fields[0])
    if isinstance(v, z3.ExprRef):
        if z3.is_string(v):
            return v if how == 'display' else z3.Function('debug_str', S, S)(v)
        if z3.is_int(v):
            return itoa(v)
        if z3.is_bool(v):
            return z3.If(v, z3.StringVal('true'), z3.StringVal('false'))
        return z3.Function('show_' + str(v.sort()), v.sort(), S)(v)
    if isinstance(v, PyV) and v.kind == 'fmt':
        return v.term
    if isinstance(v, (Agg, Sym)) and how == 'display' and v.ty is not None and v.ty.kind == 'adt':
        p = E.find_method(v.ty.name, 'Display', 'fmt')
        if p:
            fm = E.ref_to(st, PyV('formatter', term=z3.StringVal('')), None, True)
            outs = E.run(E.load(p), [E.ref_to(st, v, v.ty), fm], st.copy())
            if len(outs) == 1:
                s2 = outs[0][0]
                st.cells.update(s2.cells)
                return s2.cells[fm.root].term
            # several renderings: a conditional term
            t = None
            base = len(st.pc)
            for s2, _ in outs:
                g = z3.And(list(s2.pc[base:]) + [z3.BoolVal(True)])
                x = s2.cells[fm.root].term
                t = x if t is None else z3.If(g, x, t)
            if t is not None:
                return t
    try:
        t = pack_any(E, st, v)
    except Unsupported:
        return E.fresh_const(S, 'shown')
    return z3.Function(f'{how}_' + E.tname(v.ty) if hasattr(v, 'ty') and v.ty is not None else f'{how}_' + str(t.sort()), t.sort(), S)(t)


@M('ToString::to_string')
def to_string(E, st, c):
    return simp(show(E, st, c.args[0]))


@M('Argument::new_display', 'rt::Argument::new_display')
def fmt_arg(E, st, c):
    return PyV('arg', how='display', v=c.args[0])


@M('Argument::new_debug', 'rt::Argument::new_debug')
def fmt_arg_d(E, st, c):
    return PyV('arg', how='debug', v=c.args[0])


@M('Argument::new_lower_hex', 'Argument::new_upper_hex', 'Argument::from_usize', 'Argument::new_pointer', 'Argument::new_octal')
def fmt_arg_x(E, st, c):
    return PyV('arg', how=c.cal.method, v=c.args[0])


@M('Arguments::new')
def fmt_new(E, st, c):
    tpl = val(E, st, c.args[0])
    args = val(E, st, c.args[1])
    return PyV('fmtargs', tpl=tuple(as_int(x) for x in tpl.items), args=args.items)


@M('Arguments::from_str', 'Arguments::from_str_nonconst', 'Arguments::new_const')
def fmt_const(E, st, c):
    v = val(E, st, c.args[0])
    if isinstance(v, VecV):
        v = val(E, st, v.items[0])
    return PyV('fmt', term=v)


def fmt_term(E, st, f):
    if f.kind == 'fmt':
        return f.term
    b, i, n = f.tpl, 0, 0
    parts = []
    while i < len(b):
        x = b[i]
        if x == 0:
            break
        if x < 0x80:
            parts.append(z3.StringVal(bytes(b[i+1:i+1+x]).decode()))
            i += 1 + x
            continue
        if x == 0x80:
            k = b[i+1] | b[i+2] << 8
            parts.append(z3.StringVal(bytes(b[i+3:i+3+k]).decode()))
            i += 3 + k
            continue
        if x == 0xc0:
            a = f.args[n]
            a = val(E, st, a)
            parts.append(show(E, st, a.v, a.how))
            n += 1
            i += 1
            continue
        # placeholder with options: not interpreted
        return E.fresh_const(S, 'formatted')
    if not parts:
        return z3.StringVal('')
    return simp(z3.Concat(*parts)) if len(parts) > 1 else parts[0]


@M('fmt::format')
def fmt_format(E, st, c):
    return fmt_term(E, st, c.args[0])


@M('Formatter::write_fmt', 'Formatter::write_str', 'Write::write_str', 'Write::write_fmt')
def fmt_write(E, st, c):
    ref, f = target(E, st, c.args[0])
    a = c.args[1]
    t = fmt_term(E, st, a) if isinstance(a, PyV) else val(E, st, a)
    if isinstance(f, PyV) and f.kind == 'formatter':
        E.store_addr(st, ref.root, ref.path, PyV('formatter', term=simp(z3.Concat(f.term, t))))
        return Agg(c.dty, [unit()], 0)
    if isinstance(f, z3.ExprRef):
        E.store_addr(st, ref.root, ref.path, simp(z3.Concat(f, t)))
        return Agg(c.dty, [unit()], 0)
    raise Unsupported('write_fmt')


@M('Display::fmt', 'Debug::fmt', 'LowerHex::fmt')
def disp_fmt(E, st, c):
    ref, f = target(E, st, c.args[1])
    if isinstance(f, PyV) and f.kind == 'formatter':
        E.store_addr(st, ref.root, ref.path, PyV('formatter', term=simp(z3.Concat(f.term, show(E, st, c.args[0], c.cal.trait.lower())))))
        return Agg(c.dty, [unit()], 0)
    raise Unsupported('Display::fmt')


@M('CString::new')
def cstring_new(E, st, c):
    v = val(E, st, c.args[0])
    if not isinstance(v, z3.ExprRef):
        raise Unsupported(f'CString::new of {v}')
    if E.decide(st, simp(z3.Not(z3.Contains(v, z3.StringVal('\x00'))))):
        return Agg(c.dty, [v], 0)
    return Agg(c.dty, [E.fresh(st, c.dty.args[1], 'nul')], 1)


# ------------------------------------------------------------------------------------------ panics, logging, process
@M('panicking::panic', 'panicking::panic_fmt', 'panicking::panic_explicit', 'panicking::assert_failed', 'panicking::unreachable_display',
   'option::unwrap_failed', 'option::expect_failed', 'result::unwrap_failed', 'panicking::panic_display', 'panicking::panic_str_2015',
   'rt::begin_panic', 'rt::panic_fmt')
def p_panic(E, st, c):
    E.panic(st, f'panic in {where(E)}')


@M('log::max_level', 'log::__private_api::log', '__private_api::log', '__private_api::loc', 'io::_print', 'io::_eprint', '__private_api::enabled')
def p_log(E, st, c):
    if c.cal.method == 'max_level':
        return OpaqueV(Ty('adt', 'LevelFilter'), E.fresh_const(E.usort(Ty('adt', 'LevelFilter')), 'lvl'))
    if c.cal.method == 'enabled':
        return z3.BoolVal(True)
    return unit()


@M('process::exit', 'process::abort', 'libc::_exit')
def p_exit(E, st, c):
    event(E, st, 'exit', c.args, None)
    raise PathEnd()


def snap(E, st, a):
    """what a reference points at, at the time of the call"""
    try:
        while isinstance(a, (RefV, GuardV)):
            a = E.load_ref(st, a)
    except Exception:
        return a
    return a


def event(E, st, name, args, ret):
    st.trace = st.trace + ((name, tuple(args), ret, tuple(snap(E, st, a) for a in args)),)
    h = getattr(E.contract, 'on_event', None) if E.contract is not None else None
    if h:
        h(E, st, name, args, ret)


# ------------------------------------------------------------------------------------------ time (reals)
@M('Duration::as_secs_f64', 'Duration::from_secs', 'Duration::from_secs_f64', 'Duration::from_millis', 'Duration::mul_f64', 'Duration::as_secs',
   'Duration::as_millis', 'Duration::new', 'Duration::mul_f32', 'Mul::mul', 'Duration::saturating_sub', 'Duration::is_zero', 'Duration::try_from_secs_f64')
def dur(E, st, c):
    m = c.cal.method
    a = val(E, st, c.args[0])
    if m in ('as_secs_f64',):
        return a
    if m == 'from_secs':
        return simp(z3.ToReal(a))
    if m == 'from_secs_f64':
        E.require_nopanic(st, simp(z3.And(a >= 0, a < 18446744073709551616)), f'Duration::from_secs_f64 in {where(E)}')
        return a
    if m == 'try_from_secs_f64':
        if E.decide(st, simp(z3.And(a >= 0, a < 18446744073709551616))):
            return Agg(c.dty, [a], 0)
        return Agg(c.dty, [E.fresh(st, c.dty.args[1], 'durerr')], 1)
    if m == 'from_millis':
        return simp(z3.ToReal(a) / 1000)
    if m == 'mul_f64':
        b = val(E, st, c.args[1])
        E.require_nopanic(st, simp(z3.And(a * b >= 0, a * b < 18446744073709551616)), f'Duration::mul_f64 in {where(E)}')
        return simp(a * b)
    if m == 'mul' and not (z3.is_real(a) and last(c.dty) == 'Duration'):
        return s_add(E, st, c)
    if m == 'mul' and z3.is_real(a):
        b = val(E, st, c.args[1])
        return simp(a * (z3.ToReal(b) if z3.is_int(b) else b))
    if m == 'as_secs':
        return simp(z3.ToInt(a))
    if m == 'as_millis':
        return simp(z3.ToInt(a * 1000))
    if m == 'is_zero':
        return simp(a == 0)
    if m == 'saturating_sub':
        b = val(E, st, c.args[1])
        return simp(z3.If(a >= b, a - b, z3.RealVal(0)))
    raise Unsupported(m)


@M('Instant::now', 'SystemTime::now', 'Utc::now', 'Local::now', 'Uuid::new_v4', 'process::id', 'env::var', 'env::current_dir')
def now(E, st, c):
    v = E.fresh(st, c.dty, c.cal.method)
    event(E, st, c.cal.method, list(c.args), v)
    return v


TABLE['v4::uuid::Uuid::new_v4'] = now
TABLE['uuid::Uuid::new_v4'] = now


def instant(E, st, v):
    """an Instant as a point in (real) time"""
    t = pack_any(E, st, val(E, st, v))
    return z3.Function('instant', t.sort(), R)(t)


@M('Instant::duration_since', 'Instant::saturating_duration_since', 'Instant::elapsed', 'Instant::checked_duration_since')
def since(E, st, c):
    a = instant(E, st, c.args[0])
    if c.cal.method == 'elapsed':
        n = E.fresh(st, Ty('adt', 'Instant'), 'now')
        event(E, st, 'now', [], n)
        a, b = instant(E, st, n), a
    else:
        b = instant(E, st, c.args[1])
    if c.cal.method == 'checked_duration_since':
        return some(R, simp(a - b)) if E.decide(st, simp(a >= b)) else none(R)
    return simp(z3.If(a >= b, a - b, z3.RealVal(0)))


@M('DateTime::to_rfc3339')
def rfc3339(E, st, c):
    t = pack_any(E, st, val(E, st, c.args[0]))
    return z3.Function('rfc3339', t.sort(), S)(t)


# ------------------------------------------------------------------------------------------ io::Error, futures
@M('io::Error::last_os_error')
def last_os_error(E, st, c):
    # the error left by the most recent failing call of this path
    e = st.ghost.get('errno')
    if e is None:
        e = E.fresh_const(I, 'errno')
    st.ghost['errno'] = e
    return os_error(E, st, e)


ERRKIND = Ty('adt', 'ErrorKind')


def errkind(E, name):
    vi = [i for i, v in enumerate(E.db.info(ERRKIND).variants) if v[0] == name][0]
    return E.sort(ERRKIND).constructor(vi)()


def kind_of(E, t):
    return z3.Function('io_kind', E.sort(IOERR), E.sort(ERRKIND))(t)


def os_error(E, st, e):
    t = z3.Function('os_error', I, E.sort(IOERR))(e)
    # std's decoding of the error numbers whose kind the code looks at
    k = kind_of(E, t)
    for n, no in (('NotFound', 2), ('Interrupted', 4), ('WouldBlock', 11)):
        st.assume((k == errkind(E, n)) == (e == no))
    st.assume(k != errkind(E, 'UnexpectedEof'))
    return OpaqueV(IOERR, t)


@M('io::Error::new', 'io::Error::other', 'io::Error::from_raw_os_error', 'io::Error::from')
def io_err_new(E, st, c):
    if c.cal.method == 'from_raw_os_error':
        return os_error(E, st, c.args[0])
    v = E.fresh(st, IOERR, 'ioerr')
    k = val(E, st, c.args[0])
    if c.cal.method == 'other':
        st.assume(kind_of(E, v.term) == errkind(E, 'Other'))
    elif isinstance(k, (Agg, Sym)) and k.ty is not None and k.ty.last == 'ErrorKind':
        st.assume(kind_of(E, v.term) == E.pack(st, k, ERRKIND))
    return v


@M('io::Error::raw_os_error', 'Error::raw_os_error')
def raw_os_error(E, st, c):
    v = val(E, st, c.args[0])
    t = v.term
    if z3.is_app(t) and t.decl().name() == 'os_error':
        return some(I32, t.arg(0))
    return E.fresh(st, c.dty, 'rawos')


@M('io::Error::kind', 'Error::kind')
def io_kind(E, st, c):
    v = val(E, st, c.args[0])
    return E.unpack(st, kind_of(E, v.term), ERRKIND)


@M('Poll::is_pending', 'Poll::is_ready')
def poll_is(E, st, c):
    v = c.args[0]
    while isinstance(v, RefV):
        v = E.load_ref(st, v)
    _, _, vi, _ = variant(E, st, v)
    return z3.BoolVal((vi == 1) == c.func.endswith('is_pending'))


@M('pin::pin_new_unchecked_in_helper', 'pin_new_unchecked_in_helper')
def pin_helper(E, st, c):
    r = c.args[0]
    return RefV(r.root, r.path + (('f', 0),), True) if isinstance(r, RefV) else r


@M('future::get_context', 'get_context')
def get_ctx(E, st, c):
    return PyV('ctx')


@M('poll_fn::poll_fn', 'future::poll_fn', 'support::poll_fn', 'poll_fn')
def poll_fn(E, st, c):
    return PyV('future', name='poll_fn', args=(c.args[0],), dty=c.dty)


@M('support::thread_rng_n', 'thread_rng_n')
def thread_rng_n(E, st, c):
    n = val(E, st, c.args[0])
    if not z3.is_int_value(n) or n.as_long() > 16:
        v = E.fresh(st, c.dty, 'rng')
        st.assume(z3.And(v >= 0, v < n))
        return v
    return [(st.copy(), z3.IntVal(k)) for k in range(n.as_long())]


@M('support::maybe_done', 'maybe_done::maybe_done', 'maybe_done')
def maybe_done(E, st, c):
    return PyV('future', name='maybe_done', args=(c.args[0],), dty=c.dty)


def join_all(E, st, c, cv):
    """tokio's join!: every future it was given runs to its end, and the results are theirs (assumed of the macro; its counter of polls is not followed)"""
    futs = None
    for v in cv.caps:
        while isinstance(v, RefV):
            v = E.load_ref(st, v)
        if isinstance(v, Agg) and v.fields and all(isinstance(x, PyV) and x.kind == 'future' and x.a['name'] == 'maybe_done' for x in v.fields):
            futs = v.fields
    if futs is None:
        raise Unsupported('join!')
    E.trusted['tokio::join!'] = E.trusted.get('tokio::join!', 0) + 1
    rty = c.dty.args[0]
    outs = [(st, ())]
    for i, f in enumerate(futs):
        v = f.a['args'][0]
        nxt = []
        for s, r in outs:
            if isinstance(v, ClosV):
                h = E.overrides.get('await ' + v.name)
                o = norm(s, h(E, s, v)) if h else E.run_async(s, v)
            else:
                o = norm(s, await_ext(E, s, v, rty.args[i]))
            nxt += [(s2, r + (x,)) for s2, x in o]
        outs = nxt
    return [(s, Agg(c.dty, [Agg(rty, list(r))], 0)) for s, r in outs]


def poll_select(E, st, c, clos):
    """a poll_fn awaited (as tokio's select! does): the closure runs, with every future it polls ready or not, until it is ready"""
    h = getattr(E.contract, 'on_select', None) if E.contract is not None else None
    if h:
        h(E, st)
    cv, ref = clos, None
    while isinstance(cv, RefV):
        ref, cv = cv, E.load_ref(st, cv)
    if isinstance(cv, ClosV) and '/src/macros/join.rs' in cv.name:
        return join_all(E, st, c, cv)
    depth, E.selecting = E.selecting, len(E.cur_fn) + 1
    try:
        outs = E.call_closure(st, cv, [PyV('ctx')], ref)
    finally:
        E.selecting = depth
    r = []
    for s, v in outs:
        _, _, vi, _ = variant(E, s, v)
        if vi == 0:
            r.append((s, v))
    if not r:
        raise PathEnd()
    return r


@M('Future::poll')
def poll(E, st, c):
    v = c.args[0]
    if E.selecting and E.selecting == len(E.cur_fn) and not E.decide(st, E.fresh_const(B, 'ready')):
        # (what a future did before its first wait is not undone by being dropped: see SELECT)
        return Agg(c.dty, [], 1)
    while isinstance(v, (RefV,)):
        v = E.load_ref(st, v)
    while isinstance(v, Agg) and v.ty is not None and v.ty.kind == 'adt' and v.ty.name in ('Pin', 'Box'):
        v = v.fields[0]
        while isinstance(v, RefV):
            v = E.load_ref(st, v)
    if isinstance(v, ClosV):
        path = E.by_closure.get(v.name)
        if path is None:
            raise Unsupported(f'future {v.name}')
        h = E.overrides.get('await ' + v.name)
        if h:
            return [(s, Agg(c.dty, [x], 0)) for s, x in norm(st, h(E, st, v))]
        f = E.load(path)
        return [(s, Agg(c.dty, [x], 0)) for s, x in E.run(f, [v, PyV('ctx')][:len(f.args)], st)]
    if isinstance(v, PyV) and v.kind == 'future' and v.a['name'] == 'poll_fn':
        return poll_select(E, st, c, v.a['args'][0])
    if isinstance(v, PyV) and v.kind == 'future':
        return [(s, Agg(c.dty, [x], 0)) for s, x in norm(st, await_ext(E, st, v, c.dty.args[0]))]
    raise Unsupported(f'await of {type(v).__name__} {str(v)[:120]}')


def await_ext(E, st, fut, rty):
    h = getattr(E.contract, 'on_await', None) if E.contract is not None else None
    if h:
        r = h(E, st, fut, rty)
        if r is not None:
            return r
    havoc_shared(E, st)
    if isinstance(fut.a.get('result'), object) and fut.a.get('result') is not None:
        return fut.a['result']
    if rty.is_unit():
        return unit()
    return E.fresh(st, rty, 'awaited')


def havoc_shared(E, st):
    """other tasks of the same thread run at an await: every shared object may change"""
    for k in list(st.overlay):
        ty = parse_ty(k)
        st.overlay[k] = tuple((p, E.fresh(st, ty, 'shared')) for p, v in st.overlay[k])
    for k in list(st.heap):
        st.heap[k] = E.fresh_const(st.heap[k].sort(), 'heap')


def future(name):
    def f(E, st, c):
        event(E, st, name, list(c.args), None)
        return PyV('future', name=name, args=tuple(c.args), dty=c.dty)
    return f


for _n in ('tokio::time::sleep', 'time::sleep'):
    TABLE[_n] = future('sleep')
TABLE['Receiver::changed'] = TABLE['watch::Receiver::changed'] = future('watch_changed')
TABLE['Signal::recv'] = TABLE['unix::Signal::recv'] = future('signal_recv')
TABLE['Receiver::recv'] = TABLE['broadcast::Receiver::recv'] = future('broadcast_recv')
TABLE['SinkExt::send'] = future('ws_send')
TABLE['SinkExt::close'] = future('ws_close')
TABLE['StreamExt::next'] = future('ws_next')
TABLE['AsyncReadExt::read'] = future('pipe_read')
TABLE['AsyncReadExt::read_exact'] = future('pipe_read_exact')
TABLE['AsyncReadExt::read_u16_le'] = future('pipe_read_u16_le')
TABLE['time::timeout'] = TABLE['tokio::time::timeout'] = future('timeout')


def ev(name, ret=None):
    """an external call recorded as an event; the result is unconstrained"""
    def f(E, st, c):
        if c.dty is None or c.dty.is_unit():
            r = unit()
        elif ret is not None:
            r = ret(E, st, c)
        else:
            r = E.fresh(st, c.dty, name)
        event(E, st, name, list(c.args), r)
        return r
    return f


TABLE['Sender::send'] = TABLE['broadcast::Sender::send'] = TABLE['watch::Sender::send'] = ev('chan_send')
TABLE['Sender::receiver_count'] = TABLE['broadcast::Sender::receiver_count'] = ev('receiver_count')
TABLE['Sender::subscribe'] = TABLE['broadcast::Sender::subscribe'] = TABLE['watch::Sender::subscribe'] = ev('chan_subscribe')
TABLE['broadcast::channel'] = TABLE['watch::channel'] = ev('chan_new')
TABLE['task::spawn_local'] = TABLE['tokio::spawn'] = TABLE['task::spawn'] = lambda E, st, c: spawn(E, st, c)
TABLE['FutureExt::inspect'] = lambda E, st, c: PyV('inspected', fut=c.args[0], f=c.args[1])
TABLE['PipeRead::from_raw_fd_checked'] = ev('pipe_from_raw')


def spawn(E, st, c):
    event(E, st, 'spawn', list(c.args), None)
    return PyV('future', name='join', args=(c.args[0],), dty=c.dty)


@M('Receiver::borrow', 'watch::Receiver::borrow')
def watch_borrow(E, st, c):
    ref, v = target(E, st, c.args[0])
    h = getattr(E.contract, 'watch_value', None) if E.contract is not None else None
    if h:
        r = h(E, st, v)
        if r is not None:
            return E.ref_to(st, r, None)
    t = v.ty.args[0]
    return E.ref_to(st, E.unpack(st, z3.Function('watched_' + E.tname(t), E.sort(v.ty), E.sort(t))(v.term), t), t)


# ------------------------------------------------------------------------------------------ libc
def errno_after(E, st):
    st.ghost['errno'] = E.fresh_const(I, 'errno')


def libc_call(name, lo=-1, hi=INTS['i32'][1], out=None):
    def f(E, st, c):
        r = E.fresh_const(I, name)
        if c.dty is not None and c.dty.is_int():
            st.assume(E.in_range(r, c.dty.name))
            st.assume(r >= lo)
            st.assume(r <= hi)
        errno_after(E, st)
        if out:
            out(E, st, c, r)
        event(E, st, name, list(c.args), r)
        return r
    return f


def libc_void(name):
    def f(E, st, c):
        event(E, st, name, list(c.args), None)
        return E.fresh(st, c.dty, name) if c.dty is not None and not c.dty.is_unit() and c.dty.kind != 'never' else unit()
    return f


def havoc_out(n):
    def f(E, st, c, r):
        a = c.args[n]
        if isinstance(a, RefV):
            v = E.load_ref(st, a)
            if v is UNINIT:
                return
            if isinstance(v, z3.ExprRef):
                E.store_addr(st, a.root, a.path, E.fresh_const(v.sort(), 'out'))
                x = E.load_ref(st, a)
                if z3.is_int(x):
                    st.assume(E.in_range(x, 'i32'))
            elif isinstance(v, (Sym, OpaqueV)):
                E.store_addr(st, a.root, a.path, E.fresh(st, v.ty, 'out'))
            elif isinstance(v, VecV):
                E.store_addr(st, a.root, a.path, VecV(v.ety, n=v.length(), arr=E.fresh_const(z3.ArraySort(I, E.sort(v.ety)), 'out')))
    return f


def pipe_out(E, st, c, r):
    a = c.args[0]
    v = E.load_ref(st, a) if isinstance(a, RefV) else a
    x, y = E.fresh_const(I, 'pipe_r'), E.fresh_const(I, 'pipe_w')
    for z in (x, y):
        st.assume(z3.And(z >= 0, z <= INTS['i32'][1]))
    st.assume(x != y)
    if isinstance(v, VecV):
        E.store_addr(st, a.root, a.path, VecV(v.ety, [x, y]))
    else:
        raise Unsupported('pipe out')


for _n in ('close', 'dup2', 'kill', 'execv', 'setsid', 'fork', 'open', 'mkstemp', 'unlink'):
    TABLE['libc::' + _n] = libc_call(_n)
TABLE['libc::fcntl'] = libc_call('fcntl')
TABLE['libc::execve'] = libc_call('execve', -1, -1)
TABLE['libc::pipe'] = libc_call('pipe', -1, 0, pipe_out)
TABLE['libc::fstat'] = libc_call('fstat', -1, 0, havoc_out(1))


def wait4_out(E, st, c, r):
    havoc_out(1)(E, st, c, r)
    havoc_out(3)(E, st, c, r)


TABLE['libc::wait4'] = libc_call('wait4', -1, INTS['i32'][1], wait4_out)
TABLE['libc::read'] = libc_call('read', -1, INTS['isize'][1], havoc_out(1))
TABLE['libc::write'] = libc_call('write', -1, INTS['isize'][1])
TABLE['libc::sysconf'] = libc_call('sysconf', -1, INTS['i64'][1])
TABLE['libc::gethostname'] = libc_call('gethostname', -1, 0, havoc_out(0))
for _n in ('getpid', 'getppid'):
    TABLE['libc::' + _n] = libc_call(_n, 0)
for _n in ('getuid', 'geteuid', 'getgid', 'getegid'):
    TABLE['libc::' + _n] = libc_call(_n, 0, INTS['u32'][1])


# wait-status macros, as glibc/musl define them
@M('libc::WIFEXITED')
def wifexited(E, st, c):
    return simp(c.args[0] % 128 == 0)


@M('libc::WEXITSTATUS')
def wexitstatus(E, st, c):
    return simp((c.args[0] / 256) % 256)


@M('libc::WIFSIGNALED')
def wifsignaled(E, st, c):
    t = c.args[0] % 128
    return simp(z3.And(t != 0, t != 127))


@M('libc::WTERMSIG')
def wtermsig(E, st, c):
    return simp(c.args[0] % 128)


@M('libc::WCOREDUMP')
def wcoredump(E, st, c):
    return simp((c.args[0] / 128) % 2 == 1)


@M('libc::WIFSTOPPED')
def wifstopped(E, st, c):
    return simp(c.args[0] % 256 == 127)


# ------------------------------------------------------------------ http
HTTP_STATUS = dict(CONTINUE=100, SWITCHING_PROTOCOLS=101, OK=200, CREATED=201, ACCEPTED=202, NON_AUTHORITATIVE_INFORMATION=203, NO_CONTENT=204, RESET_CONTENT=205, PARTIAL_CONTENT=206,
                   MOVED_PERMANENTLY=301, FOUND=302, SEE_OTHER=303, NOT_MODIFIED=304, TEMPORARY_REDIRECT=307, PERMANENT_REDIRECT=308,
                   BAD_REQUEST=400, UNAUTHORIZED=401, PAYMENT_REQUIRED=402, FORBIDDEN=403, NOT_FOUND=404, METHOD_NOT_ALLOWED=405, NOT_ACCEPTABLE=406, PROXY_AUTHENTICATION_REQUIRED=407,
                   REQUEST_TIMEOUT=408, CONFLICT=409, GONE=410, LENGTH_REQUIRED=411, PRECONDITION_FAILED=412, PAYLOAD_TOO_LARGE=413, URI_TOO_LONG=414, UNSUPPORTED_MEDIA_TYPE=415,
                   RANGE_NOT_SATISFIABLE=416, EXPECTATION_FAILED=417, IM_A_TEAPOT=418, UNPROCESSABLE_ENTITY=422, LOCKED=423, TOO_EARLY=425, UPGRADE_REQUIRED=426, TOO_MANY_REQUESTS=429,
                   INTERNAL_SERVER_ERROR=500, NOT_IMPLEMENTED=501, BAD_GATEWAY=502, SERVICE_UNAVAILABLE=503, GATEWAY_TIMEOUT=504)


def http_status(E, st, n):
    if n not in HTTP_STATUS:
        raise Unsupported(f'status {n}')
    return Agg(Ty('adt', 'StatusCode'), [z3.IntVal(HTTP_STATUS[n])])


def http_method(E, st, n):
    t = Ty('adt', 'Inner')
    for vi, (v, _, fs) in enumerate(E.db.info(t).variants):
        if v.upper() == n and not fs:
            return Agg(Ty('adt', 'Method'), [Agg(t, [], vi)])
    raise Unsupported(f'method {n}')


TABLE['const http StatusCode'] = http_status
TABLE['const http Method'] = http_method
TABLE['const http header'] = TABLE['const http HeaderName'] = lambda E, st, n: PyV('hname', name=n.lower().replace('_', '-'))
