"""Verification-condition generator over rustc MIR: path-wise symbolic execution with contracts, loop invariants
(kept only when inductive) and Z3 as the prover.  See DESIGN.md for what is assumed."""
import os
import re
import glob
import time
from fractions import Fraction
import z3
from . import mir
from .tys import Ty, UNIT, INTS, parse_ty, canon_path, TyParser
from .typedb import TypeDB, subst

z3.set_param('smt.random_seed', 1)
I, B, R, S = z3.IntSort(), z3.BoolSort(), z3.RealSort(), z3.StringSort()


class Unsupported(Exception):
    pass


class Fork(Exception):
    def __init__(self, conds):
        self.conds = conds


class PathEnd(Exception):
    """The current path stops here (panic already recorded, infeasible, or diverging call)."""


class _Uninit:
    def __repr__(self):
        return 'UNINIT'


UNINIT = _Uninit()


# ------------------------------------------------------------------ values
class Agg:
    __slots__ = ('ty', 'vi', 'fields')

    def __init__(self, ty, fields, vi=None):
        self.ty, self.vi, self.fields = ty, vi, tuple(fields)

    def __repr__(self):
        return f'Agg({self.ty}#{self.vi} {list(self.fields)})'


class Sym:
    __slots__ = ('ty', 'term')

    def __init__(self, ty, term):
        self.ty, self.term = ty, term

    def __repr__(self):
        return f'Sym({self.ty} {self.term})'


class OpaqueV:
    __slots__ = ('ty', 'term')

    def __init__(self, ty, term):
        self.ty, self.term = ty, term

    def __repr__(self):
        return f'Opaque({self.ty} {self.term})'


class VecV:
    """a sequence: either concrete items, or a symbolic array with a length"""
    __slots__ = ('ety', 'n', 'arr', 'items')

    def __init__(self, ety, items=None, n=None, arr=None):
        self.ety, self.items, self.n, self.arr = ety, (tuple(items) if items is not None else None), n, arr

    def length(self):
        return z3.IntVal(len(self.items)) if self.items is not None else self.n

    def __repr__(self):
        return f'Vec({self.items if self.items is not None else (self.n, self.arr)})'


class MapV:
    """BTreeMap/HashMap/sets: membership, values, and an enumeration order (size/key/pos)"""
    __slots__ = ('kty', 'vty', 'has', 'val', 'size', 'key', 'pos', 'items')

    def __init__(self, kty, vty, has, val, size, key, pos, items=None):
        self.kty, self.vty, self.has, self.val, self.size, self.key, self.pos = kty, vty, has, val, size, key, pos
        self.items = items       # of a map just built from distinct literal keys: its [(key, value)], in no particular order

    def __repr__(self):
        return f'Map({self.has})'


class RefV:
    """address = (root, path); root is a cell number or ('h', heapkey, pointer)"""
    __slots__ = ('root', 'path', 'mut')

    def __init__(self, root, path=(), mut=False):
        self.root, self.path, self.mut = root, tuple(path), mut

    def __repr__(self):
        return f'Ref({self.root}{list(self.path)})'


class RcV:
    __slots__ = ('ty', 'ptr')   # ty: pointee

    def __init__(self, ty, ptr):
        self.ty, self.ptr = ty, ptr

    def __repr__(self):
        return f'Rc({self.ty}@{self.ptr})'


class ClosV:
    __slots__ = ('name', 'caps')

    def __init__(self, name, caps):
        self.name, self.caps = name, tuple(caps)

    def __repr__(self):
        return f'Clos({self.name})'


class FnV:
    __slots__ = ('text',)

    def __init__(self, text):
        self.text = text


class IterV:
    """kind + attributes; immutable, use .with_()"""
    __slots__ = ('kind', 'a')

    def __init__(self, kind, **a):
        self.kind, self.a = kind, a

    def __getattr__(self, n):
        try:
            return self.a[n]
        except KeyError:
            raise AttributeError(n)

    def with_(self, **k):
        d = dict(self.a)
        d.update(k)
        return IterV(self.kind, **d)

    def __repr__(self):
        return f'Iter({self.kind} {self.a})'


class GuardV:
    """Ref / RefMut / RwLock guards"""
    __slots__ = ('addr', 'kind', 'gid')

    def __init__(self, addr, kind, gid):
        self.addr, self.kind, self.gid = addr, kind, gid

    def __repr__(self):
        return f'Guard({self.kind} {self.addr})'


class PyV:
    """a value only the models know about"""
    __slots__ = ('kind', 'a')

    def __init__(self, kind, **a):
        self.kind, self.a = kind, a

    def __getattr__(self, n):
        try:
            return self.a[n]
        except KeyError:
            raise AttributeError(n)

    def __repr__(self):
        return f'Py({self.kind} {self.a})'


# ------------------------------------------------------------------ state
class StopProbe(Exception):
    """the mode of a loop is known"""


class St:
    __slots__ = ('cells', 'pc', 'known', 'heap', 'overlay', 'ghost', 'trace', 'guards', 'notes', 'statics', 'univ')

    def __init__(self):
        self.cells = {}
        self.pc = []
        self.known = {}
        self.heap = {}       # key -> z3 array ptr -> packed value
        self.overlay = {}    # key -> tuple of (ptr, value)
        self.ghost = {}
        self.trace = ()
        self.guards = {}
        self.notes = ()
        self.statics = {}
        self.univ = ()      # facts that hold whatever the contract's probes are

    def copy(self):
        s = St()
        s.cells = dict(self.cells)
        s.pc = list(self.pc)
        s.known = dict(self.known)
        s.heap = dict(self.heap)
        s.overlay = dict(self.overlay)
        s.ghost = dict(self.ghost)
        s.trace = self.trace
        s.guards = dict(self.guards)
        s.notes = self.notes
        s.statics = dict(self.statics)
        s.univ = self.univ
        return s

    def assume(self, c):
        if isinstance(c, bool):
            c = z3.BoolVal(c)
        if z3.is_true(c):
            return
        i = c.get_id()
        if self.known.get(i) is True:
            return
        self.pc.append(c)
        self.known[i] = True
        if z3.is_not(c):
            self.known[c.arg(0).get_id()] = False


class Obligation:
    __slots__ = ('name', 'fn', 'status', 'model', 'detail', 'secs', 'backend', 'pathdesc', 'st')

    def __init__(self, name, fn):
        self.name, self.fn = name, fn
        self.status = None
        self.model = None
        self.detail = ''
        self.secs = 0.0
        self.backend = ''
        self.st = None


def zint(x):
    return x if isinstance(x, z3.ExprRef) else z3.IntVal(x)


def simp(x):
    return z3.simplify(x)


def as_int(x):
    """python int of a concrete z3 Int, else None"""
    if isinstance(x, int) and not isinstance(x, bool):
        return x
    if z3.is_int_value(x):
        return x.as_long()
    if isinstance(x, z3.ExprRef):
        y = z3.simplify(x)
        if z3.is_int_value(y):
            return y.as_long()
    return None


def as_bool(x):
    if isinstance(x, bool):
        return x
    if z3.is_true(x):
        return True
    if z3.is_false(x):
        return False
    y = z3.simplify(x)
    if z3.is_true(y):
        return True
    if z3.is_false(y):
        return False
    return None


STR_TYPES = {'str', 'String', 'PathBuf', 'Path', 'OsString', 'OsStr', 'CString', 'CStr'}
MAP_TYPES = {'BTreeMap', 'HashMap'}
SET_TYPES = {'BTreeSet', 'HashSet'}
REAL_TYPES = {'f64', 'f32', 'Duration'}
TRANSPARENT = {'RefCell', 'Cell', 'RwLock', 'Mutex', 'Arc', 'MaybeUninit', 'ManuallyDrop', 'UnsafeCell'}


class Engine:
    def __init__(self, mirdir, docjson, timeout_ms=10000, bin=None):
        """bin: (MIR, rustdoc) of the binary, whose functions are then there along with those of the library"""
        self.db = TypeDB(docjson, *([bin[1]] if bin else []))
        self.mirdirs = [mirdir] + ([bin[0]] if bin else [])
        self.timeout = timeout_ms
        self.files = {}
        self.fncache = {}
        self._index()
        self.sorts = {}
        self.dt = {}
        self.sortty = {}
        self.nfresh = 0
        self.ncell = 0
        self.nguard = 0
        self.cellty = {}
        self.solver = z3.Solver()
        self.solver.set('timeout', 3000)
        self.stack = []
        self.obls = []
        self.axioms = []
        self.trusted = {}        # intrinsic name -> count
        self.inlined = {}
        self.contracts_used = {}
        self.invariants_kept = {}
        self.contract = None     # active contract object
        self.recording = True
        self.loop_memo = {}
        self.deadline = None
        self.nqueries = 0
        self.solver_secs = 0.0
        self.depth = 0
        self.intrinsics = {}
        self.havoc_notes = set()
        self.overrides = {}      # contract-supplied call models: key -> fn
        self.on_await = None
        self.eq_log, self.seq_lens, self.keep_alive = [], {}, []
        self.cur_fn = []
        self.exec_blocks = set()
        self.const_cache = {}
        self.seen_loops = []
        self.next_log = []
        self.probing = 0
        self.probe_at = None
        self.drive_depth = 0
        self.any_order = 0
        from . import std
        std.install(self)

    # -------------------------------------------------------------- loading
    def _index(self):
        """function index: printed path -> file; plus impl methods by (self type, trait, name)"""
        self.by_path = {}
        self.by_closure = {}
        self.closure_of = {}
        self.lazy = []
        self.methods = {}
        implmap = {}
        for f, ln, t, tr, der in self.db.impls:
            if f and f.startswith('src/'):
                implmap.setdefault((f, ln), []).append((t, tr, der))
        seen = {}
        for p in (p for d in self.mirdirs for p in sorted(glob.glob(os.path.join(d, '*.before.mir')))):
            with open(p, encoding='utf-8') as fh:
                l0 = fh.readline()
                m = re.match(r'// MIR for `(.*)` before', l0)
                if not m:
                    continue
                path = m.group(1)
                head = ''
                for ln in fh:
                    if ln.strip() and not ln.startswith(('//', '/*', ' *')):
                        head = ln.rstrip('\n')
                        break
            self.by_path[path] = p
            m = re.match(r'(?:(.*?)::)?<impl at [^>]*lazy_static[^>]*>::deref::__static_ref_initialize$', path)
            if m:
                r = re.search(r'\) -> (.*) \{$', head)
                if r:
                    self.lazy.append((m.group(1), r.group(1), p))
            m = re.search(r'\(_1: (?:&mut |&|std::pin::Pin<&mut )?(\{(?:closure@|async |coroutine)[^}]*\})', head)
            if m and '{closure#' in path:
                # (closures of one macro have one name: also named with the function that makes them)
                nm = m.group(1).replace('procstar::', '')
                seen.setdefault(nm, set()).add(path)
                self.by_closure[nm] = path
                self.closure_of[path] = nm
            m = re.match(r'(.*?)<impl at (src/[^:]*):(\d+):\d+: \d+:\d+>::([^:]+)$', path)
            if m:
                key = (m.group(2), int(m.group(3)))
                for t, tr, der in implmap.get(key, []):
                    self.methods.setdefault((t.name if t.kind == 'adt' else str(t), tr, m.group(4)), []).append((path, head, der))

        self.ambiguous = {nm for nm, ps in seen.items() if len(ps) > 1}
        for nm in self.ambiguous:
            for p in seen[nm]:
                self.by_closure[f'{nm} of {p.rsplit("::{closure#", 1)[0]}'] = p
            del self.by_closure[nm]

    def reset_run(self):
        self.obls = []
        self.trusted, self.inlined, self.contracts_used, self.invariants_kept = {}, {}, {}, {}
        self.seen_loops = []
        self.nqueries, self.solver_secs = 0, 0.0
        self.depth, self.cur_fn, self.probing, self.drive_depth = 0, [], 0, 0
        self.selecting = 0
        self.recording = True
        self.loop_memo = {}
        self.nfresh = 0
        self.axioms = []
        self.exec_blocks = set()
        self.havoc_notes = set()
        self.eq_log, self.seq_lens, self.keep_alive = [], {}, []

    def run_async(self, st, cv):
        """run an async body (a coroutine value) to completion; an await of an unmodelled future is a model call"""
        path = self.by_closure.get(cv.name)
        if path is None:
            raise Unsupported(f'async body {cv.name}')
        f = self.load(path)
        args = [cv]
        if len(f.args) > 1:
            args.append(PyV('context'))
        return self.run(f, args, st)

    def depth_key(self):
        return (len(self.cur_fn), self.drive_depth)

    def load(self, path):
        if path not in self.fncache:
            if path not in self.by_path:
                return None
            self.fncache[path] = mir.parse_file(self.by_path[path], self.by_path[path].startswith(tuple(self.mirdirs[1:])) if len(self.mirdirs) > 1 else False)
            self._cfg(self.fncache[path])
        return self.fncache[path]

    def instance(self, p, f, func):
        """the instance of a generic function of the crate (one type parameter) at the type the caller names: that type for the parameter"""
        i = len(func) - 1
        d = 0
        for i in range(len(func) - 1, -1, -1):
            if func[i] == '>' and func[i-1] not in '-=':
                d += 1
            elif func[i] == '<':
                d -= 1
                if d == 0:
                    break
        a = [x for x in mir.split_top(func[i+1:-1]) if not x.strip().startswith("'")]
        if len(f.params) != 1 or len(a) != 1 or func[i-2:i] != '::':
            return f
        k = (p, a[0].strip())
        if k not in self.fncache:
            t = re.sub(r'(?<![\w:\'"])' + f.params[0] + r'(?![\w:(])', lambda _: k[1], f.text)
            self.fncache[k] = mir.parse_text(t, f.file)
            self._cfg(self.fncache[k])
        return self.fncache[k]

    def find_method(self, tyname, trait, name, args=()):
        c = self.methods.get((tyname, trait, name))
        if not c:
            return None
        if len(c) == 1:
            return c[0][0]
        # e.g. several From impls: match the parameter type
        for p, h, der in c:
            f = self.load(p)
            if args and f.args and str(f.locals[f.args[0]]) == str(args[0]):
                return p
        return None

    def _cfg(self, f):
        succ = {}
        for n, b in f.blocks.items():
            t = b.term
            if b.cleanup or t is None:
                succ[n] = []
                continue
            k = t[0]
            if k == 'goto':
                succ[n] = [t[1]]
            elif k == 'switch':
                succ[n] = [x for _, x in t[2]] + ([t[3]] if t[3] is not None else [])
            elif k == 'drop':
                succ[n] = [t[2]] if t[2] is not None else []
            elif k == 'assert':
                succ[n] = [t[4]]
            elif k == 'call':
                succ[n] = [t[4]] if t[4] is not None else []
            else:
                succ[n] = []      # return, yield (await never resumes pending), ...
        f.succ = succ
        # dominators / natural loops (from block 0)
        order, seen = [], set()

        def dfs(r):
            stack = [(r, iter(succ.get(r, [])))]
            seen.add(r)
            while stack:
                n, it = stack[-1]
                for m in it:
                    if m not in seen:
                        seen.add(m)
                        stack.append((m, iter(succ.get(m, []))))
                        break
                else:
                    order.append(n)
                    stack.pop()
        if 0 in f.blocks:
            dfs(0)
        rpo = order[::-1]
        pred = {n: [] for n in rpo}
        for n in rpo:
            for m in succ[n]:
                if m in pred:
                    pred[m].append(n)
        idx = {n: i for i, n in enumerate(rpo)}
        idom = {0: 0} if rpo else {}
        ch = True
        while ch:
            ch = False
            for n in rpo[1:]:
                ps = [p for p in pred[n] if p in idom]
                if not ps:
                    continue
                a = ps[0]
                for p in ps[1:]:
                    b = p
                    while a != b:
                        while idx[a] > idx[b]:
                            a = idom[a]
                        while idx[b] > idx[a]:
                            b = idom[b]
                if idom.get(n) != a:
                    idom[n] = a
                    ch = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == 0:
                    return False
                b = idom[b]
        loops = {}
        for n in rpo:
            for m in succ[n]:
                if m in idx and dom(m, n):
                    body = loops.setdefault(m, {m})
                    work = [n]
                    while work:
                        x = work.pop()
                        if x not in body:
                            body.add(x)
                            work.extend(pred[x])
        f.loops = loops
        # panic-only blocks: every path from them ends without returning
        f.rpo = rpo

    # -------------------------------------------------------------- sorts
    def tname(self, ty):
        return re.sub(r'[^A-Za-z0-9_]', '_', str(ty))

    def resolve(self, ty):
        while ty.kind == 'ref' or (ty.kind == 'adt' and ty.name in ('Box', 'Pin', 'Arc') and ty.args):
            ty = ty.args[0]
        return ty

    def sort(self, ty):
        key = str(ty)
        if key in self.sorts:
            return self.sorts[key]
        s = self._sort(ty)
        self.sorts[key] = s
        return s

    def _sort(self, ty):
        if ty.kind == 'ref' and not (ty.extra and False):
            return self.sort(ty.args[0])
        if ty.kind == 'adt':
            n, last = ty.name, ty.last
            if n in INTS:
                return I
            if n == 'bool':
                return B
            if last in REAL_TYPES:
                return R
            if n in STR_TYPES:
                return S
            if (n in ('Box', 'Cow') or last in TRANSPARENT) and ty.args:
                return self.sort(ty.args[0])
            if n in ('Rc', 'Weak'):
                return I
            if n == 'Vec' or n == 'VecDeque':
                return self._vecsort(ty.args[0])
            if n in MAP_TYPES:
                return self._mapsort(ty.args[0], ty.args[1])
            if n in SET_TYPES:
                return self._mapsort(ty.args[0], UNIT)
        if ty.kind in ('slice', 'array'):
            return self._vecsort(ty.args[0])
        if ty.kind == 'ptr':
            t = ty.args[0]
            if t.kind == 'adt' and t.name in ('i8', 'u8'):
                return S        # char*: modelled by the string it points at
            return self.usort(ty)
        if ty.kind == 'never':
            return self.usort(ty)
        info = self.db.info(ty)
        if info is not None:
            if info.kind == 'struct':
                d = z3.Datatype('T_' + self.tname(ty))
                d.declare('mk_' + self.tname(ty), *[(f'{self.tname(ty)}__{i}', self.sort(t)) for i, (_, t) in enumerate(info.fields)])
                dt = d.create()
            elif info.variants:
                d = z3.Datatype('T_' + self.tname(ty))
                for vi, (vn, _, fs) in enumerate(info.variants):
                    d.declare(f'{self.tname(ty)}_{vn}', *[(f'{self.tname(ty)}_{vn}__{i}', self.sort(t)) for i, (_, t) in enumerate(fs)])
                dt = d.create()
            else:
                return self.usort(ty)
            self.dt[str(ty)] = (dt, info)
            return dt
        return self.usort(ty)

    def usort(self, ty):
        return z3.DeclareSort('U_' + self.tname(ty))

    def _vecsort(self, ety):
        key = 'vec:' + str(ety)
        if key not in self.sorts:
            nm = self.tname(ety)
            d = z3.Datatype('Vec_' + nm)
            d.declare('mkVec_' + nm, ('vlen_' + nm, I), ('varr_' + nm, z3.ArraySort(I, self.sort(ety))))
            self.sorts[key] = d.create()
        return self.sorts[key]

    def _mapsort(self, k, v):
        key = f'map:{k}:{v}'
        if key not in self.sorts:
            nm = self.tname(k) + '__' + self.tname(v)
            ks, vs = self.sort(k), self.sort(v)
            d = z3.Datatype('Map_' + nm)
            d.declare('mkMap_' + nm, ('mhas_' + nm, z3.ArraySort(ks, B)), ('mval_' + nm, z3.ArraySort(ks, vs)),
                      ('msize_' + nm, I), ('mkey_' + nm, z3.ArraySort(I, ks)), ('mpos_' + nm, z3.ArraySort(ks, I)))
            self.sorts[key] = d.create()
        return self.sorts[key]

    # -------------------------------------------------------------- fresh / pack / unpack
    def fresh_const(self, sort, name='v'):
        self.nfresh += 1
        return z3.Const(f'{name}!{self.nfresh}', sort)

    def fresh(self, st, ty, name='v'):
        return self.unpack(st, self.fresh_const(self.sort(ty), name), ty)

    def in_range(self, t, name):
        lo, hi = INTS[name]
        return z3.And(t >= lo, t <= hi)

    def is_opaque(self, ty):
        return self.sort(ty).name().startswith('U_')

    def unpack(self, st, term, ty):
        k = ty.kind
        if k == 'ref':
            v = self.unpack(st, term, ty.args[0])
            return self.ref_to(st, v, ty.args[0], ty.extra)
        if k == 'adt':
            n, last = ty.name, ty.last
            if n in INTS:
                if not z3.is_int_value(term) and st is not None:
                    st.assume(self.in_range(term, n))
                return term
            if n == 'bool' or n in STR_TYPES:
                return term
            if last in REAL_TYPES:
                if last == 'Duration' and st is not None:
                    st.assume(term >= 0)
                return term
            if n == 'Cow':
                v = self.unpack(st, term, ty.args[0])
                return Agg(ty, [v], 1)
            if last in TRANSPARENT and ty.args:
                return self.unpack(st, term, ty.args[0])
            if n == 'Box':
                return Agg(ty, [self.unpack(st, term, ty.args[0])])
            if n in ('Rc', 'Weak'):
                if st is not None:
                    st.assume(term >= 0)
                return RcV(ty.args[0], term)
            if n in ('Vec', 'VecDeque'):
                return self._unvec(st, term, ty.args[0])
            if n in MAP_TYPES:
                return self._unmap(st, term, ty.args[0], ty.args[1])
            if n in SET_TYPES:
                return self._unmap(st, term, ty.args[0], UNIT)
        if k in ('slice', 'array'):
            v = self._unvec(st, term, ty.args[0])
            if k == 'array' and st is not None and re.match(r'\d+', str(ty.extra)):
                st.assume(v.n == int(re.match(r'\d+', str(ty.extra)).group()))
            return v
        info = self.db.info(ty)
        if info is not None and not self.is_opaque(ty):
            if info.kind == 'struct' and ty.kind == 'tuple' and not info.fields:
                return Agg(ty, [])
            if z3.is_app(term) and term.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR:
                s = self.sort(ty)
                for vi in range(s.num_constructors()):
                    if s.constructor(vi).eq(term.decl()):
                        fts = info.fields if info.kind == 'struct' else info.variants[vi][2]
                        return Agg(ty, [self.unpack(st, term.arg(i), t) for i, (_, t) in enumerate(fts)],
                                   None if info.kind == 'struct' else vi)
            return Sym(ty, term)
        return OpaqueV(ty, term)

    def _unvec(self, st, term, ety):
        s = self._vecsort(ety)
        n, a = simp(s.accessor(0, 0)(term)), simp(s.accessor(0, 1)(term))
        if st is not None:
            st.assume(n >= 0)
            st.assume(n <= INTS['isize'][1])
        return VecV(ety, n=n, arr=a)

    def _unmap(self, st, term, k, v):
        s = self._mapsort(k, v)
        m = MapV(k, v, *[simp(s.accessor(0, i)(term)) for i in range(5)])
        if st is not None:
            st.assume(m.size >= 0)
        return m

    def pack(self, st, v, ty):
        """value -> term of sort(ty)"""
        if isinstance(v, (RefV, GuardV)):
            return self.pack(st, self.load_ref(st, v), ty.args[0] if ty.kind == 'ref' else ty)
        if ty.kind == 'ref':
            ty = ty.args[0]
            if not isinstance(v, RefV):
                return self.pack(st, v, ty)
        if isinstance(v, z3.ExprRef):
            return v
        if isinstance(v, bool):
            return z3.BoolVal(v)
        if isinstance(v, int):
            return z3.IntVal(v)
        if isinstance(v, (Sym, OpaqueV)):
            return v.term
        if isinstance(v, RcV):
            return v.ptr
        if isinstance(v, VecV):
            s = self._vecsort(v.ety)
            return s.constructor(0)(v.length(), self.vec_arr(st, v))
        if isinstance(v, MapV):
            return self._mapsort(v.kty, v.vty).constructor(0)(v.has, v.val, v.size, v.key, v.pos)
        if isinstance(v, Agg):
            if ty.kind == 'adt' and ty.name in ('Box', 'Cow'):
                return self.pack(st, v.fields[0], ty.args[0])
            s = self.sort(ty)
            if not isinstance(s, z3.DatatypeSortRef):
                raise Unsupported(f'pack {v} as {ty}')
            info = self.db.info(ty)
            if info is None:
                raise Unsupported(f'pack {ty}')
            fts = info.fields if v.vi is None else info.variants[v.vi][2]
            args = [self.pack(st, x, t) for x, (_, t) in zip(v.fields, fts)]
            if len(args) != len(fts):
                raise Unsupported(f'pack arity {ty}')
            c = s.constructor(v.vi or 0)
            return c(*args) if args else c()
        raise Unsupported(f'cannot pack {type(v).__name__} as {ty}')

    def vec_arr(self, st, v):
        if v.items is None:
            return v.arr
        a = self.const_arr(v.ety)
        for i, x in enumerate(v.items):
            a = z3.Store(a, i, self.pack(st, x, v.ety))
        return a

    def const_arr(self, ety):
        key = 'dflt:' + str(ety)
        if key not in self.sorts:
            self.sorts[key] = z3.Const('dfltarr_' + self.tname(ety), z3.ArraySort(I, self.sort(ety)))
        return self.sorts[key]

    def empty_map(self, k, v):
        ks, vs = self.sort(k), self.sort(v)
        return MapV(k, v, z3.K(ks, z3.BoolVal(False)), self.fresh_const(z3.ArraySort(ks, vs), 'mv'), z3.IntVal(0),
                    self.fresh_const(z3.ArraySort(I, ks), 'mk'), self.fresh_const(z3.ArraySort(ks, I), 'mp'))

    # -------------------------------------------------------------- cells
    def new_cell(self, st, v, ty):
        self.ncell += 1
        st.cells[self.ncell] = v
        self.cellty[self.ncell] = ty
        return self.ncell

    def ref_to(self, st, v, ty, mut=False):
        return RefV(self.new_cell(st, v, ty), (), mut)

    def opaque_field(self, v, i, sort):
        """field i of a value of an external struct"""
        return z3.Function(f'fld_{self.tname(v.ty)}_{i}', self.sort(v.ty), sort)(v.term)

    def str_ref(self, st, term):
        return self.ref_to(st, term if isinstance(term, z3.ExprRef) else z3.StringVal(term), Ty('adt', 'str'))

    # -------------------------------------------------------------- heap
    def heap_root(self, st, key_ty, ptr, create=True):
        """find/materialise the overlay entry for pointer; returns index in the overlay tuple"""
        key = str(key_ty)
        ov = st.overlay.get(key, ())
        for i, (p, _) in enumerate(ov):
            if p.eq(ptr):
                return i
        for i, (p, _) in enumerate(ov):
            e = simp(p == ptr)
            if z3.is_false(e):
                continue
            if self.decide(st, e):
                return i
        # not aliased with anything seen: read from the base heap
        if as_int(ptr) is not None and as_int(ptr) < 0:
            raise Unsupported(f'heap object {key}@{ptr} unknown')
        if key not in st.heap:
            st.heap[key] = z3.Const('heap_' + self.tname(key_ty), z3.ArraySort(I, self.sort(key_ty)))
        v = self.unpack(st, z3.Select(st.heap[key], ptr), key_ty)
        st.overlay[key] = ov + ((ptr, v),)
        return len(ov)

    def alloc_heap(self, st, ty, v):
        n = st.ghost.get('nalloc', 0) + 1
        st.ghost['nalloc'] = n
        ptr = z3.IntVal(-n)
        key = str(ty)
        st.overlay[key] = st.overlay.get(key, ()) + ((ptr, v),)
        return RcV(ty, ptr)

    # -------------------------------------------------------------- places
    def root_get(self, st, root):
        if isinstance(root, int):
            return st.cells[root]
        _, key_ty, ptr = root
        i = self.heap_root(st, key_ty, ptr)
        return st.overlay[str(key_ty)][i][1]

    def root_set(self, st, root, v):
        if isinstance(root, int):
            st.cells[root] = v
            return
        _, key_ty, ptr = root
        i = self.heap_root(st, key_ty, ptr)
        ov = list(st.overlay[str(key_ty)])
        ov[i] = (ov[i][0], v)
        st.overlay[str(key_ty)] = tuple(ov)

    def load_addr(self, st, root, path):
        v = self.root_get(st, root)
        for p in path:
            v = self.step(st, v, p)
        return v

    def load_ref(self, st, r):
        """value a reference-like value points at (one level)"""
        if isinstance(r, GuardV):
            r = r.addr
        return self.load_addr(st, r.root, r.path)

    def deref_all(self, st, v):
        while isinstance(v, (RefV, GuardV)) or (isinstance(v, Agg) and v.ty.kind == 'adt' and v.ty.name in ('Box', 'Pin', 'Arc')):
            v = self.load_ref(st, v) if isinstance(v, (RefV, GuardV)) else v.fields[0]
        return v

    def sel(self, st, vec, i):
        if vec.items is not None:
            c = as_int(i)
            if c is None:
                # case split on the index
                if not vec.items:
                    raise Unsupported('index into empty vec')
                try:
                    return self.unpack(st, z3.Select(self.vec_arr(st, vec), zint(i)), vec.ety)
                except Unsupported:
                    for k in range(len(vec.items)):
                        if self.decide(st, zint(i) == k):
                            return vec.items[k]
                    raise PathEnd()
            if not (0 <= c < len(vec.items)):
                raise Unsupported('index out of modelled range')
            return vec.items[c]
        return self.unpack(st, simp(z3.Select(vec.arr, zint(i))), vec.ety)

    def step(self, st, v, p):
        k = p[0]
        if k == 'f':
            i = p[1]
            if isinstance(v, Agg):
                if i >= len(v.fields):
                    raise Unsupported(f'field {i} of {v}')
                return v.fields[i]
            if isinstance(v, Sym):
                s = self.sort(v.ty)
                info = self.db.info(v.ty)
                if info.kind != 'struct':
                    raise Unsupported(f'field of enum without downcast {v.ty}')
                return self.unpack(st, simp(s.accessor(0, i)(v.term)), info.fields[i][1])
            if isinstance(v, tuple) and v[0] == 'symvar':
                _, sv, vi = v
                s = self.sort(sv.ty)
                info = self.db.info(sv.ty)
                return self.unpack(st, simp(s.accessor(vi, i)(sv.term)), info.variants[vi][2][i][1])
            if isinstance(v, OpaqueV):
                fty = p[2] if len(p) > 2 else None
                if fty is None:
                    raise Unsupported(f'field {i} of opaque {v.ty}')
                f = z3.Function(f'fld_{self.tname(v.ty)}_{i}', self.sort(v.ty), self.sort(fty))
                return self.unpack(st, f(v.term), fty)
            if isinstance(v, ClosV):
                return v.caps[i]
            if isinstance(v, RcV) or isinstance(v, PyV) or isinstance(v, IterV):
                raise Unsupported(f'field {i} of {v}')
            raise Unsupported(f'field {i} of {type(v).__name__} {v}')
        if k == 'v':
            if isinstance(v, Agg):
                info = self.db.info(v.ty)
                if info is None or v.vi is None:
                    raise Unsupported(f'downcast {v}')
                if p[1].startswith('variant#'):
                    ok = v.vi == int(p[1][8:])
                else:
                    ok = info.variants[v.vi][0] == p[1]
                if not ok:
                    raise PathEnd()
                return v
            if isinstance(v, Sym):
                info = self.db.info(v.ty)
                for vi, (n, _, _) in enumerate(info.variants):
                    if n == p[1]:
                        return ('symvar', v, vi)
            raise Unsupported(f'downcast {p[1]} of {v}')
        if k == 'i':
            if isinstance(v, VecV):
                return self.sel(st, v, p[1])
            raise Unsupported(f'index of {v}')
        if k == 'mv':
            return self.unpack(st, simp(z3.Select(v.val, p[1])), v.vty)
        if k == 'slice':
            return self.slice(st, v, p[1], p[2])
        if k == 'sfrom':
            return z3.SubString(v, p[1], z3.Length(v) - p[1])
        raise Unsupported(f'projection {p}')

    def slice(self, st, v, a, b):
        if isinstance(v, VecV):
            if v.items is not None and as_int(a) is not None and as_int(b) is not None:
                return VecV(v.ety, v.items[as_int(a):as_int(b)])
            arr = self.vec_arr(st, v)
            i = z3.Int('sl_i')
            if as_int(a) == 0:
                return VecV(v.ety, n=zint(b), arr=arr)
            return VecV(v.ety, n=zint(b) - zint(a), arr=z3.Lambda([i], z3.Select(arr, i + zint(a))))
        raise Unsupported(f'slice of {v}')

    def explode(self, st, v, vi=None):
        """Sym -> Agg"""
        info = self.db.info(v.ty)
        s = self.sort(v.ty)
        if info.kind == 'struct':
            return Agg(v.ty, [self.unpack(st, simp(s.accessor(0, i)(v.term)), t) for i, (_, t) in enumerate(info.fields)])
        return Agg(v.ty, [self.unpack(st, simp(s.accessor(vi, i)(v.term)), t) for i, (_, t) in enumerate(info.variants[vi][2])], vi)

    def upd(self, st, v, path, new):
        if not path:
            return new
        p = path[0]
        k = p[0]
        if k == 'f':
            if isinstance(v, Sym):
                v = self.explode(st, v)
            if isinstance(v, tuple) and v[0] == 'symvar':
                v = self.explode(st, v[1], v[2])
            if isinstance(v, Agg):
                fs = list(v.fields)
                while len(fs) <= p[1]:
                    fs.append(UNINIT)
                fs[p[1]] = self.upd(st, fs[p[1]], path[1:], new)
                return Agg(v.ty, fs, v.vi)
            if isinstance(v, ClosV):
                fs = list(v.caps)
                fs[p[1]] = self.upd(st, fs[p[1]], path[1:], new)
                return ClosV(v.name, fs)
            raise Unsupported(f'write field of {v}')
        if k == 'v':
            w = self.step(st, v, p)
            return self.upd(st, w, path[1:], new)
        if k == 'i':
            if not isinstance(v, VecV):
                raise Unsupported(f'write index of {v}')
            old = self.sel(st, v, p[1]) if path[1:] else None
            e = self.upd(st, old, path[1:], new)
            if v.items is not None and as_int(p[1]) is not None:
                it = list(v.items)
                it[as_int(p[1])] = e
                return VecV(v.ety, it)
            return VecV(v.ety, n=v.length(), arr=z3.Store(self.vec_arr(st, v), zint(p[1]), self.pack(st, e, v.ety)))
        if k == 'mv':
            old = self.step(st, v, p) if path[1:] else None
            e = self.upd(st, old, path[1:], new)
            return MapV(v.kty, v.vty, v.has, z3.Store(v.val, p[1], self.pack(st, e, v.vty)), v.size, v.key, v.pos)
        if k == 'slice':
            if path[1:]:
                # element write through a slice
                q = path[1]
                if q[0] == 'i':
                    return self.upd(st, v, (('i', simp(zint(p[1]) + zint(q[1]))),) + tuple(path[2:]), new)
            else:
                # overwrite the whole slice with `new` (same length)
                a = zint(p[1])
                n = zint(p[2]) - a
                arr = self.vec_arr(st, v)
                na = self.vec_arr(st, new)
                i = z3.Int('sw_i')
                return VecV(v.ety, n=v.length(), arr=z3.Lambda([i], z3.If(z3.And(i >= a, i < a + n), z3.Select(na, i - a), z3.Select(arr, i))))
        raise Unsupported(f'write projection {p}')

    def store_addr(self, st, root, path, v):
        if not path:
            self.root_set(st, root, v)
            return
        if path[-1][0] == 'f' or True:
            old = self.root_get(st, root)
            self.root_set(st, root, self.upd(st, old, path, v))

    # MIR place -> (root, path)
    def addr(self, st, fr, place):
        n, projs = place
        root, path = self.local_cell(st, fr, n), ()
        pl = list(projs)
        i = 0
        wrapped = False
        while i < len(pl):
            p = pl[i]
            k = p[0]
            if k == 'deref':
                v = self.load_addr(st, root, path)
                if isinstance(v, GuardV):
                    v = v.addr
                if isinstance(v, RefV):
                    root, path = v.root, v.path
                elif isinstance(v, Agg) and v.ty.kind == 'adt' and v.ty.name in ('Box', 'Pin'):
                    path = path + (('f', 0),)
                elif isinstance(v, (z3.ExprRef, VecV, Sym, OpaqueV, ClosV, FnV, PyV, Agg)):
                    pass            # transparent
                else:
                    raise Unsupported(f'deref of {type(v).__name__} {v}')
            elif k == 'field':
                w = p[2] is not None and p[2].kind == 'adt' and p[2].name in ('ManuallyDrop', 'MaybeDangling', 'mem::ManuallyDrop', 'mem::MaybeDangling')
                if wrapped or (w and p[1] == 1 and not isinstance(self.load_addr(st, root, path), (Agg, Sym))):
                    wrapped = w         # MaybeUninit<T> is modelled as T (or as uninitialised)
                    i += 1
                    continue
                path = path + (('f', p[1], p[2]),)
            elif k == 'downcast':
                path = path + (('v', p[1]),)
            elif k == 'index':
                iv = st.cells[self.local_cell(st, fr, p[1])]
                path = path + (('i', iv),)
            elif k == 'cindex':
                v = self.load_addr(st, root, path)
                j = z3.IntVal(p[1]) if not p[2] else v.length() - p[1]
                path = path + (('i', simp(zint(j))),)
            elif k == 'subslice':
                v = self.load_addr(st, root, path)
                end = simp(v.length() - p[2]) if p[3] else z3.IntVal(p[2])
                path = path + (('slice', z3.IntVal(p[1]), end),)
            else:
                raise Unsupported(f'place {p}')
            i += 1
        return root, path

    def local_cell(self, st, fr, n):
        c = fr.get(n)
        if c is None:
            self.ncell += 1
            c = fr[n] = self.ncell
            self.cellty[c] = fr['fn'].locals.get(n)
        if c not in st.cells:
            st.cells[c] = UNINIT
        return c

    def read(self, st, fr, place):
        root, path = self.addr(st, fr, place)
        v = self.load_addr(st, root, path)
        if v is UNINIT:
            raise Unsupported(f'read of uninitialised _{place[0]} in {fr["fn"].path}')
        if isinstance(v, tuple) and v and v[0] == 'symvar':
            v = v[1]
        return v

    # -------------------------------------------------------------- solving
    def sync(self, pc):
        k = 0
        st = self.stack
        while k < len(st) and k < len(pc) and st[k] is pc[k]:
            k += 1
        if len(st) > k:
            self.solver.pop(len(st) - k)
            del st[k:]
        for c in pc[k:]:
            self.solver.push()
            self.solver.add(c)
            st.append(c)

    def check(self, st, extra, timeout=3000):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time budget exhausted')
        t0 = time.time()
        self.sync(st.pc)
        self.solver.set('timeout', timeout)
        r = self.solver.check(*([extra] if extra is not None else []))
        self.nqueries += 1
        self.solver_secs += time.time() - t0
        return r

    def feasible(self, st, cond=None):
        if cond is not None:
            b = as_bool(cond)
            if b is not None:
                return b
            k = st.known.get(cond.get_id())
            if k is not None:
                return k
        r = self.check(st, cond, 2000)
        return r != z3.unsat

    def decide(self, st, cond):
        """truth of cond on this path; forks when both are possible"""
        if isinstance(cond, bool):
            return cond
        b = as_bool(cond)
        if b is not None:
            return b
        c = simp(cond)
        k = st.known.get(c.get_id())
        if k is not None:
            return k
        t = self.feasible(st, c)
        f = self.feasible(st, simp(z3.Not(c)))
        if t and f:
            raise Fork([c, simp(z3.Not(c))])
        if t:
            st.assume(c)
            return True
        if f:
            st.assume(simp(z3.Not(c)))
            return False
        raise PathEnd()

    def valid(self, st, cond, timeout=None):
        """(status, model)"""
        b = as_bool(cond)
        if b is True:
            return 'proved', None
        t0 = time.time()
        goal = z3.Not(cond)
        s = z3.Solver()
        s.set('timeout', timeout or self.timeout)
        for c in self.axioms:
            s.add(c)
        for c in st.pc:
            s.add(c)
        s.add(goal)
        r = s.check()
        self.nqueries += 1
        dt = time.time() - t0
        self.solver_secs += dt
        if r == z3.unsat:
            return 'proved', None
        if r == z3.sat:
            return 'refuted', s.model()
        return 'unknown', None

    def prove(self, st, cond, name, detail=''):
        """an obligation of the active contract"""
        if not self.recording:
            return None
        o = Obligation(name, self.contract.target if self.contract else '')
        t0 = time.time()
        if isinstance(cond, bool):
            cond = z3.BoolVal(cond)
        o.status, o.model = self.valid(st, cond)
        o.secs = time.time() - t0
        o.detail = detail
        o.backend = 'z3'
        o.st = st if o.status != 'proved' else None
        if o.status != 'proved':
            o.detail = (detail + ' | ' if detail else '') + str(z3.simplify(cond))[:600]
        if o.status == 'proved' and self.contract is not None and getattr(self.contract, 'dump', None) is not None:
            self.contract.dump.append((list(st.pc), cond, name))
        self.obls.append(o)
        return o.status == 'proved'

    def panic(self, st, what):
        """reaching a panic: obligation that it is unreachable if the contract forbids panics"""
        c = self.contract
        if c is not None and c.panics_if is not None:
            self.prove(st, c.panics_if(self, st), f'panics only where it must: {what}', what)
        elif c is not None and c.no_panic and not (c.allow_panic and c.allow_panic(what)):
            self.prove(st, z3.BoolVal(False), f'no-panic: {what}', what)
        else:
            st.notes = st.notes + (('panic', what),)
        raise PathEnd()

    def require_nopanic(self, st, ok, what):
        """the operation panics unless ok"""
        b = as_bool(ok)
        if b is True:
            return
        c = self.contract
        if c is not None and c.panics_if is not None:
            self.prove(st, z3.Or(ok, c.panics_if(self, st)), f'panics only where it must: {what}', what)
        elif c is not None and c.no_panic and not (c.allow_panic and c.allow_panic(what)):
            k = st.known.get(simp(ok).get_id())
            if k is not True:
                self.prove(st, ok, f'no-panic: {what}', what)
        if b is False:
            raise PathEnd()
        if not self.feasible(st, ok):
            raise PathEnd()
        st.assume(simp(ok))

    # -------------------------------------------------------------- operands and rvalues
    def operand(self, st, fr, op):
        k = op[0]
        if k in ('copy', 'move'):
            return self.read(st, fr, op[1])
        return self.const(st, fr, op[1])

    def op_ty(self, fr, op):
        if op[0] == 'const':
            m = re.search(r'_([iu](?:8|16|32|64|128|size))$', op[1])
            if m:
                return Ty('adt', m.group(1))
            if op[1] in ('true', 'false'):
                return Ty('adt', 'bool')
            return None
        n, projs = op[1]
        t = fr['fn'].locals.get(n)
        for p in projs:
            if p[0] == 'deref':
                t = t.args[0] if t is not None and t.args else None
            elif p[0] == 'field':
                t = p[2]
            elif p[0] in ('index', 'cindex'):
                t = t.args[0] if t is not None and t.args else None
        return t

    def const(self, st, fr, c):
        m = re.fullmatch(r'(-?\d+)_([iu](?:8|16|32|64|128|size))', c)
        if m:
            return z3.IntVal(int(m.group(1)))
        if c == 'true':
            return z3.BoolVal(True)
        if c == 'false':
            return z3.BoolVal(False)
        if c == '()':
            return Agg(UNIT, [])
        if c.startswith('"'):
            return self.str_ref(st, z3.StringVal(unescape(c[1:-1]))) if isinstance(unescape(c[1:-1]), str) else None
        if c.startswith('b"'):
            return self.ref_to(st, VecV(Ty('adt', 'u8'), [z3.IntVal(x) for x in unescape_bytes(c[2:-1])]), None)
        if c.startswith("'"):
            return z3.IntVal(ord(unescape(c[1:-1])))
        m = re.fullmatch(r'(-?[\d.]+(?:[eE][-+]?\d+)?)_?(f64|f32)', c)
        if m:
            return z3.RealVal(str(Fraction(repr(float(m.group(1))))))
        m = re.fullmatch(r'([iu](?:8|16|32|64|128|size))::(MAX|MIN)', c) or re.fullmatch(r'std::([iu](?:8|16|32|64|128|size))::(MAX|MIN)', c) \
            or re.fullmatch(r'core::num::<impl ([iu](?:8|16|32|64|128|size))>::(MAX|MIN)', c) \
            or re.fullmatch(r'std::([iu](?:8|16|32|64|128|size))::<impl [^>]*>::(MAX|MIN)', c)
        if m:
            lo, hi = INTS[m.group(1)]
            return z3.IntVal(hi if m.group(2) == 'MAX' else lo)
        m = re.match(r'\{(alloc\d+)(?:<imm>)?: (.*)\}$', c)
        if m:
            f = fr['fn'] if fr else None
            a = f.allocs.get(m.group(1)) if f else None
            ty = parse_ty(m.group(2))
            return PyV('static', name=(a[0] if a else None), ty=ty)
        m = re.match(r'.*::promoted\[(\d+)\]$', c)
        if m:
            return self.eval_const_fn(st, self.promoted_path(fr, c))
        m = re.match(r'ZeroSized: (.*)$', c)
        if m:
            return FnV(m.group(1))
        if c.startswith('{closure@'):
            return ClosV(self.closure_name(c, fr), ())
        last = re.sub(r'::<.*>$', '', c).rsplit('::', 1)[-1]
        cp = self.crate_path(c)
        if cp in self.by_path:
            f = self.load(cp)
            if f.kind in ('const', 'static'):
                return self.eval_const_fn(st, cp)
            return FnV(c)
        if cp in self.db.consts:
            v = self.db.consts[cp]
            if isinstance(v, int):
                return z3.IntVal(v)
            if v.startswith('"'):
                return self.const(st, fr, v)
        v = libc_const(last)
        if v is not None and ('libc' in c or c.startswith(('sig::SIG', 'sig::NSIG', 'libc::'))):
            return z3.IntVal(v)
        h = self.intrinsics.get('const ' + canon_path(re.sub(r'::<[^<>]*>', '', c)))
        if h:
            return h(self, st, c)
        m = re.match(r'(?:\w+::)*(StatusCode|Method|header|HeaderName)::([A-Z_]+)$', c)
        h = self.intrinsics.get('const http ' + m.group(1)) if m else None
        if h:
            return h(self, st, m.group(2))
        if last == 'BRANCHES' and '{closure#' in c and fr is not None:
            # select!'s count of its branches: the futures in the tuple it polls
            n = [len(t.args[0].args) for t in fr['fn'].locals.values() if t is not None and t.kind == 'ref' and t.args[0].kind == 'tuple']
            if n:
                return z3.IntVal(max(n))
        # unit variants / constructors / functions used as values
        return FnV(c)

    def crate_path(self, c):
        c = re.sub(r'^(crate|procstar)::', '', c)
        return c

    def closure_name(self, name, fr):
        """the name of a closure made in the current function"""
        if name not in self.ambiguous or fr is None:
            return name
        here = f'{name} of {fr["fn"].path}'
        if here not in self.by_closure:
            raise Unsupported(f'several closures {name}')
        n = sum(1 for k in self.by_path if k.startswith(fr['fn'].path + '::{closure#') and self.by_closure.get(here) != k and f'{name} of {k.rsplit("::{closure#", 1)[0]}' == here and self.closure_of.get(k) == name)
        if n:
            raise Unsupported(f'several closures {name}')
        return here

    def promoted_path(self, fr, c):
        fn = fr['fn']
        m = re.match(r'.*(::promoted\[\d+\])$', c)
        p = fn.path + m.group(1)
        if p in self.by_path:
            return p
        if c in self.by_path:
            return c
        raise Unsupported(f'promoted {c}')

    def eval_const_fn(self, st, path):
        f = self.load(path)
        if f is None:
            raise Unsupported(f'const {path}')
        outs = self.run(f, [], st.copy(), const=True)
        if len(outs) != 1:
            raise Unsupported(f'const {path}: {len(outs)} outcomes')
        s2, v = outs[0]
        st.cells.update(s2.cells)
        st.overlay = s2.overlay
        return v

    def wrap(self, t, name):
        lo, hi = INTS[name]
        c = as_int(t)
        n = hi - lo + 1
        if c is not None:
            return z3.IntVal((c - lo) % n + lo)
        return z3.If(z3.And(t >= lo, t <= hi), t, (t - lo) % n + lo)

    def cast(self, st, v, src, dst, kind, fr):
        if kind.startswith('IntToInt') or kind == 'Transmute' and dst.is_int():
            if isinstance(v, z3.ExprRef) and z3.is_bool(v):
                return z3.If(v, z3.IntVal(1), z3.IntVal(0))
            if isinstance(v, (Agg, Sym)):
                return self.cast(st, self.discr(st, v), Ty('adt', 'isize'), dst, kind, fr)
            if src is not None and src.is_int():
                slo, shi = INTS[src.name]
                dlo, dhi = INTS[dst.name]
                if dlo <= slo and shi <= dhi:
                    return v
            return simp(self.wrap(v, dst.name))
        if kind.startswith('IntToFloat'):
            return simp(z3.ToReal(v))
        if kind.startswith('FloatToInt'):
            lo, hi = INTS[dst.name]
            t = z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
            return simp(z3.If(t < lo, z3.IntVal(lo), z3.If(t > hi, z3.IntVal(hi), t)))
        if kind.startswith('FloatToFloat'):
            return v
        if kind.startswith('PointerCoercion') or kind.startswith('PtrToPtr') or kind.startswith('Transmute') \
                or kind.startswith('FnPtrToPtr') or kind.startswith('PointerExposeProvenance') or kind.startswith('PointerExpose'):
            return v
        raise Unsupported(f'cast {kind}')

    def discr(self, st, v):
        """discriminant value (z3 Int)"""
        if isinstance(v, Agg):
            info = self.db.info(v.ty)
            if info is None or info.kind != 'enum':
                raise Unsupported(f'discriminant of {v}')
            return z3.IntVal(info.variants[v.vi][1])
        if isinstance(v, Sym):
            info = self.db.info(v.ty)
            s = self.sort(v.ty)
            e = z3.IntVal(info.variants[-1][1])
            for vi in range(len(info.variants) - 2, -1, -1):
                e = z3.If(s.recognizer(vi)(v.term), z3.IntVal(info.variants[vi][1]), e)
            return e
        if isinstance(v, (RefV, GuardV)):
            return self.discr(st, self.load_ref(st, v))
        raise Unsupported(f'discriminant of {v}')

    def tdiv(self, a, b):
        ca, cb = as_int(a), as_int(b)
        if ca is not None and cb is not None:
            q = abs(ca) // abs(cb)
            return z3.IntVal(q if (ca >= 0) == (cb >= 0) else -q)
        if cb is not None and cb > 0:
            return z3.If(a >= 0, a / b, -((-a) / b))
        q = z3.If(a >= 0, a, -a) / z3.If(b >= 0, b, -b)
        return z3.If((a >= 0) == (b >= 0), q, -q)

    def bitop(self, op, a, b, ty):
        ca, cb = as_int(a), as_int(b)
        lo, hi = INTS[ty.name] if ty is not None and ty.is_int() else INTS['u64']
        n = hi - lo + 1
        nb = n.bit_length() - 1
        if self.symbits and op == 'BitAnd':
            # single bits at symbolic positions: bit(x, k)
            for x, y in ((a, b), (b, a)):
                if z3.is_app(y) and y.decl().name() == 'pow2':
                    return z3.If(z3.Function('bit', I, I, B)(x, y.arg(0)), y, 0)
                if z3.is_app(x) and x.decl().name() == 'shr' and as_int(y) == 1:
                    return z3.If(z3.Function('bit', I, I, B)(x.arg(0), x.arg(1)), z3.IntVal(1), z3.IntVal(0))
        if ca is not None and cb is not None:
            r = {'BitAnd': ca & cb, 'BitOr': ca | cb, 'BitXor': ca ^ cb}[op]
            return z3.IntVal((r - lo) % n + lo)
        if ca is not None:
            a, b, ca, cb = b, a, cb, ca
        if cb is not None and op in ('BitAnd', 'BitOr'):
            m = cb % n
            ua = a % n if lo < 0 else a         # two's complement as unsigned
            if op == 'BitAnd':
                r = z3.IntVal(0)
                i = 0
                while i < nb:
                    if m >> i & 1:
                        j = i
                        while j < nb and m >> j & 1:
                            j += 1
                        part = ua
                        if i:
                            part = part / (1 << i)
                        if j < nb or lo < 0:
                            part = part % (1 << (j - i))
                        r = r + part * (1 << i)
                        i = j
                    else:
                        i += 1
                if lo < 0 and m >> (nb - 1) & 1:
                    r = z3.If(r > hi, r - n, r)
                return simp(r)
            # a | m == a + (m & ~a) ; bits of m missing in a
            nm = self.bitop('BitAnd', ua, z3.IntVal(m), Ty('adt', 'u128'))
            r = ua + (m - nm)
            if lo < 0:
                r = z3.If(r > hi, r - n, r)
            return simp(r)
        if op == 'BitOr':
            # disjoint halves, e.g. (x << k) | low : recognised when one operand is a multiple of 2^k and the other below
            r = self.disjoint_or(a, b)
            if r is not None:
                return r
        f = {'BitAnd': lambda x, y: x & y, 'BitOr': lambda x, y: x | y, 'BitXor': lambda x, y: x ^ y}[op]
        return z3.BV2Int(f(z3.Int2BV(a, nb), z3.Int2BV(b, nb)), lo < 0)

    def disjoint_or(self, a, b):
        for x, y in ((a, b), (b, a)):
            for k in range(1, 33):
                s = z3.Solver()
                s.set('timeout', 200)
                for c in (self._cur_pc or []):
                    s.add(c)
                s.add(z3.Or(x % (1 << k) != 0, y < 0, y >= (1 << k)))
                if s.check() == z3.unsat:
                    return simp(x + y)
        return None

    _cur_pc = None
    symbits = False      # set by a contract that speaks of bits at symbolic positions

    def binop(self, st, op, a, b, ty):
        self._cur_pc = st.pc
        if op in ('Eq', 'Ne'):
            e = self.scalar_eq(st, a, b)
            return simp(e if op == 'Eq' else z3.Not(e))
        if op in ('Lt', 'Le', 'Gt', 'Ge'):
            return simp({'Lt': a < b, 'Le': a <= b, 'Gt': a > b, 'Ge': a >= b}[op])
        if z3.is_bool(a):
            return simp({'BitAnd': z3.And, 'BitOr': z3.Or, 'BitXor': z3.Xor}[op](a, b))
        isreal = z3.is_real(a)
        base = op.replace('WithOverflow', '').replace('Unchecked', '')
        if base in ('Add', 'Sub', 'Mul'):
            r = {'Add': a + b, 'Sub': a - b, 'Mul': a * b}[base]
            r = simp(r)
            if op.endswith('WithOverflow'):
                return Agg(Ty('tuple', '', [ty or Ty('adt', 'i128'), Ty('adt', 'bool')]),
                           [r, simp(z3.Not(self.in_range(r, ty.name)))])
            if op.endswith('Unchecked') or isreal:
                return r
            return simp(self.wrap(r, ty.name)) if ty is not None and ty.is_int() else r
        if base == 'Div':
            return simp(a / b) if isreal else simp(self.tdiv(a, b))
        if base == 'Rem':
            if isreal:
                raise Unsupported('float rem')
            return simp(a - b * self.tdiv(a, b))
        if base in ('BitAnd', 'BitOr', 'BitXor'):
            return self.bitop(base, a, b, ty)
        if base in ('Shl', 'Shr'):
            c = as_int(b)
            bits = (INTS[ty.name][1] - INTS[ty.name][0] + 1).bit_length() - 1
            if c is None:
                ca = as_int(a)
                if ca == 1 and base == 'Shl' and self.symbits:
                    return z3.Function('pow2', I, I)(simp(b))
                if base == 'Shr' and self.symbits:
                    return z3.Function('shr', I, I, I)(a, simp(b))
                if ca is None and base == 'Shl':
                    raise Unsupported('shift of symbolic by symbolic')
                r = z3.IntVal(0)
                for k in range(bits - 1, -1, -1):
                    r = z3.If(b == k, (a * (1 << k)) if base == 'Shl' else a / (1 << k), r)
                return simp(self.wrap(r, ty.name)) if base == 'Shl' else simp(r)
            c %= bits
            if base == 'Shl':
                return simp(self.wrap(simp(a * (1 << c)), ty.name))
            return simp(a / (1 << c))        # z3 int div floors for positive divisors = arithmetic shift
        if op == 'Cmp':
            o = Ty('adt', 'Ordering')
            if self.decide(st, a < b):
                return Agg(o, [], 0)
            if self.decide(st, a == b):
                return Agg(o, [], 1)
            return Agg(o, [], 2)
        raise Unsupported(f'binop {op}')

    def scalar_eq(self, st, a, b):
        if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
            from .std import member_facts
            if not z3.is_int_value(a) and not z3.is_int_value(b):
                member_facts(self, st, a, b)
                member_facts(self, st, b, a)
            return a == b
        if isinstance(a, (RefV, PyV, FnV)) or isinstance(b, (RefV, PyV, FnV)):
            raise Unsupported('pointer comparison')
        raise Unsupported(f'compare {a} {b}')

    def rvalue(self, st, fr, rv, dty):
        k = rv[0]
        if k == 'use':
            return self.operand(st, fr, rv[1])
        if k in ('ref', 'rawref'):
            root, path = self.addr(st, fr, rv[2])
            if not path or path[-1][0] not in ('x',):
                # references to transparent values (e.g. deref of a str literal) stay what they are
                if isinstance(root, int) and not path and rv[2][1] and rv[2][1][-1][0] == 'deref':
                    v = st.cells[root]
                    if isinstance(v, (PyV, ClosV, FnV)) and False:
                        return v
            return RefV(root, path, 'mut' in rv[1])
        if k == 'discr':
            root, path = self.addr(st, fr, rv[1])
            v = self.load_addr(st, root, path)
            if isinstance(v, RefV):
                v = self.load_ref(st, v)
            return self.discr(st, v)
        if k == 'len':
            v = self.deref_all(st, self.read(st, fr, rv[1]))
            return v.length()
        if k == 'bin':
            a = self.operand(st, fr, rv[2])
            b = self.operand(st, fr, rv[3])
            ty = self.op_ty(fr, rv[2]) or self.op_ty(fr, rv[3])
            if rv[1] in ('Shl', 'Shr'):
                ty = self.op_ty(fr, rv[2]) or dty
            if ty is None and dty is not None:
                ty = dty.args[0] if dty.kind == 'tuple' else dty
            return self.binop(st, rv[1], a, b, ty)
        if k == 'un':
            a = self.operand(st, fr, rv[2])
            if rv[1] == 'Not':
                if z3.is_bool(a):
                    return simp(z3.Not(a))
                ty = self.op_ty(fr, rv[2]) or dty
                lo, hi = INTS[ty.name]
                return simp(-a - 1 if lo < 0 else hi - a)
            if rv[1] == 'Neg':
                return simp(-a)
            if rv[1] == 'PtrMetadata':
                v = self.deref_all(st, a)
                if isinstance(v, VecV):
                    return v.length()
                if isinstance(v, z3.ExprRef):
                    return z3.Length(v)
            raise Unsupported(f'unop {rv[1]}')
        if k == 'cast' and rv[3] == 'BoxDerefTransmute':
            n, projs = rv[1][1]
            return self.read(st, fr, (n, projs[:-1]))
        if k == 'cast':
            return self.cast(st, self.operand(st, fr, rv[1]), self.op_ty(fr, rv[1]), rv[2], rv[3], fr)
        if k == 'tuple':
            return Agg(dty if dty is not None else Ty('tuple', '', [UNIT] * len(rv[1])), [self.operand(st, fr, x) for x in rv[1]])
        if k == 'array':
            return VecV(dty.args[0] if dty is not None and dty.args else None, [self.operand(st, fr, x) for x in rv[1]])
        if k == 'repeat':
            v = self.operand(st, fr, rv[1])
            m = re.match(r'(?:const )?(\d+)', rv[2])
            n = int(m.group(1)) if m else as_int(self.const(st, fr, rv[2].replace('const ', '')))
            if n is None:
                raise Unsupported('repeat count')
            if n <= 64:
                return VecV(dty.args[0], [v] * n)
            return VecV(dty.args[0], n=z3.IntVal(n), arr=z3.K(I, self.pack(st, v, dty.args[0])))
        if k == 'closure':
            name = rv[1]
            if name.startswith('{coroutine') and dty is not None and dty.kind == 'closure':
                name = dty.name
            return ClosV(self.closure_name(name, fr), [self.operand(st, fr, o) for _, o in rv[2]])
        if k == 'adt':
            return self.aggregate(st, fr, rv, dty)
        raise Unsupported(f'rvalue {k}')

    def aggregate(self, st, fr, rv, dty):
        path, fields = rv[1], rv[2]
        vals = [self.operand(st, fr, o) for _, o in fields]
        ty = dty
        if ty is None or ty.kind not in ('adt',):
            t = re.sub(r'::<', '<', path)
            try:
                ty = parse_ty(path)
            except Exception:
                raise Unsupported(f'aggregate {path}')
        info = self.db.info(ty)
        if info is None:
            seg = strip_generics(path).split('::')
            if len(seg) > 1 and seg[-2] == ty.last and ty.kind == 'adt':
                # a variant of an enum that is not modelled: only its identity is known
                if any(isinstance(x, PyV) for x in vals):
                    return PyV('variant', ty=ty, name=seg[-1], fields=tuple(vals))
                if vals:
                    return self.fresh(st, ty, seg[-1])      # nothing is known of it
                return OpaqueV(ty, z3.Const('::'.join(seg[-2:]), self.sort(ty)))
            return Agg(ty, vals)
        if info.kind == 'struct':
            order = {n: i for i, (n, _) in enumerate(info.fields)}
            out = [UNINIT] * len(info.fields)
            for (n, _), v in zip(fields, vals):
                out[order[n] if n in order else int(n)] = v
            return Agg(ty, out)
        vn = strip_generics(path).rsplit('::', 1)[-1]
        for vi, (n, _, fs) in enumerate(info.variants):
            if n == vn:
                order = {m: i for i, (m, _) in enumerate(fs)}
                out = [UNINIT] * len(fs)
                for (m, _), v in zip(fields, vals):
                    out[order[m] if m in order else int(m)] = v
                return Agg(ty, out, vi)
        raise Unsupported(f'aggregate {path} as {ty}')

    # -------------------------------------------------------------- running
    def run(self, f, args, st, const=False):
        """all outcomes (state, value) of calling MIR function f"""
        self.depth += 1
        if self.depth > 60:
            self.depth -= 1
            raise Unsupported('call depth')
        self.cur_fn.append(f.path)
        self.inlined[f.path] = self.inlined.get(f.path, 0) + 1
        try:
            fr = {'fn': f}
            for n, v in zip(f.args, args):
                c = self.new_cell(st, v, f.locals[n])
                fr[n] = c
            outs = self.blocks(fr, [(st, 0)], None, None)
            return outs['ret']
        finally:
            self.depth -= 1
            self.cur_fn.pop()

    def blocks(self, fr, work, head, region):
        """execute until return / region exit / back edge to head"""
        f = fr['fn']
        res = {'ret': [], 'exit': [], 'back': []}
        first = head is not None
        work = list(work)
        while work:
            st, bb = work.pop()
            if self.deadline and time.time() > self.deadline:
                raise Unsupported('time budget exhausted')
            if isinstance(bb, tuple):          # ('fresh', n): entering the region at its head
                bb = bb[1]
            else:
                if head is not None and bb == head:
                    res['back'].append(st)
                    continue
                if region is not None and bb not in region:
                    res['exit'].append((st, bb))
                    continue
                if bb in f.loops:
                    r = self.loop(fr, st, bb)
                    res['ret'] += r['ret']
                    work += r['exit']
                    continue
            for s2, nb in self.block(fr, st, bb, res, head):
                work.append((s2, nb))
            if len(work) + len(res['ret']) > 3000:
                raise Unsupported('too many paths')
        return res

    def block(self, fr, st, bb, res, head=None):
        f = fr['fn']
        b = f.blocks[bb]
        self.exec_blocks.add((f.path, bb))
        work = [(st, 0)]
        out = []
        while work:
            st, i = work.pop()
            try:
                while i < len(b.stmts):
                    s = b.stmts[i]
                    if s[0] == 'assign':
                        bk = st.copy() if needs_backup(s) else None
                        try:
                            self.assign(st, fr, s[1], s[2])
                        except Fork as fk:
                            src = bk or st
                            for c in fk.conds:
                                s2 = src.copy()
                                s2.assume(c)
                                work.append((s2, i))
                            raise PathEnd()
                    elif s[0] == 'dead':
                        c = fr.get(s[1])
                        if c is not None:
                            st.cells[c] = UNINIT
                    elif s[0] == 'setdiscr':
                        raise Unsupported('set discriminant')
                    i += 1
                out += self.terminator(fr, st, b.term, res, head, bb)
            except PathEnd:
                continue
        return out

    def pinned(self, fr):
        return ()

    def assign(self, st, fr, place, rv):
        dty = self.place_ty(fr, place)
        v = self.rvalue(st, fr, rv, dty)
        root, path = self.addr(st, fr, place)
        self.store_addr(st, root, path, v)

    def place_ty(self, fr, place):
        return self.op_ty(fr, ('copy', place))

    def terminator(self, fr, st, t, res, head, bb):
        k = t[0]
        if k == 'goto':
            return [(st, t[1])]
        if k == 'return':
            c = fr.get(0)
            v = st.cells.get(c, UNINIT) if c is not None else UNINIT
            if v is UNINIT and fr['fn'].ret is not None and fr['fn'].ret.is_unit():
                v = Agg(UNIT, [])
            res['ret'].append((st, v))
            return []
        if k in ('unreachable', 'resume'):
            return []
        if k == 'yield':
            return []
        if k == 'switch':
            return self.forked(st, lambda s: self.switch(s, fr, t))
        if k == 'assert':
            def go(s):
                c = self.operand(s, fr, t[1])
                ok = c if t[2] else z3.Not(c)
                self.require_nopanic(s, simp(ok), 'assert ' + (t[3][0] if t[3] else '') + ' in ' + short(fr['fn'].path))
                return [(s, t[4])]
            return self.forked(st, go)
        if k == 'drop':
            def go(s):
                try:
                    root, path = self.addr(s, fr, t[1])
                    v = self.load_addr(s, root, path)
                except KeyError:
                    v = UNINIT
                ty = self.place_ty(fr, t[1])
                return [(s2, t[2]) for s2 in self.drop(s, v, ty, root, path)]
            return self.forked(st, go)
        if k == 'call':
            def go(s):
                return self.call_term(s, fr, t, res, head, bb)
            return self.forked(st, go)
        raise Unsupported(f'terminator {k}')

    def forked(self, st, go):
        """run go(state copy), re-running it under each alternative when it forks"""
        work = [st]
        out = []
        n0, nmax = self.nfresh, self.nfresh
        while work:
            s = work.pop()
            s1 = s.copy()
            # a re-run names its fresh values as the first run did, so that a decision on one of them sticks
            nmax = max(nmax, self.nfresh)
            self.nfresh = n0
            try:
                out += go(s1)
            except Fork as fk:
                for c in fk.conds:
                    s2 = s.copy()
                    s2.assume(c)
                    work.append(s2)
                if len(work) > 2000:
                    raise Unsupported('too many forks')
            except PathEnd:
                pass
        self.nfresh = max(nmax, self.nfresh)
        return out

    def switch(self, st, fr, t):
        v = self.operand(st, fr, t[1])
        if isinstance(v, z3.ExprRef) and z3.is_bool(v):
            v = z3.If(v, z3.IntVal(1), z3.IntVal(0))
        if not isinstance(v, z3.ExprRef):
            raise Unsupported(f'switch on {v}')
        ty = self.op_ty(fr, t[1])
        c = as_int(v)
        if c is not None:
            for k, b in t[2]:
                if signed_eq(k, c, ty):
                    return [(st, b)]
            return [(st, t[3])] if t[3] is not None else []
        out = []
        rest = []
        for k, b in t[2]:
            kk = k
            if ty is not None and ty.is_int() and kk > INTS[ty.name][1]:
                kk = kk - (INTS[ty.name][1] - INTS[ty.name][0] + 1)
            e = simp(v == kk)
            if self.feasible(st, e):
                s2 = st.copy()
                s2.assume(e)
                out.append((s2, b))
            rest.append(simp(z3.Not(e)))
        if t[3] is not None and fr['fn'].blocks[t[3]].term[0] != 'unreachable':
            e = simp(z3.And(*rest)) if rest else z3.BoolVal(True)
            if self.feasible(st, e):
                for r in rest:
                    st.assume(r)
                out.append((st, t[3]))
        return out

    # -------------------------------------------------------------- drop
    def drop(self, st, v, ty, root=None, path=None):
        """returns list of states"""
        if v is UNINIT or isinstance(v, z3.ExprRef):
            return [st]
        h = self.overrides.get('drop')
        if h:
            r = h(self, st, v, ty)
            if r is not None:
                return r
        if isinstance(v, GuardV):
            st.guards.pop(v.gid, None)
            return [st]
        if isinstance(v, PyV) and v.kind == 'file':
            # an owning file object: dropping it closes the descriptor
            from . import std
            close = self.overrides.get('libc::close') or std.TABLE['libc::close']
            call = Call(self, 'libc::close', None, [v.a['fd']], Ty('adt', 'i32'), None)
            return [s for s, _ in self.forked(st, lambda z: norm(z, close(self, z, call)))]
        if isinstance(v, (Agg, Sym)) and v.ty.kind == 'adt':
            m = self.find_method(v.ty.name, 'Drop', 'drop')
            if m:
                f = self.load(m)
                r = RefV(root, path, True) if root is not None else self.ref_to(st, v, v.ty, True)
                return [s for s, _ in self.run(f, [r], st)]
        if isinstance(v, Agg):
            sts = [st]
            for x in v.fields:
                if isinstance(x, (GuardV, Agg, PyV)):
                    sts = [s2 for s in sts for s2 in self.drop(s, x, None)]
            return sts
        return [st]

    # -------------------------------------------------------------- calls
    def call_term(self, st, fr, t, res, head, bb):
        _, dest, func, ops, ret = t
        args = [self.operand(st, fr, o) for o in ops]
        dty = self.place_ty(fr, dest)
        if func.startswith(('move ', 'copy ')):
            fv = self.operand(st, fr, mir.parse_operand(func))
            outs = self.call_value(st, fv, args, dty)
        else:
            old, self.cur_head = getattr(self, 'cur_head', None), head if bb == head else None
            try:
                outs = self.call(st, func, args, dty, fr)
            finally:
                self.cur_head = old
        out = []
        for s, v in outs:
            if v is SKIP:
                if head is None:
                    raise Unsupported('filtered iterator advanced outside a loop')
                res['back'].append(s)
                continue
            if ret is None:
                continue
            root, path = self.addr(s, fr, dest)
            self.store_addr(s, root, path, v)
            out.append((s, ret))
        return out

    def call_value(self, st, fv, args, dty=None):
        """call a closure / fn item value; outcomes list"""
        while isinstance(fv, RefV):
            fv0 = self.load_ref(st, fv)
            if isinstance(fv0, ClosV):
                return self.call_closure(st, fv0, args, ref=fv)
            fv = fv0
        if isinstance(fv, Agg) and fv.ty.kind == 'adt' and fv.ty.name == 'Box':
            return self.call_value(st, fv.fields[0], args, dty)
        if isinstance(fv, ClosV):
            return self.call_closure(st, fv, args)
        if isinstance(fv, FnV):
            return self.call(st, fv.text, args, dty, None)
        if isinstance(fv, PyV) and fv.kind == 'pyfn':
            return fv.fn(self, st, args)
        raise Unsupported(f'call of {fv}')

    def call_closure(self, st, cv, args, ref=None):
        path = self.by_closure.get(cv.name)
        if path is None:
            raise Unsupported(f'closure {cv.name}')
        f = self.load(path)
        t0 = f.locals[f.args[0]]
        if t0.kind == 'ref':
            a0 = ref if ref is not None else self.ref_to(st, cv, None, True)
        else:
            a0 = cv
        return self.run(f, [a0] + list(args), st)

    def call(self, st, func, args, dty, fr):
        """outcomes of calling `func` (printed path)"""
        cal = parse_callee(func)
        key = cal.key
        h = self.overrides.get(key)
        if h is None:
            h = self.overrides.get(cal.plain) or self.overrides.get(cal.short)
        if h:
            self.contracts_used[key] = self.contracts_used.get(key, 0) + 1
            return norm(st, h(self, st, Call(self, func, cal, args, dty, fr)))
        if cal.trait == 'Deref' and cal.self_ty is not None and cal.self_ty.kind == 'adt' and self.lazy:
            r = self.lazy_static(st, cal, dty)
            if r is not None:
                return r
        # functions of the crate: inline
        p = self.resolve_fn(st, func, cal, args)
        if p:
            f = self.load(p)
            if f.params and func.endswith('>') and '::<' in func:
                f = self.instance(p, f, func)
            if len(f.args) != len(args):
                raise Unsupported(f'arity {p}')
            return self.run(f, args, st)
        c = Call(self, func, cal, args, dty, fr)
        h = self.intrinsics.get(key) or self.intrinsics.get(cal.plain) or self.intrinsics.get(cal.short)
        if h is None and cal.plain.startswith('libc::') and getattr(self.contract, 'any_libc', False) and not any(isinstance(a, RefV) for a in args):
            from .std import libc_call
            return norm(st, libc_call(cal.method, lo=INTS[dty.name][0] if dty is not None and dty.is_int() else -1)(self, st, c))
        if h is None:
            raise Unsupported(f'no model for {func}  [{key} | {cal.short}]')
        self.trusted[cal.short if cal.short in self.intrinsics else key] = self.trusted.get(cal.short if cal.short in self.intrinsics else key, 0) + 1
        return norm(st, h(self, st, c))

    def lazy_static(self, st, cal, dty):
        mod = cal.self_ty.name.rsplit('::', 1)[0] if '::' in cal.self_ty.name else None
        cand = [x for x in self.lazy if x[0] == mod]
        if not cand or dty is None or dty.kind != 'ref' or not cal.self_ty.last.isupper() and '_' not in cal.self_ty.last:
            return None
        cand = [x for x in cand if str(parse_ty(x[1])) == str(dty.args[0])]
        if len(cand) != 1:
            return None
        key = 'lazy:' + cal.self_ty.name
        if key in st.statics:
            return [(st, RefV(st.statics[key], ()))]
        f = mir.parse_file(cand[0][2])
        self._cfg(f)
        outs = []
        for s, v in self.run(f, [], st):
            c = self.new_cell(s, v, dty.args[0])
            s.statics[key] = c
            outs.append((s, RefV(c, ())))
        return outs

    NO_INLINE_TRAITS = {'Clone', 'PartialEq', 'Debug', 'Deref', 'DerefMut', 'Serialize', 'Deserialize', 'ToString', 'Hash'}

    def resolve_fn(self, st, func, cal, args):
        g = self.crate_path(func)
        if g in self.by_path:
            return g
        pl = cal.plain
        if pl in self.by_path:
            return pl
        if cal.trait is None and '::' in pl:
            # inherent method:  module::Type::method
            tyn, m = pl.rsplit('::', 1)
            p = self.find_method(tyn, None, m)
            if p:
                return p
            # trait default?
            return None
        if cal.trait is not None and cal.self_ty is not None:
            t = cal.self_ty
            if t.kind == 'closure':
                return None
            tn = t.name if t.kind == 'adt' else str(t)
            c = self.methods.get((tn, cal.trait, cal.method))
            if c:
                if cal.trait in ('Clone', 'PartialEq', 'Serialize', 'Deserialize', 'Debug', 'Eq', 'Hash', 'PartialOrd', 'Ord') and c[0][2]:
                    return None
                if cal.trait in ('Debug', 'Display'):
                    return None
                return self.find_method(tn, cal.trait, cal.method, cal.trait_args)
            # Into::into through a crate From impl
            if cal.trait == 'Into' and cal.trait_args:
                d = cal.trait_args[0]
                return self.find_method(d.name if d.kind == 'adt' else str(d), 'From', 'from', [t]) if d.kind == 'adt' and d.name in self.db.adts else None
        return None

    # -------------------------------------------------------------- loops
    def loop(self, fr, st, head):
        from .loops import run_loop
        return run_loop(self, fr, st, head)


SKIP = object()


class Call:
    __slots__ = ('E', 'func', 'cal', 'args', 'dty', 'fr')

    def __init__(self, E, func, cal, args, dty, fr):
        self.E, self.func, self.cal, self.args, self.dty, self.fr = E, func, cal, args, dty, fr


def norm(st, r):
    if isinstance(r, list):
        return r
    return [(st, r)]


def needs_backup(s):
    return s[2][0] not in ('ref', 'rawref')


def short(p):
    return re.sub(r'<impl at [^>]*>::', '', p)


def signed_eq(k, c, ty):
    if k == c:
        return True
    if ty is not None and ty.is_int():
        lo, hi = INTS[ty.name]
        return k > hi and k - (hi - lo + 1) == c
    return False


def strip_generics(p):
    out, d, i = [], 0, 0
    while i < len(p):
        if p.startswith('->', i):
            i += 2
            continue
        c = p[i]
        if c == '<':
            d += 1
        elif c == '>':
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    return ''.join(out).replace('::::', '::').rstrip(':')


class Callee:
    def __init__(self):
        self.trait = None
        self.trait_args = ()
        self.self_ty = None
        self.method = None
        self.targs = ()       # generic args of the method (last segment)
        self.pargs = ()       # generic args of the preceding type segment
        self.plain = ''
        self.key = ''
        self.short = ''


_callee_cache = {}


def parse_callee(s):
    if s in _callee_cache:
        return _callee_cache[s]
    c = Callee()
    p = TyParser(s)
    segs = []       # (name, args)
    if s.startswith('<'):
        p.i = 1
        c.self_ty = p.ty()
        if p.eat('as '):
            tr = p.ty()
            c.trait = tr.last
            c.trait_full = tr.name
            c.trait_args = tr.args
        p.expect('>')
        p.eat('::')
    while p.i < len(s):
        p.ws()
        if s[p.i] == '<':
            if s.startswith('<impl ', p.i):
                j = mir.match_close(s, p.i)
                inner = s[p.i+6:j]
                p.i = j + 1
                if ' for ' in inner:
                    inner = inner.split(' for ')[1]
                try:
                    t = parse_ty(inner)
                except Exception:
                    t = Ty('adt', 'unknown')
                nm = {'slice': 'slice', 'ptr': 'ptr'}.get(t.kind, t.name or t.kind)
                c.self_ty = t
                segs = [(nm, ())]
                p.eat('::')
                continue
            p.i += 1
            args = p.generic_args()
            if segs:
                segs[-1] = (segs[-1][0], tuple(args))
            p.eat('::')
            continue
        if s[p.i] == '{':
            segs.append((p.braces(), ()))
            p.eat('::')
            continue
        segs.append((p.ident(), ()))
        if not p.eat('::'):
            break
    names = [n for n, _ in segs]
    c.method = names[-1] if names else ''
    c.targs = segs[-1][1] if segs else ()
    c.pargs = segs[-2][1] if len(segs) > 1 else ()
    if c.trait:
        c.plain = f'{c.trait}::{c.method}'
        tn = c.self_ty.name if c.self_ty.kind == 'adt' else c.self_ty.kind
        c.key = f'<{tn} as {c.trait}>::{c.method}'
        c.short = c.plain
    else:
        path = '::'.join(names)
        cp = path
        if cp.startswith(('crate::', 'procstar::')):
            cp = cp.split('::', 1)[1]
        c.plain = cp
        c.key = cp
        c.short = '::'.join(names[-2:])
    _callee_cache[s] = c
    return c


def unescape(s):
    out = []
    i = 0
    while i < len(s):
        c = s[i]
        if c == '\\':
            d = s[i+1]
            if d == 'u':
                j = s.index('}', i)
                out.append(chr(int(s[i+3:j], 16)))
                i = j + 1
                continue
            if d == 'x':
                out.append(chr(int(s[i+2:i+4], 16)))
                i += 4
                continue
            out.append({'n': '\n', 't': '\t', 'r': '\r', '0': '\0', '\\': '\\', '"': '"', "'": "'"}[d])
            i += 2
            continue
        out.append(c)
        i += 1
    return ''.join(out)


def unescape_bytes(s):
    out = []
    i = 0
    while i < len(s):
        c = s[i]
        if c == '\\':
            d = s[i+1]
            if d == 'x':
                out.append(int(s[i+2:i+4], 16))
                i += 4
                continue
            out.append(ord({'n': '\n', 't': '\t', 'r': '\r', '0': '\0', '\\': '\\', '"': '"', "'": "'"}[d]))
            i += 2
            continue
        out += list(c.encode())
        i += 1
    return out


def libc_const(name):
    import signal
    import errno
    t = {'FD_CLOEXEC': 1, 'F_GETFD': 1, 'F_SETFD': 2, 'F_GETFL': 3, 'F_SETFL': 4, 'WNOHANG': 1, '_SC_PAGESIZE': 30,
         '_SC_CLK_TCK': 2, 'STDIN_FILENO': 0, 'STDOUT_FILENO': 1, 'STDERR_FILENO': 2, 'SEEK_SET': 0, 'SEEK_CUR': 1,
         'SEEK_END': 2, 'WUNTRACED': 2, 'WCONTINUED': 8, 'P_ALL': 0}
    if name in t:
        return t[name]
    if name.startswith('SIG') and hasattr(signal, name):
        return int(getattr(signal, name))
    if name.startswith('O_') and hasattr(os, name):
        return getattr(os, name)
    if name.startswith('E') and hasattr(errno, name):
        return getattr(errno, name)
    if name.startswith('F_'):
        import fcntl
        return getattr(fcntl, name, None)
    return None
