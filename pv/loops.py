"""Loops: unrolled when their bound is concrete, otherwise cut by an invariant.  The invariant is the conjunction of
those candidates (from the contract, plus generic ones) that hold on entry and are preserved by the real body."""
import z3
from .engine import *
from .engine import _Uninit
from .tys import Ty
from . import engine as _e

MAX_UNROLL = 400


def run_loop(E, fr, st, head):
    f = fr['fn']
    region = f.loops[head]
    label = (f.path, head)

    def body(s):
        return E.blocks(fr, [(s, ('fresh', head))], head, region)
    return generic_loop(E, st, body, label)


def generic_loop(E, st, body, label):
    mode = 'invariant' if E.symbits else probe(E, st, body)
    if mode == 'unroll':
        return unroll(E, st, body, label)
    return invariant(E, st, body, label)


def probe(E, st, body):
    old, E.recording = E.recording, False
    E.next_log = log = []
    outer = getattr(E, 'probing', 0)
    E.probing = outer + 1
    at, E.probe_at = E.probe_at, E.depth_key()
    saved = E.depth, list(E.cur_fn), E.drive_depth, E.any_order
    try:
        r = body(st.copy())
    except StopProbe:
        # its iterator is advanced here: nothing more to learn
        E.depth, E.cur_fn[:], E.drive_depth, E.any_order = saved
        r = {'back': [], 'exit': [], 'ret': []}
    finally:
        E.recording = old
        E.probing = outer
        E.probe_at = at
    depth0 = [x for x in log if x[1] == E.depth_key()] or log
    kinds = {x[0] for x in depth0[:1]} if depth0 else set()
    if 'symbolic' in kinds:
        return 'invariant'
    if 'concrete' in kinds:
        return 'unroll'
    if len(r['back']) + len(r['exit']) + len(r['ret']) <= 1:
        return 'unroll'
    return 'invariant'


def unroll(E, st, body, label):
    res = {'ret': [], 'exit': []}
    cur = [st]
    n = 0
    while cur:
        n += 1
        if n > MAX_UNROLL:
            raise Unsupported(f'unroll limit in {label}')
        nxt = []
        for s in cur:
            r = body(s)
            res['ret'] += r['ret']
            res['exit'] += r['exit']
            nxt += r['back']
        if len(nxt) > 600:
            raise Unsupported(f'unroll paths in {label}')
        cur = nxt
    return res


# ---- changed locations.  key: (kind, id, path) with path made of ('f',i) | ('idx',) | ('inner',)

def sub(v, p):
    for x in p:
        if x[0] == 'f':
            v = v.fields[x[1]] if isinstance(v, Agg) else v.caps[x[1]]
        else:
            v = v.a[x[1]]
    return v


def setsub(v, p, new):
    if not p:
        return new
    x = p[0]
    if x[0] == 'f':
        if isinstance(v, Agg):
            fs = list(v.fields)
            fs[x[1]] = setsub(fs[x[1]], p[1:], new)
            return Agg(v.ty, fs, v.vi)
        fs = list(v.caps)
        fs[x[1]] = setsub(fs[x[1]], p[1:], new)
        return ClosV(v.name, fs)
    return v.with_(**{x[1]: setsub(v.a[x[1]], p[1:], new)})


def same(a, b):
    if a is b:
        return True
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        return a.eq(b)
    if type(a) is not type(b):
        return False
    if isinstance(a, (Sym, OpaqueV)):
        return a.term.eq(b.term)
    if isinstance(a, RcV):
        return a.ptr.eq(b.ptr)
    if isinstance(a, VecV):
        if a.items is not None and b.items is not None:
            return len(a.items) == len(b.items) and all(same(x, y) for x, y in zip(a.items, b.items))
        return a.items is None and b.items is None and a.n.eq(b.n) and a.arr.eq(b.arr)
    if isinstance(a, MapV):
        return a.has.eq(b.has) and a.val.eq(b.val) and a.size.eq(b.size) and a.key.eq(b.key)
    if isinstance(a, RefV):
        return a.root == b.root if isinstance(a.root, int) and isinstance(b.root, int) and len(a.path) == len(b.path) == 0 else \
            (str(a.root) == str(b.root) and str(a.path) == str(b.path))
    if isinstance(a, Agg):
        return a.vi == b.vi and len(a.fields) == len(b.fields) and all(same(x, y) for x, y in zip(a.fields, b.fields))
    if isinstance(a, ClosV):
        return a.name == b.name and all(same(x, y) for x, y in zip(a.caps, b.caps))
    if isinstance(a, IterV):
        return a.kind == b.kind and a.a.keys() == b.a.keys() and all(same(a.a[k], b.a[k]) for k in a.a)
    if isinstance(a, (str, int, bool, tuple, type(None), Ty)):
        return a == b
    if isinstance(a, FnV):
        return a.text == b.text
    if isinstance(a, GuardV):
        return same(a.addr, b.addr)
    if isinstance(a, PyV):
        return a.kind == b.kind and a.a.keys() == b.a.keys() and all(same(a.a[k], b.a[k]) for k in a.a)
    return False


def diff(a, b, p=()):
    if same(a, b):
        return []
    if isinstance(a, Agg) and isinstance(b, Agg) and a.vi == b.vi and len(a.fields) == len(b.fields) and a.fields:
        out = []
        for i, (x, y) in enumerate(zip(a.fields, b.fields)):
            out += diff(x, y, p + (('f', i),))
        return out
    if isinstance(a, IterV) and isinstance(b, IterV) and a.kind == b.kind:
        out = []
        for k in a.a:
            if not same(a.a[k], b.a[k]):
                if isinstance(a.a[k], (IterV, z3.ExprRef, ClosV)):
                    out += diff(a.a[k], b.a[k], p + (('a', k),))
                else:
                    return [p]
        return out
    if isinstance(a, ClosV) and isinstance(b, ClosV) and a.name == b.name:
        out = []
        for i, (x, y) in enumerate(zip(a.caps, b.caps)):
            out += diff(x, y, p + (('f', i),))
        return out
    if isinstance(a, Agg) and isinstance(b, Sym) and a.vi is None and False:
        return [p]
    return [p]


def havoc_value(E, st, v, ty, what):
    if v is UNINIT:
        return v
    if isinstance(v, z3.ExprRef):
        n = E.fresh_const(v.sort(), 'h')
        if ty is not None and ty.is_int() and z3.is_int(n):
            st.assume(E.in_range(n, ty.name))
        return n
    if isinstance(v, (Sym, OpaqueV)):
        return E.fresh(st, v.ty, 'h')
    if isinstance(v, VecV):
        if v.ety is None:
            raise Unsupported('havoc of untyped vec')
        return E.unpack(st, E.fresh_const(E._vecsort(v.ety), 'hv'), Ty('adt', 'Vec', [v.ety]))
    if isinstance(v, MapV):
        t = E.fresh_const(E._mapsort(v.kty, v.vty), 'hm')
        return E._unmap(st, t, v.kty, v.vty)
    if isinstance(v, RcV):
        return E.fresh(st, Ty('adt', 'Rc', [v.ty]), 'hp')
    if isinstance(v, Agg):
        info = E.db.info(v.ty)
        if info is not None and info.kind == 'enum':
            return E.fresh(st, v.ty, 'h')
        if info is not None:
            return Agg(v.ty, [havoc_value(E, st, x, t, what) for x, (_, t) in zip(v.fields, info.fields)])
        raise Unsupported(f'havoc {v}')
    if isinstance(v, IterV):
        if 'idx' in v.a:
            idx = E.fresh_const(I, 'ix')
            st.assume(idx >= v.a['idx'])
            if 'len' in v.a:
                st.assume(idx <= v.a['len'])
            return v.with_(idx=idx)
        raise Unsupported(f'havoc {v}')
    if isinstance(v, RefV) and ty is not None and ty.kind == "ref" and not ty.extra:
        # a shared reference to what cannot change while it is borrowed: it may now refer to something else of its type
        x = E.load_ref(st, v)
        if isinstance(x, (VecV, z3.ExprRef)):
            return E.ref_to(st, havoc_value(E, st, x, ty.args[0], what), ty.args[0])
    if isinstance(v, PyV) and v.kind in ('opaque',):
        return v
    if isinstance(v, PyV) and v.a.get('handle'):
        return v        # a name for something the contract keeps track of itself
    raise Unsupported(f'havoc of {type(v).__name__} {str(v)[:100]} ({what})')


def subty(E, ty, v, p):
    for x in p:
        if x[0] != 'f' or ty is None:
            return None
        if isinstance(v, Agg):
            info = E.db.info(v.ty)
            fs = None
            if info is not None:
                fs = info.fields if v.vi is None else info.variants[v.vi][2]
            ty = fs[x[1]][1] if fs and x[1] < len(fs) else None
            v = v.fields[x[1]]
        else:
            return None
    return ty


class LoopCtx:
    """what a contract sees of a loop"""

    def __init__(self, E, entry, label, changed):
        self.E, self.entry, self.label, self.changed = E, entry, label, changed

    def root(self, st, key):
        k, i = key[0], key[1]
        if k == 'c':
            return st.cells[i]
        if k == 'g':
            return st.ghost[i]
        if k == 'o':
            return st.overlay[i[0]][i[1]][1]

    def get(self, st, key):
        return sub(self.root(st, key), key[2])

    def ty(self, key):
        if key[0] == 'c':
            t = self.E.cellty.get(key[1])
            return subty(self.E, t, self.root(self.entry, key), key[2]) if key[2] else t
        return None

    def iters(self):
        """keys of changed iterator positions, outermost first"""
        out = []
        for key in sorted(self.changed, key=str):
            if key[0] in 'c' and key[2] and key[2][-1][0] == 'a' and key[2][-1][1] == 'idx':
                out.append(key)
        return out

    def iter_of(self, st, key):
        return sub(self.root(st, key), key[2][:-1])

    def values(self, cls, ty=None):
        """keys of changed locations holding a value of python class cls"""
        out = []
        for key in sorted(self.changed, key=str):
            try:
                v = self.get(self.entry, key)
            except Exception:
                continue
            if isinstance(v, cls) and (ty is None or ty(v)):
                out.append(key)
        return out


def generic_candidates(L):
    E = L.E
    out = {}
    its = L.iters()
    # "not found so far" for every membership test seen on the sequence iterated
    for ik in its:
        try:
            it = L.iter_of(L.entry, ik)
        except Exception:
            continue
        if getattr(it, 'kind', '') != 'seq' or it.vec.items is not None:
            continue
        from .std import ci
        seen = []
        for arr, sh, t in E.eq_log:
            if arr.eq(it.vec.arr) and not any(sh == s2 and t.eq(t2) for s2, t2 in seen):
                seen.append((sh, t))
        for sh, t in seen[:12]:
            for key in L.changed:
                try:
                    m = L.get(L.entry, key)
                except Exception:
                    continue
                if sh == '' and isinstance(m, MapV) and m.has.sort().domain() == t.sort() and len(seen) <= 12:
                    out[f'{key[0]}{key[1]} members {t} idx{ik[1]}'] = lambda st, arr=it.vec.arr, t=t, ik=ik, key=key, m=m: \
                        z3.Select(L.get(st, key).has, t) == z3.Or(z3.Select(m.has, t), ci(arr, '', t, L.get(st, ik)))
        for sh, t in seen[:12]:
            ax = z3.Not(ci(it.vec.arr, sh, t, z3.IntVal(0)))
            if not any(ax.eq(a) for a in E.axioms):
                E.axioms.append(ax)
            out[f'absent {sh} {t} before idx{ik[1]}'] = lambda st, arr=it.vec.arr, sh=sh, t=t, ik=ik: z3.Not(ci(arr, sh, t, L.get(st, ik)))
    for key in L.changed:
        if key[0] not in ('c', 'o', 'g'):
            continue
        try:
            v0 = L.get(L.entry, key)
        except Exception:
            continue
        n = f'{key[0]}{key[1] if key[0] == "g" else ""}{key[2]}'
        nm = f'{n}@{key[1]}'
        if isinstance(v0, z3.ExprRef) and not (key[2] and key[2][-1][0] == 'a'):
            out[nm + '=='] = (lambda st, key=key, v0=v0: L.get(st, key) == v0)
            if z3.is_int(v0):
                out[nm + '>='] = (lambda st, key=key, v0=v0: L.get(st, key) >= v0)
                out[nm + '<='] = (lambda st, key=key, v0=v0: L.get(st, key) <= v0)
                for ik in its:
                    out[nm + f'==idx{ik[1]}'] = (lambda st, key=key, v0=v0, ik=ik:
                                                 L.get(st, key) == v0 + L.get(st, ik) - L.get(L.entry, ik))
        elif isinstance(v0, VecV):
            out[nm + 'len=='] = (lambda st, key=key, v0=v0: L.get(st, key).length() == v0.length())
            out[nm + 'len>='] = (lambda st, key=key, v0=v0: L.get(st, key).length() >= v0.length())
            for k in getattr(E.contract, 'probes', ()):
                if not z3.is_int(k):
                    continue
                for ik in its:
                    it = L.iter_of(L.entry, ik)
                    if getattr(it, 'kind', '') != 'seq' or it.vec.items is not None or it.vec.arr.sort() != E.sort(Ty('adt', 'Vec', [v0.ety])).accessor(0, 1).range():
                        continue
                    out[nm + f'[{k}] copied idx{ik[1]}'] = (lambda st, key=key, ik=ik, k=k, src=it.vec.arr:
                                                           z3.Implies(z3.And(k >= 0, k < L.get(st, ik)),
                                                                      z3.Select(E.vec_arr(st, L.get(st, key)), k) == z3.Select(src, k)))
            for ik in its:
                out[nm + f'len==idx{ik[1]}'] = (lambda st, key=key, v0=v0, ik=ik:
                                                L.get(st, key).length() == v0.length() + L.get(st, ik) - L.get(L.entry, ik))
        elif isinstance(v0, (Agg, Sym)) and E.db.info(v0.ty) is not None:
            try:
                t0 = E.pack(L.entry, v0, v0.ty)
            except Unsupported:
                continue
            out[nm + '=='] = (lambda st, key=key, v0=v0, t0=t0: E.pack(st, L.get(st, key), v0.ty) == t0)
            info = E.db.info(v0.ty)
            if info.kind == 'enum':
                out[nm + 'discr=='] = (lambda st, key=key, v0=v0: E.discr(st, L.get(st, key)) == E.discr(L.entry, v0))
    return out


def invariant(E, st0, body, label):
    # an inner loop starts from what the last round of the loop around it found: its candidates only ever get fewer
    outer = E.loop_memo
    n = outer[None] = outer.get(None, {})
    n[label] = n.get(label, 0) + 1
    slot = (label, n[label])
    changed, dropped = outer.get(slot, (set(), set())) if getattr(E.contract, 'loop_memo', False) else (set(), set())
    changed, dropped = set(changed), set(dropped)
    if any(k[0] in ('c', 'dead') and k[1] not in st0.cells for k in changed):
        changed, dropped = set(), set()
    rounds = 0
    keep = None
    E.loop_memo = {}
    try:
        return invariant_(E, st0, body, label, changed, dropped, rounds, keep, outer, slot)
    finally:
        E.loop_memo = outer


def invariant_(E, st0, body, label, changed, dropped, rounds, keep, outer, slot):
    general = getattr(E.contract, 'generalise', None)
    while True:
        rounds += 1
        if rounds > 60:
            raise Unsupported(f'loop inference did not settle in {label}')
        S = st0.copy()
        do_havoc(E, S, st0, changed)
        L = LoopCtx(E, st0, label, changed)
        cands = dict(generic_candidates(L))
        if E.contract is not None:
            cands.update(E.contract.loop_inv(L) or {})
        if keep is None:
            keep = []
            for n, fn in cands.items():
                if n in dropped:
                    continue
                try:
                    c = fn(st0)
                except (KeyError, Unsupported, AttributeError, IndexError):
                    continue
                if E.valid(st0, c, 4000)[0] == 'proved':
                    keep.append(n)
                else:
                    dropped.add(n)
        for n in keep:
            c = cands[n](S)
            S.assume(simp(c) if not z3.is_quantifier(c) else c)
            if general is not None and general(n):
                S.univ += (c,)
        old, E.recording = E.recording, False
        E.loop_memo.pop(None, None)
        try:
            r = body(S.copy())
        finally:
            E.recording = old
        new = set()
        for b in r['back']:
            new |= changes(E, S, b)
        new -= changed
        # drop keys subsumed by a changed prefix
        if new:
            changed = prune(changed | new)
            keep = None
            dropped = set()
            E.loop_memo = {}
            continue
        bad = []
        for n in keep:
            for b in r['back']:
                try:
                    c = cands[n](b)
                except Exception:
                    bad.append(n)
                    break
                if E.valid(b, c, 6000)[0] != 'proved':
                    bad.append(n)
                    break
        if bad:
            dropped |= set(bad)
            keep = [n for n in keep if n not in bad]
            continue
        break
    outer[slot] = (changed, dropped)
    if E.recording:
        E.seen_loops.append((label, sorted(k for k in keep if not k.startswith(('c(', 'o(', 'g')))))
        E.invariants_kept[str(label)] = len(keep)
        E.loop_memo.pop(None, None)
        r = body(S.copy())
    return {'ret': r['ret'], 'exit': r['exit']}


def prune(keys):
    out = set()
    for k in keys:
        if any(k != o and k[0] == o[0] and k[1] == o[1] and k[2][:len(o[2])] == o[2] for o in keys):
            continue
        out.add(k)
    return out


def changes(E, a, b):
    """locations (existing in a) that differ in b"""
    out = set()
    for c, va in a.cells.items():
        vb = b.cells.get(c, UNINIT)
        if va is vb:
            continue
        if va is UNINIT:
            # dead on entry: must not be read at the head; leave
            continue
        if vb is UNINIT:
            # moved/dead on the way: not available at the head either
            out.add(('dead', c, ()))
            continue
        for p in diff(va, vb):
            out.add(('c', c, p))
    for k in a.overlay:
        oa, ob = a.overlay[k], b.overlay.get(k, ())
        for i, (ptr, va) in enumerate(oa):
            vb = ob[i][1]
            for p in diff(va, vb):
                out.add(('o', (k, i), p))
    for k, ob in b.overlay.items():
        na = len(a.overlay.get(k, ()))
        for ptr, vb in ob[na:]:
            c = as_int(ptr)
            if c is not None and c < 0:
                if any((as_int(p) or 0) < 0 for p, _ in a.overlay.get(k, ())):
                    raise Unsupported(f'loop allocates {k} objects beside older ones')
                continue
            if not unchanged_base(E, b, k, ptr, vb):
                out.add(('heap', k, ()))
    for g in set(a.ghost) | set(b.ghost):
        if g == 'nalloc':
            continue
        va, vb = a.ghost.get(g), b.ghost.get(g)
        if va is None or vb is None:
            if va is not vb:
                raise Unsupported(f'ghost {g} created in a loop')
            continue
        for p in diff(va, vb):
            out.add(('g', g, p))
    if a.trace is not b.trace and a.trace != b.trace:
        out.add(('trace', 0, ()))
    if set(a.guards) != set(b.guards):
        raise Unsupported('loop iteration leaves a RefCell borrow open')
    return out


def unchanged_base(E, st, k, ptr, v):
    t = z3.Select(st.heap[k], ptr) if k in st.heap else None
    if t is None:
        return False
    if isinstance(v, (Sym, OpaqueV)):
        return v.term.eq(t) or simp(v.term).eq(simp(t))
    try:
        p = E.pack(st, v, v.ty)
    except Exception:
        return False
    return E.valid(st, p == t, 3000)[0] == 'proved'


def do_havoc(E, S, st0, changed):
    for key in sorted(changed, key=str):
        k, i, p = key
        if k == 'c':
            root = S.cells[i]
            v = sub(root, p)
            if p and p[-1] == ('a', 'idx'):
                it = sub(root, p[:-1])
                S.cells[i] = setsub(root, p[:-1], havoc_value(E, S, it, None, 'iter'))
                continue
            S.cells[i] = setsub(root, p, havoc_value(E, S, v, subty(E, E.cellty.get(i), root, p) if p else E.cellty.get(i),
                                                     f'cell {i} {E.cellty.get(i)}'))
        elif k == 'dead':
            S.cells[i] = UNINIT
        elif k == 'o':
            hk, n = i
            ov = list(S.overlay[hk])
            root = ov[n][1]
            ov[n] = (ov[n][0], setsub(root, p, havoc_value(E, S, sub(root, p), subty(E, getattr(root, 'ty', None), root, p), hk)))
            S.overlay[hk] = tuple(ov)
        elif k == 'heap':
            # make sure the base exists and the overlay of symbolic pointers is forgotten
            arr = S.heap.get(i)
            if arr is not None:
                S.heap[i] = E.fresh_const(arr.sort(), 'heap')
            S.overlay[i] = tuple((q, v) for q, v in S.overlay.get(i, ()))
        elif k == 'g':
            S.ghost[i] = setsub(S.ghost[i], p, havoc_value(E, S, sub(S.ghost[i], p), None, f'ghost {i}'))
        elif k == 'trace':
            S.trace = S.trace + (('LOOP',),)
