"""Validation of the fds of a set of process specs."""
from ..contract import *
from ..std import *

# what parse_fd's own contract says: which names it accepts, and what they mean
OK = z3.Function('fd_name_ok', S, B)
NUM = z3.Function('fd_name_means', S, I)

PROCS = Ty('adt', 'BTreeMap', [STRING, Ty('adt', 'spec::Proc')])
FD = Ty('adt', 'spec::Fd')


class Validate(Contract):
    """validate_procs_fds: accepts exactly if every name is valid, no process names an fd twice, every reader has a writer of its own, and every writer
    a reader; an error names an fd that is at fault; it never panics"""
    target = 'spec::validate_procs_fds'
    covers = ('ok', 'BadFd', 'DuplicateFd', 'UnmatchedReadFd', 'UnmatchedWriteFd')
    budget = 700
    loop_memo = True

    # ---- the specs, as terms
    def fds(self, p):
        P = z3.Select(self.m.val, p)
        return self.proc_s.accessor(0, self.fds_i)(P)

    def nfds(self, p):
        v = self.fds(p)
        return v.sort().accessor(0, 0)(v)

    def item(self, p, i):
        v = self.fds(p)
        return z3.Select(v.sort().accessor(0, 1)(v), i)

    def name(self, p, i):
        t = self.item(p, i)
        return t.sort().accessor(0, 0)(t)

    def spec(self, p, i):
        t = self.item(p, i)
        return t.sort().accessor(0, 1)(t)

    def is_(self, p, i, var):
        return self.fd_s.recognizer(self.var[var])(self.spec(p, i))

    def from_(self, p, i):
        return [self.fd_s.accessor(self.var['PipeRead'], k)(self.spec(p, i)) for k in (self.from_i, self.from_j)]

    def num(self, p, i):
        return NUM(self.name(p, i))

    def there(self, p, i):
        return z3.And(z3.Select(self.m.has, p), i >= 0, i < self.nfds(p))

    def wkey(self, p, i):
        return self.key_s.constructor(0)(p, self.num(p, i))

    def rkey(self, p, i):
        a, b = self.from_(p, i)
        return self.key_s.constructor(0)(a, NUM(b))

    def is_write(self, p, i, k):
        return z3.And(self.there(p, i), self.is_(p, i, 'PipeWrite'), self.wkey(p, i) == k)

    def is_read(self, p, i, k):
        return z3.And(self.there(p, i), self.is_(p, i, 'PipeRead'), self.rkey(p, i) == k)

    def setup(self, E, st, f):
        self.arg_t = f.locals[f.args[0]].args[0]
        self.m = m = E.fresh(st, self.arg_t, 'specs')
        st.assume(m.size >= 0)
        pt = m.vty
        self.proc_s = E.sort(pt)
        self.fds_i = [n for n, _ in E.db.info(pt).fields].index('fds')
        self.fd_s = E.sort(FD)
        info = E.db.info(FD)
        self.var = {v[0]: i for i, v in enumerate(info.variants)}
        fs = [n for n, _ in info.variants[self.var['PipeRead']][2]]
        self.from_i, self.from_j = fs.index('proc_id'), fs.index('fd')
        self.key_s = E.sort(Ty('tuple', '', [STRING, Ty('adt', 'i32')]))
        self.p1, self.p2 = z3.Strings('p1 p2')
        self.i1, self.i2, self.f0 = z3.Ints('i1 i2 f0')
        self.k0 = z3.Const('k0', self.key_s)
        for p in (self.p1, self.p2):
            map_wf_at(E, st, m, p)
        g = st.ghost
        KI, KS, KB = (z3.ArraySort(self.key_s, x) for x in (I, S, B))
        g['own'] = z3.Const('own', KI)                  # (process, fd) -> where it was named
        g['wp'], g['wi'] = z3.Const('wp', KS), z3.Const('wi', KI)      # pipe -> its writer
        g['rp'], g['ri'] = z3.Const('rp', KS), z3.Const('ri', KI)      # pipe -> its reader
        g['taken'] = z3.K(self.key_s, z3.BoolVal(False))
        g['cur_k'] = z3.Const('cur_k', self.key_s)
        g['cur_p'], g['cur_i'] = z3.StringVal(''), z3.IntVal(-1)
        return [E.ref_to(st, m, self.arg_t)]

    def inst(self, st, *subs):
        """the facts that hold for any probe, at these"""
        for c in st.univ:
            c2 = z3.substitute(c, *subs)
            if not c2.eq(c):
                st.assume(c2)

    def at(self, st, p=None, i=None, k=None):
        subs = []
        if p is not None:
            subs += [(self.p1, p), (self.i1, i)]
        if k is not None:
            subs += [(self.k0, k), (self.f0, self.key_s.accessor(0, 1)(k))]
        self.inst(st, *subs)

    def key(self, st, k):
        """facts about a pipe"""
        g = st.ghost
        self.at(st, k=k)
        for a, b in (('wp', 'wi'), ('rp', 'ri')):
            p, i = z3.Select(g[a], k), z3.Select(g[b], k)
            self.at(st, p, i, k)

    def on_item(self, E, st, it, i):
        g = st.ghost
        if it.kind == 'map' and it.m.has.eq(self.m.has):
            k = z3.Select(it.m.key, i)
            g['cur_p'] = simp(k)
            st.assume(z3.And(self.nfds(k) >= 0, z3.Select(self.m.has, k), z3.Select(self.m.pos, k) == i))
        elif it.kind == 'seq':
            g['cur_i'] = simp(i)
            self.at(st, g['cur_p'], g['cur_i'])
        elif it.kind == 'map' and it.m.has.sort().domain() == self.key_s:
            k = z3.Select(it.m.key, i)
            g['cur_k'] = simp(k)
            st.assume(z3.Select(it.m.has, k))
            self.key(st, simp(k))

    def on_end(self, E, st, it):
        if it.kind == 'map' and it.m.has.sort().domain() == self.key_s:
            map_wf_at(E, st, it.m, self.wkey(self.p1, self.i1))

    def overrides(self, E):
        d = {}

        def empty(E, st, c):
            m = target(E, st, c.args[0])[1]
            if m.has.sort().domain() == self.key_s:
                map_wf_at(E, st, m, self.wkey(self.p1, self.i1))
            return TABLE['HashSet::is_empty'](E, st, c)
        d['HashSet::is_empty'] = d['BTreeSet::is_empty'] = empty

        def parse(E, st, c):
            # checked by its own contract (ParseFd)
            x = val(E, st, c.args[0])
            if E.decide(st, OK(x)):
                return Agg(c.dty, [NUM(x)], 0)
            et = c.dty.args[1]
            n = [v[0] for v in E.db.info(et).variants].index('BadFd')
            return Agg(c.dty, [Agg(et, [x], n)], 1)
        d['spec::parse_fd'] = parse

        def pre(E, st, c):
            m = target(E, st, c.args[0])[1]
            k = simp(E.pack(st, c.args[1], m.kty))
            p, i = st.ghost['cur_p'], st.ghost['cur_i']
            if k.sort() == self.key_s:
                self.key(st, k)
            elif k.sort() == I:
                q = self.key_s.constructor(0)(p, k)
                self.inst(st, (self.f0, k))
                self.at(st, p, z3.Select(st.ghost['own'], q))
            return k, z3.Select(m.has, k)

        def hook(name, ghost):
            def f(E, st, c):
                k, had = pre(E, st, c)
                r = TABLE[name](E, st, c)
                ghost(st, k, had)
                return r
            return f

        def inserted(st, k, had):
            g = st.ghost
            p, i = g['cur_p'], g['cur_i']
            if k.sort() == I:
                g['own'] = z3.If(had, g['own'], z3.Store(g['own'], self.key_s.constructor(0)(p, k), i))
            elif k.sort() == self.key_s:
                g['wp'] = z3.If(had, g['wp'], z3.Store(g['wp'], k, p))
                g['wi'] = z3.If(had, g['wi'], z3.Store(g['wi'], k, i))

        def removed(st, k, had):
            g = st.ghost
            if k.sort() == self.key_s:
                for n, v in (('rp', g['cur_p']), ('ri', g['cur_i']), ('taken', z3.BoolVal(True))):
                    g[n] = z3.If(had, z3.Store(g[n], k, v), g[n])
        for s in ('HashSet', 'BTreeSet', 'HashMap', 'BTreeMap'):
            for n, h in (('insert', inserted), ('remove', removed), ('contains', lambda *a: None), ('contains_key', lambda *a: None), ('get', lambda *a: None)):
                if f'{s}::{n}' in TABLE:
                    d[f'{s}::{n}'] = hook(f'{s}::{n}', h)
        return d

    # ---- what holds of the fds seen so far, for any process p1, fd i1, descriptor f0 and pipe k0
    def facts(self, seen, cur, sets, st):
        """seen(p, i): this fd has been looked at"""
        g = st.ghost
        p1, i1, k0 = self.p1, self.i1, self.k0
        out = {}
        there1 = z3.And(self.there(p1, i1), seen(p1, i1))
        out['names'] = z3.Implies(there1, OK(self.name(p1, i1)))
        out['own'] = z3.Implies(there1, z3.Select(g['own'], self.wkey(p1, i1)) == i1)
        out['from names'] = z3.Implies(z3.And(there1, self.is_(p1, i1, 'PipeRead')), OK(self.from_(p1, i1)[1]))
        for n, m in sets.items():
            if m.has.sort().domain() == I and cur is not None:
                out[f'set {n}'] = z3.Implies(z3.And(there1, p1 == cur), z3.Select(m.has, self.num(cur, i1)))
                o = z3.Select(g['own'], self.key_s.constructor(0)(cur, self.f0))
                out[f'set of {n}'] = z3.Implies(z3.Select(m.has, self.f0), z3.And(self.there(cur, o), seen(cur, o), self.num(cur, o) == self.f0))
            if m.has.sort().domain() == self.key_s:
                has = lambda k, m=m: z3.Select(m.has, k)
                out[f'written {n}'] = z3.Implies(z3.And(there1, self.is_(p1, i1, 'PipeWrite')), z3.Or(has(self.wkey(p1, i1)), z3.Select(g['taken'], self.wkey(p1, i1))))
                # once all writers are in, they stay in until taken
                out[f'written all {n}'] = z3.Implies(z3.And(self.there(p1, i1), self.is_(p1, i1, 'PipeWrite')),
                                                     z3.Or(has(self.wkey(p1, i1)), z3.Select(g['taken'], self.wkey(p1, i1))))
                wp, wi = z3.Select(g['wp'], k0), z3.Select(g['wi'], k0)
                out[f'writer {n}'] = z3.Implies(has(k0), z3.And(self.is_write(wp, wi, k0), seen(wp, wi)))
                out[f'writer all {n}'] = z3.Implies(has(k0), self.is_write(wp, wi, k0))
                out[f'either {n}'] = z3.Not(z3.And(has(k0), z3.Select(g['taken'], k0)))
        out['read'] = z3.Implies(z3.And(there1, self.is_(p1, i1, 'PipeRead')), z3.And(z3.Select(g['taken'], self.rkey(p1, i1)),
                                 z3.Select(g['rp'], self.rkey(p1, i1)) == p1, z3.Select(g['ri'], self.rkey(p1, i1)) == i1))
        rp, ri = z3.Select(g['rp'], k0), z3.Select(g['ri'], k0)
        out['reader'] = z3.Implies(z3.Select(g['taken'], k0), z3.And(self.is_read(rp, ri, k0), seen(rp, ri)))
        wp, wi = z3.Select(g['wp'], k0), z3.Select(g['wi'], k0)
        out['paired'] = z3.Implies(z3.Select(g['taken'], k0), self.is_write(wp, wi, k0))
        return out

    def loop_inv(self, L):
        E = L.E
        out = {}
        pos = self.m.pos
        sets = L.values((MapV,))
        for ik in L.iters():
            it = L.iter_of(L.entry, ik)
            if getattr(it, 'kind', '') == 'map' and it.m.has.eq(self.m.has):
                cur = None

                def seen(st, p, i, ik=ik):
                    return z3.Select(pos, p) < L.get(st, ik)
            elif getattr(it, 'kind', '') == 'seq':
                cur = L.entry.ghost['cur_p']

                def seen(st, p, i, ik=ik, cur=cur):
                    return z3.Or(z3.Select(pos, p) < z3.Select(pos, cur), z3.And(p == cur, i < L.get(st, ik)))
            else:
                continue

            def fact(st, n, ik=ik, cur=cur, seen=seen):
                ms = {str(k[1]): L.get(st, k) for k in sets}
                return self.facts(lambda p, i: seen(st, p, i), cur, ms, st)[n]
            for n in self.facts(lambda p, i: seen(L.entry, p, i), cur, {str(k[1]): L.get(L.entry, k) for k in sets}, L.entry):
                out[f'fact {n} it{ik[1]}'] = lambda st, n=n, fact=fact: fact(st, n)
        return out

    def generalise(self, n):
        return n.startswith('fact ')

    def post(self, E, st, ret):
        _, _, vi, fs = variant(E, st, ret)
        p1, i1, p2, i2, k0, g = self.p1, self.i1, self.p2, self.i2, self.k0, st.ghost
        t1 = self.there(p1, i1)
        if vi == 0:
            self.covered['ok'] = True
            self.at(st, p2, i2)
            self.at(st, p1, i2)
            self.key(st, self.wkey(p1, i1))
            self.key(st, self.rkey(p1, i1))
            E.prove(st, z3.Implies(t1, OK(self.name(p1, i1))), 'accepted: every name is valid')
            E.prove(st, z3.Implies(z3.And(t1, self.there(p1, i2), i1 != i2), self.num(p1, i1) != self.num(p1, i2)), 'accepted: no process names an fd twice')
            E.prove(st, z3.Implies(z3.And(t1, self.is_(p1, i1, 'PipeRead')), OK(self.from_(p1, i1)[1])), 'accepted: every reader names a valid fd')
            r = self.rkey(p1, i1)
            E.prove(st, z3.Implies(z3.And(t1, self.is_(p1, i1, 'PipeRead')), self.is_write(z3.Select(g['wp'], r), z3.Select(g['wi'], r), r)),
                    'accepted: every reader has a writer')
            E.prove(st, z3.Implies(z3.And(t1, self.there(p2, i2), self.is_(p1, i1, 'PipeRead'), self.is_(p2, i2, 'PipeRead'), r == self.rkey(p2, i2)),
                                   z3.And(p1 == p2, i1 == i2)), 'accepted: no writer has two readers')
            w = self.wkey(p1, i1)
            E.prove(st, z3.Implies(z3.And(t1, self.is_(p1, i1, 'PipeWrite')), self.is_read(z3.Select(g['rp'], w), z3.Select(g['ri'], w), w)),
                    'accepted: every writer has a reader')
            return
        kind, f = case(E, st, fs[0])
        self.covered[kind] = True
        f = list(f.values())
        cp, ci = g['cur_p'], g['cur_i']
        here = self.there(cp, ci)
        if kind == 'BadFd':
            x = val(E, st, f[0])
            named = z3.And(here, z3.Or(self.name(cp, ci) == x, z3.And(self.is_(cp, ci, 'PipeRead'), self.from_(cp, ci)[1] == x)))
            E.prove(st, named, 'bad fd: a name of the specs')
            E.prove(st, z3.Not(OK(x)), 'bad fd: is not valid')
        elif kind == 'DuplicateFd':
            x = val(E, st, f[0])
            E.prove(st, z3.And(here, self.name(cp, ci) == x), 'duplicate fd: a name of the specs')
            o = z3.Select(g['own'], self.key_s.constructor(0)(cp, NUM(x)))
            E.prove(st, z3.And(self.there(cp, o), o != ci, self.num(cp, o) == NUM(x)), 'duplicate fd: named twice by one process')
        elif kind == 'UnmatchedReadFd':
            a, b = val(E, st, f[0]), val(E, st, f[1])
            E.prove(st, z3.And(here, self.is_(cp, ci, 'PipeRead'), self.from_(cp, ci)[0] == a, self.from_(cp, ci)[1] == b), 'unmatched reader: a pipe of the specs')
            k = self.rkey(cp, ci)
            self.key(st, k)
            rp, ri = z3.Select(g['rp'], k), z3.Select(g['ri'], k)
            E.prove(st, z3.Implies(self.is_write(p1, i1, k), z3.And(self.is_read(rp, ri, k), z3.Or(rp != cp, ri != ci))),
                    'unmatched reader: no writer, or another reader has it')
        elif kind == 'UnmatchedWriteFd':
            a, b = val(E, st, f[0]), val(E, st, f[1])
            k = g['cur_k']
            self.key(st, k)
            wp, wi = z3.Select(g['wp'], k), z3.Select(g['wi'], k)
            E.prove(st, z3.And(self.is_write(wp, wi, k), wp == a, b == show(E, st, self.num(wp, wi))), 'unmatched writer: a pipe of the specs')
            E.prove(st, z3.Not(self.is_read(p1, i1, k)), 'unmatched writer: nobody reads it')
        else:
            E.prove(st, z3.BoolVal(False), f'no {kind} error')


CONTRACTS = [Validate]
