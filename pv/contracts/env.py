"""Environment construction: environ::build."""
from ..contract import *
from ..std import *

SECRETS = ['PROCSTAR_AGENT_CERT', 'PROCSTAR_AGENT_KEY', 'PROCSTAR_AGENT_TOKEN']


class EnvBuild(Contract):
    pid = 'env'
    target = 'environ::build'
    clauses = {
        'value': 'for every name x: x is in the result iff (explicit value) or (not explicitly removed, not an agent secret, '
                 'inherited by the rule, and present in the start environment); the value is the explicit or the last inherited one',
    }
    covers = ('none', 'all', 'vars', 'explicit')

    def setup(self, E, st, f):
        self.kv = Ty('tuple', '', [STRING, STRING])
        n, arr = z3.Int('n_start'), z3.Const('start_env', z3.ArraySort(I, E.sort(self.kv)))
        st.assume(n >= 0)
        vec = VecV(self.kv, n=n, arr=arr)
        self.arr = arr
        s = E.sort(self.kv)
        self.key = lambda i: s.accessor(0, 0)(z3.Select(arr, i))
        self.value = lambda i: s.accessor(0, 1)(z3.Select(arr, i))
        self.x = z3.String('x')
        self.probes = [self.x]
        self.SH = z3.Function('SH', I, B)
        self.SV = z3.Function('SV', I, S)
        st.assume(z3.Not(self.SH(0)))
        self.n = n
        # the start environment holds each name once or more: the last one counts
        ety = f.locals[f.args[1]].args[0]
        spec = E.fresh(st, ety, 'spec')
        self.spec = spec
        ssort = E.sort(ety)
        info = E.db.info(ety)
        names = [nm for nm, _ in info.fields]
        acc = {nm: ssort.accessor(0, i)(spec.term) for i, nm in enumerate(names)}
        ity = dict(info.fields)['inherit']
        self.isort, self.iinfo = E.sort(ity), E.db.info(ity)
        self.inherit = acc['inherit']
        vty = dict(info.fields)['vars']
        self.vars = E._unmap(st, acc['vars'], vty.args[0], vty.args[1])
        self.osort = E.sort(vty.args[1])
        map_wf_at(E, st, self.vars, self.x)
        vi = {v[0]: i for i, v in enumerate(self.iinfo.variants)}
        self.vi = vi
        lst = E._unvec(st, self.isort.accessor(vi['Vars'], 0)(self.inherit), STRING)
        self.in_list = contains_term(E, st, lst, self.x)
        return [seq_iter(vec), E.ref_to(st, spec, ety)]

    def on_item(self, E, st, it, i):
        # definition of the prefix functions at this index
        if it.kind != 'seq' or it.vec.arr is None or not it.vec.arr.eq(self.arr):
            return
        k = self.key(i)
        st.assume(self.SH(i + 1) == z3.Or(k == self.x, self.SH(i)))
        st.assume(self.SV(i + 1) == z3.If(k == self.x, self.value(i), self.SV(i)))

    def is_(self, v):
        return self.isort.recognizer(self.vi[v])(self.inherit)

    def post(self, E, st, ret):
        x = self.x
        x_has = z3.Select(self.vars.has, x)
        opt = z3.Select(self.vars.val, x)
        expl = z3.And(x_has, self.osort.recognizer(1)(opt))
        secret = z3.Or([x == z3.StringVal(s) for s in SECRETS])
        inh = z3.And(z3.Not(x_has), z3.Not(secret), self.SH(self.n),
                     z3.Or(self.is_('All'), z3.And(self.is_('Vars'), self.in_list)))
        has = z3.Select(ret.has, x)
        v = z3.Select(ret.val, x)
        E.prove(st, has == z3.Or(expl, inh), 'name-present-iff', self.clauses['value'])
        E.prove(st, z3.Implies(expl, v == self.osort.accessor(1, 0)(opt)), 'explicit-value')
        E.prove(st, z3.Implies(inh, v == self.SV(self.n)), 'inherited-value')
        for nm, c in (('none', self.is_('None')), ('all', z3.And(self.is_('All'), inh)), ('vars', z3.And(self.is_('Vars'), inh)), ('explicit', expl)):
            if not self.covered[nm] and E.feasible(st, z3.And(c, has) if nm != 'none' else c):
                self.covered[nm] = True

    def loop_inv(self, L):
        out = {}
        E, x = L.E, self.x
        maps = L.values(MapV, lambda v: v.kty.name == 'String' and str(v.vty) == 'String')
        for mk in maps:
            e = L.get(L.entry, mk)
            h0, v0 = z3.Select(e.has, x), z3.Select(e.val, x)
            for ik in L.iters():
                idx = lambda st, ik=ik: L.get(st, ik)
                H = lambda st, mk=mk: z3.Select(L.get(st, mk).has, x)
                V = lambda st, mk=mk: z3.Select(L.get(st, mk).val, x)
                n = f'env{mk[1]}{ik[1]}'
                SH, SV = self.SH, self.SV
                out[n + ' inherited'] = lambda st, H=H, idx=idx: H(st) == SH(idx(st))
                out[n + ' inherited-filtered'] = lambda st, H=H, idx=idx: H(st) == z3.And(SH(idx(st)), self.in_list)
                out[n + ' inherited-by-rule'] = lambda st, H=H, idx=idx: H(st) == z3.And(
                    SH(idx(st)), z3.Or(self.is_('All'), z3.And(self.is_('Vars'), self.in_list)))
                out[n + ' inherited-value'] = lambda st, H=H, V=V, idx=idx: z3.Implies(H(st), V(st) == SV(idx(st)))
                done = lambda st, idx=idx: z3.And(z3.Select(self.vars.has, x), z3.Select(self.vars.pos, x) < idx(st))
                opt = z3.Select(self.vars.val, x)
                out[n + ' vars'] = lambda st, H=H, done=done, h0=h0: H(st) == z3.If(done(st), self.osort.recognizer(1)(opt), h0)
                out[n + ' vars-value'] = lambda st, H=H, V=V, done=done, v0=v0: z3.Implies(
                    H(st), V(st) == z3.If(done(st), self.osort.accessor(1, 0)(opt), v0))
        return out


CONTRACTS = [EnvBuild]
