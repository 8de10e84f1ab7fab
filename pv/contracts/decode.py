"""The meaning of specs and requests: what the decoders of the agent's types make of the entries serde hands them.
The decoders are generated by serde's derive from the attributes in the source; what is verified is the code it generated."""
import glob
import os
import re
import z3
from .. import mir
from ..contract import *
from ..contract import Contract, LostAnchor, case, fields, eqv
from ..engine import *
from ..std import variant, val, simp, unit
from ..typedb import AdtInfo
from ..tys import parse_ty

OPT = 'the value of each entry is decoded by the decoder of its own type, as under its own contract or as serde documents for the types of the standard library'
ARM = 'the visitor serde generates within the arm of a variant is the one of that variant (the compiler does not print which)'
KEYS = 'the formats give names of fields and variants as strings (as JSON and rmp_serde::to_vec_named do)'
T, F = z3.BoolVal(True), z3.BoolVal(False)
STR = parse_ty('String')


def found(E, what, ok):
    """the generated functions of that name whose text satisfies ok(head, text)"""
    out = []
    for d in E.mirdirs:
        for p in sorted(glob.glob(os.path.join(glob.escape(d), f'*-{what}.*.before.mir'))):
            t = open(p, encoding='utf-8').read()
            if ok(t.split('\n', 3)[2], t):
                out.append((p, t))
    return out


def field_type(t):
    """the generated type of the names of fields or variants, as printed in the text"""
    m = re.search(r"TaggedContentVisitor::<'_, (.*)>::new\(const", t) or re.search(r'::(?:next_key|variant)::<(.*)>\(move _\d+\) -> ', t) or re.search(r'\) -> std::result::Result<(.*::__Field), __E> \{', t)
    if not m:
        raise LostAnchor('the type of the field names')
    return m.group(1)


class Decoder(Contract):
    """common to the visitors of structs and enums: their names of fields or variants"""
    assumes = [OPT, KEYS]
    budget = 120
    NAMES = ()
    TYPE = None
    REFUSES = True     # unknown names

    def visitor_file(self, p):
        raise NotImplementedError

    def parse(self, E, p, t):
        n = 'pv_field'
        t = t.replace(field_type(t), n)
        # (the visitors within visit_enum are named by a path the type parser does not need to know)
        t = re.sub(r"<[\w:]+::_::<impl [^\n]*?>::deserialize::__Visitor<'de> as [\w:]+<'de>>::visit_enum::(__Visitor|FIELDS)(?:::)?(?:<'_>)?", lambda m: 'pv' + m.group(1), t)
        f = mir.parse_text(t, os.path.basename(p))
        E._cfg(f)
        return f

    def names_of(self, E, p):
        q = self.visitor_file(p)
        if not os.path.exists(q):
            raise LostAnchor('names of the fields')
        t = open(q, encoding='utf-8').read()
        ks = sorted({int(x) for x in re.findall(r'::__field(\d+);', t)})
        if ks != list(range(len(ks))):
            raise LostAnchor('names of the fields')
        vs = [f'__field{k}' for k in ks] + (['__ignore'] if '::__ignore;' in t else [])
        a = AdtInfo('pv_field', 'enum', [])
        a.variants = [(v, i, []) for i, v in enumerate(vs)]
        E.db.adts['pv_field'] = a
        E._sorts.pop('pv_field', None) if hasattr(E, '_sorts') else None
        self.n = len(vs)
        self.ignore = '__ignore' in vs
        self.fty = parse_ty('pv_field')
        return self.parse(E, q, t)

    def numbers(self, E, st):
        """what each documented name is taken for; any other name must be refused"""
        self.number = {}
        for n in self.NAMES:
            s = st.copy()
            outs = E.run(self.vis, [PyV('visitor'), E.ref_to(s, z3.StringVal(n), STR)], s)
            if len(outs) != 1:
                raise Unsupported('a name that is taken for more than one field')
            s2, r = outs[0]
            _, _, vi, fs = variant(E, s2, r)
            E.prove(s2, z3.BoolVal(vi == 0), f'{n} is known')
            if vi == 0:
                self.number[n] = variant(E, s2, fs[0])[2]
        E.prove(st, z3.BoolVal(len(set(self.number.values())) == len(self.number)), 'no two names mean the same')
        s = st.copy()
        x = z3.FreshConst(z3.StringSort(), 'name')
        for n in self.NAMES:
            s.assume(x != z3.StringVal(n))
        for s2, r in E.run(self.vis, [PyV('visitor'), E.ref_to(s, x, STR)], s):
            _, _, vi, fs = variant(E, s2, r)
            if self.REFUSES:
                E.prove(s2, z3.BoolVal(vi == 1), 'any other name is refused')
            else:
                E.prove(s2, z3.BoolVal(vi == 0 and self.ignore and variant(E, s2, fs[0])[2] == self.n - 1), 'any other name is ignored')
        self.name = {k: n for n, k in self.number.items()}

    def execute(self, E, st, f, args):
        self.numbers(E, st)
        return E.run(f, args, st)

    def error(self, E, st, c):
        return PyV('decode_error')

    def unknown(self):
        return {'Error::unknown_field': self.error, 'Error::unknown_variant': self.error}

    def outcome(self, E, st, c, good):
        """good: [(state, value)]; and the decoder may fail"""
        s = st.copy()
        s.ghost['failed'] = T
        return [(s, Agg(c.dty, [PyV('decode_error')], 1))] + [(x, Agg(c.dty, [v], 0)) for x, v in good]


class Decodes(Decoder):
    """each field is that of the entry of its name, unchanged; a field without entry has its documented default or is an error, and so are a repeated and an unknown name; the error of an entry is passed on"""
    VARIANT = None
    FIELDS = ()        # (name, type, default or None if required)

    def visitor_file(self, p):
        d, b = os.path.split(p)
        m = re.match(r'(.*\{impl#)(\d+)(\}-)visit_map(\..*)$', b)
        return os.path.join(d, f'{m.group(1)}{int(m.group(2)) - 2}{m.group(3)}visit_str{m.group(4)}')

    def find(self, E):
        v = f'= {self.TYPE}::{self.VARIANT}' if self.VARIANT else f'= {self.TYPE}'
        c = found(E, 'visit_map', lambda h, t: f') -> std::result::Result<{self.TYPE}, <__A as' in h and (v + ' {' in t or v + ';' in t))
        if len(c) != 1:
            raise LostAnchor(f'decoder of {self.TYPE}')
        self.NAMES = [x[0] for x in self.FIELDS]
        self.types = {n: parse_ty(t) for n, t, _ in self.FIELDS}
        self.vis = self.names_of(E, c[0][0])
        return self.parse(E, *c[0])

    def setup(self, E, st, f):
        g = st.ghost
        g.update(failed=F, dup=F, missing=F, cur=z3.IntVal(-1))
        for n in self.NAMES:
            g['have ' + n] = F
            g['val ' + n] = z3.FreshConst(E.sort(self.types[n]), 'none')
        return [PyV('visitor'), PyV('entries')]

    def overrides(self, E):
        def next_key(E, st, c):
            good = []
            s = st.copy()
            s.ghost['cur'] = z3.IntVal(-1)
            oty = c.dty.args[0]
            good.append((s, Agg(oty, [], 0)))
            for k in range(self.n):
                s = st.copy()
                s.ghost['cur'] = z3.IntVal(k)
                good.append((s, Agg(oty, [Agg(self.fty, [], k)], 1)))
            return self.outcome(E, st, c, good)

        def next_value(E, st, c):
            k = as_int(st.ghost['cur'])
            if k is None:
                raise Unsupported('a value of no known entry')
            E.prove(st, z3.BoolVal(k >= 0), 'a value is asked for after its name')
            n = self.name.get(k)
            s = st.copy()
            s.ghost['cur'] = z3.IntVal(-1)
            if n is None:
                return self.outcome(E, st, c, [(s, PyV('ignored'))])
            ty = c.dty.args[0]
            if ty != self.types[n]:
                raise Unsupported(f'{n} of type {ty}')
            E.prove(st, z3.Not(st.ghost['have ' + n]), f'a second {n} is refused')
            v = E.fresh(s, ty, n)
            s.ghost['have ' + n] = T
            s.ghost['val ' + n] = E.pack(s, v, ty)
            return self.outcome(E, st, c, [(s, v)])

        def duplicate(E, st, c):
            n = self.name.get(as_int(st.ghost['cur']))
            E.prove(st, st.ghost['have ' + n] if n else F, 'is refused as repeated only if it is')
            st.ghost['dup'] = T
            return PyV('decode_error')

        def missing(E, st, c):
            n = val(E, st, c.args[0])
            n = simp(n)
            n = n.as_string() if z3.is_string_value(n) else None
            if n not in self.NAMES:
                raise Unsupported('a field of unknown name is missing')
            E.prove(st, z3.Not(st.ghost['have ' + n]), f'{n} is missing only if it is')
            ty = c.dty.args[0]
            if ty.kind == 'adt' and ty.name == 'Option':
                return Agg(c.dty, [Agg(ty, [], 0)], 0)
            st.ghost['missing'] = T
            return Agg(c.dty, [PyV('decode_error')], 1)
        return {**self.unknown(), 'MapAccess::next_key': next_key, 'MapAccess::next_value': next_value, 'Error::duplicate_field': duplicate, 'de::missing_field': missing}

    def loop_inv(self, L):
        E = L.E
        out = {}
        for k in L.values((Sym, Agg)):
            ty = getattr(L.get(L.entry, k), 'ty', None)
            if ty is None or ty.name != 'Option':
                continue
            for n in self.NAMES:
                if ty.args[0] != self.types[n]:
                    continue

                def is_(st, k=k, n=n, ty=ty):
                    v = E.pack(st, L.get(st, k), ty)
                    s = v.sort()
                    ci = next(i for i in range(s.num_constructors()) if s.constructor(i).arity() == 1)
                    some, none = s.constructor(ci), s.constructor(1 - ci)
                    return v == z3.If(st.ghost['have ' + n], some(st.ghost['val ' + n]), none())
                out[f'{n} {k}'] = is_
        for x in ('failed', 'dup', 'missing'):
            out['not ' + x] = lambda st, x=x: z3.Not(st.ghost[x])
        return out

    def post(self, E, st, ret):
        g = st.ghost
        _, _, vi, fs = variant(E, st, ret)
        bad = z3.Or(g['failed'], g['dup'], g['missing'])
        if vi == 1:
            E.prove(st, bad, 'is refused only for a reason')
            self.covered['refused'] = True
            return
        self.covered['decoded'] = True
        E.prove(st, z3.Not(bad), 'every reason to refuse is heeded')
        v = val(E, st, fs[0])
        ty = parse_ty(self.TYPE)
        if self.VARIANT:
            _, a, k, vs = variant(E, st, v)
            vr = E.db.info(ty).variants[k]
            E.prove(st, z3.BoolVal(vr[0] == self.VARIANT), f'is {self.VARIANT}')
            names = [n for n, _ in vr[2]]
        else:
            a = v if isinstance(v, Agg) else E.explode(st, v)
            vs = a.fields
            names = [n for n, _ in E.db.info(ty).fields]
        for n in names:
            if n not in self.NAMES:
                raise Unsupported(f'field {n}, whose form the contract does not know')
        for n, t, d in self.FIELDS:
            if n not in names:
                raise Unsupported(f'no field {n}')
            x = vs[names.index(n)]
            px = E.pack(st, x, self.types[n])
            E.prove(st, z3.Implies(g['have ' + n], px == g['val ' + n]), f'{n} is the value of the entry {n}')
            if d is None:
                E.prove(st, g['have ' + n], f'{n} is required')
            else:
                s = st.copy()
                s.assume(z3.Not(g['have ' + n]))
                if E.feasible(s):
                    E.prove(s, d(E, s, x), f'{n} has its documented default')


class DecodesEnum(Decoder):
    """each documented name, and no other, makes its own variant; the error of the decoder is passed on"""
    VARIANTS = ()      # (name in the source, encoded name, whether it has fields)
    assumes = [OPT, KEYS, ARM]

    def visitor_file(self, p):
        d, b = os.path.split(p)
        m = re.match(r'(.*\{impl#)(\d+)(\}-)visit_enum(\..*)$', b)
        return os.path.join(d, f'{m.group(1)}{int(m.group(2)) - 2}{m.group(3)}visit_str{m.group(4)}')

    def find(self, E):
        c = found(E, 'visit_enum', lambda h, t: f') -> std::result::Result<{self.TYPE}, <__A as' in h)
        if len(c) != 1:
            raise LostAnchor(f'decoder of {self.TYPE}')
        self.NAMES = [x[1] for x in self.VARIANTS]
        self.vis = self.names_of(E, c[0][0])
        self.ty = parse_ty(self.TYPE)
        return self.parse(E, *c[0])

    def setup(self, E, st, f):
        st.ghost.update(failed=F, how=None, cur=None, inner=None)
        return [PyV('visitor'), PyV('data')]

    def overrides(self, E):
        def which(E, st, c):
            E.prove(st, z3.BoolVal(st.ghost['cur'] is None), 'the variant is asked for once')
            good = []
            tty = c.dty.args[0]
            for k in range(self.n):
                s = st.copy()
                s.ghost['cur'] = k
                good.append((s, Agg(tty, [Agg(self.fty, [], k), PyV('variant_data')])))
            return self.outcome(E, st, c, good)

        def unit_variant(E, st, c):
            s = st.copy()
            s.ghost['how'] = 'unit'
            return self.outcome(E, st, c, [(s, unit())])

        def struct_variant(E, st, c):
            s = st.copy()
            s.ghost['how'] = 'struct'
            n = self.name.get(st.ghost['cur'])
            vs = [v[0] for v in E.db.info(self.ty).variants]
            k = next((vs.index(v[0]) for v in self.VARIANTS if v[1] == n and v[0] in vs), None)
            if k is None:
                raise Unsupported('fields of an unknown variant')
            vr = E.db.info(self.ty).variants[k]
            v = Agg(self.ty, [E.fresh(s, t, m) for m, t in vr[2]], k)
            s.ghost['inner'] = v
            return self.outcome(E, st, c, [(s, v)])
        return {**self.unknown(), 'EnumAccess::variant': which, 'VariantAccess::unit_variant': unit_variant, 'VariantAccess::struct_variant': struct_variant}

    def post(self, E, st, ret):
        g = st.ghost
        _, _, vi, fs = variant(E, st, ret)
        if vi == 1:
            E.prove(st, g['failed'], 'is refused only for a reason')
            self.covered['refused'] = True
            return
        E.prove(st, z3.Not(g['failed']), 'every reason to refuse is heeded')
        n = self.name.get(g['cur'])
        v = next((x for x in self.VARIANTS if x[1] == n), None)
        if v is None:
            raise Unsupported('a variant of no documented name')
        _, a, k, vs = variant(E, st, val(E, st, fs[0]))
        E.prove(st, z3.BoolVal(E.db.info(self.ty).variants[k][0] == v[0]), f'{n} makes {v[0]}')
        E.prove(st, z3.BoolVal(g['how'] == ('struct' if v[2] else 'unit')), f'{n} is decoded with all its data')
        if v[2] and g['inner'] is not None:
            E.prove(st, eqv(E, st, a, g['inner']), f'{n} keeps its fields')
        self.covered[v[0]] = True


class DecodesTagged(Decoder):
    """the entry "type" of a message says what it is: each documented name, and no other, makes its own kind of message of the other entries; the error of the decoder is passed on"""
    VARIANTS = ()      # (name, whether it has fields)
    TAG = 'type'
    assumes = [OPT, KEYS, ARM]

    def visitor_file(self, p):
        d, b = os.path.split(p)
        m = re.match(r'(.*\{impl#0\}-deserialize)(\..*)$', b)
        return os.path.join(d, f'{m.group(1)}-{{impl#0}}-visit_str{m.group(2)}')

    def find(self, E):
        c = found(E, 'deserialize', lambda h, t: f') -> std::result::Result<{self.TYPE}, <__D as' in h)
        if len(c) != 1:
            raise LostAnchor(f'decoder of {self.TYPE}')
        self.NAMES = [x[0] for x in self.VARIANTS]
        self.vis = self.names_of(E, c[0][0])
        self.ty = parse_ty(self.TYPE)
        return self.parse(E, *c[0])

    def setup(self, E, st, f):
        st.ghost.update(failed=F, how=None, cur=None, inner=None)
        return [PyV('deserializer')]

    def overrides(self, E):
        def tagged(E, st, c):
            t = simp(val(E, st, c.args[0]))
            E.prove(st, t == z3.StringVal(self.TAG), 'the entry that tells the kind is "type"')
            return PyV('tag_visitor')

        def any_(E, st, c):
            d, v = c.args
            if d.kind == 'deserializer' and isinstance(v, PyV) and v.kind == 'tag_visitor':
                E.prove(st, z3.BoolVal(st.ghost['cur'] is None), 'the kind is asked for once')
                good = []
                for k in range(self.n):
                    s = st.copy()
                    s.ghost['cur'] = k
                    good.append((s, Agg(c.dty.args[0], [Agg(self.fty, [], k), PyV('content')])))
                return self.outcome(E, st, c, good)
            if d.kind != 'content_deserializer':
                raise Unsupported('decoding something else')
            E.prove(st, z3.BoolVal(st.ghost['how'] is None), 'the rest is decoded once')
            s = st.copy()
            if isinstance(v, PyV) and v.kind == 'unit_visitor':
                s.ghost['how'] = 'unit'
                return self.outcome(E, st, c, [(s, unit())])
            s.ghost['how'] = 'struct'
            n = self.name.get(st.ghost['cur'])
            vs = E.db.info(self.ty).variants
            k = next((i for i, x in enumerate(vs) if x[0] == n), None)
            if k is None:
                raise Unsupported('fields of an unknown kind')
            x = Agg(self.ty, [E.fresh(s, t, m) for m, t in vs[k][2]], k)
            s.ghost['inner'] = x
            return self.outcome(E, st, c, [(s, x)])
        return {**self.unknown(), 'TaggedContentVisitor::new': tagged, 'Deserializer::deserialize_any': any_,
                'ContentDeserializer::new': lambda E, st, c: PyV('content_deserializer'), 'InternallyTaggedUnitVisitor::new': lambda E, st, c: PyV('unit_visitor')}

    def post(self, E, st, ret):
        g = st.ghost
        _, _, vi, fs = variant(E, st, ret)
        if vi == 1:
            E.prove(st, g['failed'], 'is refused only for a reason')
            self.covered['refused'] = True
            return
        E.prove(st, z3.Not(g['failed']), 'every reason to refuse is heeded')
        n = self.name.get(g['cur'])
        v = next((x for x in self.VARIANTS if x[0] == n), None)
        if v is None:
            raise Unsupported('a kind of no documented name')
        _, a, k, vs = variant(E, st, val(E, st, fs[0]))
        E.prove(st, z3.BoolVal(E.db.info(self.ty).variants[k][0] == n), f'{n} makes {n}')
        E.prove(st, z3.BoolVal(g['how'] == ('struct' if v[1] else 'unit')), f'{n} is decoded with all its entries')
        if v[1] and g['inner'] is not None:
            E.prove(st, eqv(E, st, a, g['inner']), f'{n} keeps its entries')
        self.covered[n] = True


class InheritBool(Contract):
    """true means all variables of the agent's environment, false none"""
    target = 'spec::EnvInherit: visit_bool'
    title = 'a boolean for the inherited environment'
    covers = ('true', 'false')
    what = 'visit_bool'

    def find(self, E):
        c = found(E, self.what, lambda h, t: '-> std::result::Result<spec::EnvInherit, ' in h)
        if len(c) != 1:
            raise LostAnchor('decoder of spec::EnvInherit')
        f = mir.parse_text(c[0][1], os.path.basename(c[0][0]))
        E._cfg(f)
        return f

    def setup(self, E, st, f):
        self.b = z3.FreshConst(z3.BoolSort(), 'given')
        return [PyV('visitor'), self.b]

    def post(self, E, st, ret):
        _, _, vi, fs = variant(E, st, ret)
        E.prove(st, z3.BoolVal(vi == 0), 'is accepted')
        if vi:
            return
        for b, n in ((True, 'All'), (False, 'None')):
            s = st.copy()
            s.assume(self.b == z3.BoolVal(b))
            if E.feasible(s):
                _, a, k, _ = variant(E, s, fs[0])
                E.prove(s, z3.BoolVal(E.db.info(a.ty).variants[k][0] == n), f'{str(b).lower()} means {n}')
                self.covered[str(b).lower()] = True


class InheritSeq(InheritBool):
    """a list names exactly the variables to inherit, in order; the error of an element is passed on"""
    target = 'spec::EnvInherit: visit_seq'
    title = 'a list for the inherited environment'
    covers = ('list', 'refused')
    what = 'visit_seq'
    assumes = [OPT]

    def setup(self, E, st, f):
        self.at = z3.FreshConst(z3.IntSort(), 'probe_index')
        st.assume(self.at >= 0)
        st.ghost.update(n=z3.IntVal(0), at=z3.FreshConst(z3.StringSort(), 'none'), failed=F, over=F)
        return [PyV('visitor'), PyV('elements')]

    def overrides(self, E):
        def next_element(E, st, c):
            E.prove(st, z3.Not(z3.Or(st.ghost['over'], st.ghost['failed'])), 'no element is asked for after the last')
            oty = c.dty.args[0]
            a, b, d = st.copy(), st.copy(), st.copy()
            a.ghost['failed'] = T
            b.ghost['over'] = T
            v = E.fresh(d, STR, 'element')
            d.ghost['at'] = z3.If(d.ghost['n'] == self.at, v, d.ghost['at'])
            d.ghost['n'] = d.ghost['n'] + 1
            d.assume(d.ghost['n'] < (1 << 40))
            return [(a, Agg(c.dty, [PyV('decode_error')], 1)), (b, Agg(c.dty, [Agg(oty, [], 0)], 0)), (d, Agg(c.dty, [Agg(oty, [v], 1)], 0))]
        return {'SeqAccess::next_element': next_element}

    def is_(self, E, st, v):
        x = E.vec_arr(st, v)
        return z3.And(v.length() == st.ghost['n'], z3.Implies(self.at < st.ghost['n'], z3.Select(x, self.at) == st.ghost['at']))

    def loop_inv(self, L):
        out = {'more': lambda st: z3.Not(z3.Or(st.ghost['over'], st.ghost['failed'])), 'n': lambda st: st.ghost['n'] >= 0}
        for k in L.values(VecV):
            out[f'list {k}'] = lambda st, k=k: self.is_(L.E, st, L.get(st, k))
        return out

    def post(self, E, st, ret):
        _, _, vi, fs = variant(E, st, ret)
        if vi == 1:
            E.prove(st, st.ghost['failed'], 'is refused only for a reason')
            self.covered['refused'] = True
            return
        E.prove(st, z3.And(z3.Not(st.ghost['failed']), st.ghost['over']), 'every element is taken')
        _, a, k, vs = variant(E, st, fs[0])
        n = E.db.info(a.ty).variants[k][0]
        E.prove(st, z3.BoolVal(n == 'Vars'), 'a list means these variables')
        if n == 'Vars':
            E.prove(st, self.is_(E, st, val(E, st, vs[0])), 'these variables, in order')
        self.covered['list'] = True


def struct(ty, *fs, variant=None, refuses=True):
    n = 'Dec_' + ty.replace('::', '_') + ('_' + variant if variant else '')
    C = type(n, (Decodes,), {'TYPE': ty, 'title': f'{ty}{"::" + variant if variant else ""} is decoded as documented', 'target': f'{ty}{"::" + variant if variant else ""}: visit_map', 'FIELDS': fs, 'VARIANT': variant, 'REFUSES': refuses, 'covers': ('decoded', 'refused'), '__doc__': Decodes.__doc__, '__module__': __name__})
    globals()[n] = C
    return C


def enum(ty, *variants):
    n = 'Dec_' + ty.replace('::', '_')
    C = type(n, (DecodesEnum,), {'TYPE': ty, 'title': f'the variants of {ty} are decoded as documented', 'target': f'{ty}: visit_enum', 'VARIANTS': variants, 'covers': tuple(v[0] for v in variants) + ('refused',), '__doc__': DecodesEnum.__doc__, '__module__': __name__})
    globals()[n] = C
    return C


def tagged(ty, *variants):
    n = 'Dec_' + ty.replace('::', '_')
    C = type(n, (DecodesTagged,), {'TYPE': ty, 'title': f'the kinds of {ty} are decoded as documented', 'target': f'{ty}: deserialize', 'VARIANTS': variants, 'covers': tuple(v[0] for v in variants) + ('refused',), '__doc__': DecodesTagged.__doc__, '__module__': __name__})
    globals()[n] = C
    return C


# ---- defaults
def none(E, st, v):
    return z3.BoolVal(variant(E, st, v)[2] == 0)


def empty(E, st, v):
    v = val(E, st, v)
    if isinstance(v, VecV):
        return v.length() == 0
    if isinstance(v, MapV):
        return v.size == 0
    raise Unsupported('empty')


def is_variant(ty, name):
    def f(E, st, v):
        _, a, k, _ = variant(E, st, v)
        return z3.BoolVal(E.db.info(a.ty).variants[k][0] == name)
    return f


def is_num(n):
    return lambda E, st, v: val(E, st, v) == n


def is_true(E, st, v):
    return val(E, st, v)


def env(E, st, v):
    v = val(E, st, v)
    a = v if isinstance(v, Agg) else E.explode(st, v)
    names = [n for n, _ in E.db.info(a.ty).fields]
    return z3.And(is_variant('spec::EnvInherit', 'All')(E, st, a.fields[names.index('inherit')]), empty(E, st, a.fields[names.index('vars')]))


OS, S, FLAG = 'Option<String>', 'String', 'spec::OpenFlag'
CONTRACTS = [
    struct('spec::Proc', ('id', OS, none), ('exe', OS, none), ('argv', 'Vec<String>', empty), ('env', 'spec::Env', env), ('fds', 'Vec<(String, spec::Fd)>', empty)),
    struct('spec::Env', ('inherit', 'spec::EnvInherit', is_variant('spec::EnvInherit', 'All')), ('vars', 'BTreeMap<String, Option<String>>', empty)),
    struct('spec::Input', ('specs', 'BTreeMap<String, spec::Proc>', None)),
    struct('spec::Fd', ('flags', FLAG, is_variant(FLAG, 'Default')), variant='Null'),
    struct('spec::Fd', ('path', S, None), ('flags', FLAG, is_variant(FLAG, 'Default')), ('mode', 'i32', is_num(0o666)), variant='File'),
    struct('spec::Fd', ('fd', 'i32', None), variant='Dup'),
    struct('spec::Fd', ('mode', 'spec::CaptureMode', is_variant('spec::CaptureMode', 'TempFile')), ('encoding', 'Option<spec::CaptureEncoding>', none), ('attached', 'bool', is_true),
           variant='Capture'),
    struct('spec::Fd', ('proc_id', S, None), ('fd', S, None), variant='PipeRead'),
    enum('spec::Fd', ('Inherit', 'inherit', False), ('Close', 'close', False), ('Null', 'null', True), ('File', 'file', True), ('Dup', 'dup', True), ('Capture', 'capture', True),
         ('PipeWrite', 'pipe-write', False), ('PipeRead', 'pipe-read', True)),
    enum('spec::OpenFlag', *[(n, n, False) for n in ('Default', 'Read', 'Write', 'Create', 'Replace', 'CreateAppend', 'Append', 'ReadWrite')]),
    enum('spec::CaptureMode', ('TempFile', 'tempfile', False), ('Memory', 'memory', False)),
    enum('spec::CaptureEncoding', ('Utf8', 'utf-8', False)),
    InheritBool, InheritSeq,
    tagged('proto::IncomingMessage', ('Registered', False), *[(n, True) for n in ('ProcStartRequest', 'ProcidListRequest', 'ProcResultRequest', 'ProcSignalRequest', 'ProcFdDataRequest',
                                                                                 'ProcDeleteRequest')]),
    struct('proto::IncomingMessage', ('specs', 'BTreeMap<String, spec::Proc>', None), variant='ProcStartRequest', refuses=False),
    struct('proto::IncomingMessage', variant='ProcidListRequest', refuses=False),
    struct('proto::IncomingMessage', ('proc_id', S, None), variant='ProcResultRequest', refuses=False),
    struct('proto::IncomingMessage', ('proc_id', S, None), ('signum', 'i32', None), variant='ProcSignalRequest', refuses=False),
    struct('proto::IncomingMessage', ('proc_id', S, None), ('fd', S, None), ('start', 'i64', None), ('stop', 'Option<i64>', none), variant='ProcFdDataRequest', refuses=False),
    struct('proto::IncomingMessage', ('proc_id', S, None), variant='ProcDeleteRequest', refuses=False),
]
