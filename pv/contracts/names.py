"""File descriptor names and open modes."""
from ..contract import *
from ..std import *

NAMES = {'stdin': 0, 'stdout': 1, 'stderr': 2}


def parse_ok(s):
    return z3.Function('parse_ok_i32', S, B)(s), z3.Function('parse_i32', S, I)(s)


class ParseFd(Contract):
    """parse_fd: stdin, stdout, stderr are 0, 1, 2; any other name must be a decimal number and means it; else the error names it"""
    target = 'spec::parse_fd'
    covers = ('std', 'number', 'bad')
    assumes = ['i32::from_str accepts exactly optionally signed decimal numbers in range']

    def setup(self, E, st, f):
        self.s = z3.String('name')
        return [E.ref_to(st, self.s, STRING)]

    def post(self, E, st, ret):
        _, _, vi, fs = variant(E, st, ret)
        std = z3.Or([self.s == z3.StringVal(n) for n in NAMES])
        good, v = parse_ok(self.s)
        E.prove(st, z3.BoolVal(vi == 0) == z3.Or(std, good), 'accepted exactly if a known name or a number')
        if vi == 0:
            for n, k in NAMES.items():
                E.prove(st, z3.Implies(self.s == z3.StringVal(n), fs[0] == k), f'{n} is {k}')
            E.prove(st, z3.Implies(z3.Not(std), fs[0] == v), 'a number means itself')
            if E.feasible(st, std):
                self.covered['std'] = True
            if E.feasible(st, z3.Not(std)):
                self.covered['number'] = True
        else:
            self.covered['bad'] = True
            _, _, evi, efs = variant(E, st, fs[0])
            info = E.db.info(fs[0].ty)
            E.prove(st, z3.BoolVal(info.variants[evi][0] == 'BadFd'), 'the error is a bad fd')
            if info.variants[evi][0] == 'BadFd':
                E.prove(st, val(E, st, efs[0]) == self.s, 'the error names the fd')


class NameRoundTrip(Contract):
    """parse_fd(get_fd_name(n)) = n for every descriptor, and the three standard ones have their names"""
    target = 'fd::get_fd_name'
    covers = ('std', 'number')

    def setup(self, E, st, f):
        self.n = z3.Int('fd')
        st.assume(z3.And(self.n >= 0, self.n <= INTS['i32'][1]))
        return [self.n]

    def execute(self, E, st, f, args):
        out = []
        for s, name in super().execute(E, st, f, args):
            for nm, k in NAMES.items():
                E.prove(s, z3.Implies(self.n == k, val(E, s, name) == z3.StringVal(nm)), f'{k} is {nm}')
            g = E.load('spec::parse_fd')
            if g is None:
                raise LostAnchor('spec::parse_fd')
            out += E.run(g, [E.ref_to(s, val(E, s, name), STRING)], s)
        return out

    def post(self, E, st, ret):
        _, _, vi, fs = variant(E, st, ret)
        E.prove(st, z3.BoolVal(vi == 0), 'the name of a descriptor is a valid name')
        if vi == 0:
            E.prove(st, fs[0] == self.n, 'parsing the name of a descriptor gives it back')
            for k, c in (('std', self.n <= 2), ('number', self.n > 2)):
                if E.feasible(st, c):
                    self.covered[k] = True


RD, WR, RW, CREAT, EXCL, TRUNC, APPEND = 0, 1, 2, 0o100, 0o200, 0o1000, 0o2000
WRITE = WR | CREAT | TRUNC
# what the spec documents, in the kernel's terms (fcntl.h on Linux)
MODES = {'Read': RD, 'Write': WRITE, 'Create': WR | CREAT | EXCL, 'Replace': WR | TRUNC, 'CreateAppend': WR | CREAT | APPEND,
         'Append': WR | APPEND, 'ReadWrite': RW | CREAT | TRUNC}


def oflags(E, flags, fd):
    """documented open(2) flags of an OpenFlag term"""
    t = Ty('adt', 'spec::OpenFlag')
    s, info = E.sort(t), E.db.info(t)
    r = z3.If(fd == 0, RD, z3.If(z3.Or(fd == 1, fd == 2), WRITE, RW | CREAT | TRUNC))
    for i, v in enumerate(info.variants):
        if v[0] in MODES:
            r = z3.If(s.recognizer(i)(flags), z3.IntVal(MODES[v[0]]), r)
    return r


class OpenMode(Contract):
    """get_oflags: the documented access and creation flags of each mode, and of the default mode for each descriptor"""
    target = 'fd::get_oflags'
    covers = tuple(MODES) + ('Default',)

    def setup(self, E, st, f):
        t = f.locals[f.args[0]].args[0]
        self.t = t
        self.v = E.fresh(st, t, 'flags')
        self.fd = z3.Int('fd')
        st.assume(E.in_range(self.fd, 'i32'))
        return [E.ref_to(st, self.v, t), self.fd]

    def post(self, E, st, ret):
        info = E.db.info(self.t)
        for i, v in enumerate(info.variants):
            if E.feasible(st, E.sort(self.t).recognizer(i)(self.v.term)):
                E.prove(st, z3.Implies(E.sort(self.t).recognizer(i)(self.v.term), ret == oflags(E, self.v.term, self.fd)), f'{v[0]}: flags')
                self.covered[v[0]] = True


CONTRACTS = [ParseFd, NameRoundTrip, OpenMode]
