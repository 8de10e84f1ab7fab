"""Signal names and numbers, and sending signals."""
from ..contract import *
from ..std import *
from .names import parse_ok

SIGNALS = dict(SIGHUP=1, SIGINT=2, SIGQUIT=3, SIGILL=4, SIGTRAP=5, SIGABRT=6, SIGBUS=7, SIGFPE=8, SIGKILL=9, SIGUSR1=10, SIGSEGV=11, SIGUSR2=12,
               SIGPIPE=13, SIGALRM=14, SIGTERM=15, SIGCHLD=17, SIGCONT=18, SIGSTOP=19, SIGTSTP=20, SIGTTIN=21, SIGTTOU=22, SIGURG=23, SIGXCPU=24,
               SIGXFSZ=25, SIGVTALRM=26, SIGPROF=27, SIGWINCH=28, SIGIO=29, SIGPWR=30, SIGSYS=31)


class ParseSignum(Contract):
    """parse_signum: every standard signal name is its Linux number, a decimal number is itself, anything else is refused"""
    target = 'sig::parse_signum'
    covers = ('name', 'number', 'none')
    assumes = ['i32::from_str accepts exactly optionally signed decimal numbers in range']

    def setup(self, E, st, f):
        self.s = z3.String('name')
        return [E.ref_to(st, self.s, STRING)]

    def post(self, E, st, ret):
        _, _, vi, fs = variant(E, st, ret)
        known = z3.Or([self.s == z3.StringVal(n) for n in SIGNALS])
        other = z3.Or([self.s == z3.StringVal(n) for n in ('SIGSTKFLT', 'SIGPOLL', 'SIGIOT', 'SIGCLD')])
        good, v = parse_ok(self.s)
        if vi == 1:
            for n, k in SIGNALS.items():
                E.prove(st, z3.Implies(self.s == z3.StringVal(n), fs[0] == k), f'{n} is {k}')
            E.prove(st, z3.Or(known, other, z3.And(good, fs[0] == v)), 'only a standard name or a number is accepted, a number as itself')
            if E.feasible(st, known):
                self.covered['name'] = True
            if E.feasible(st, z3.Not(known)):
                self.covered['number'] = True
        else:
            self.covered['none'] = True
            E.prove(st, z3.Not(z3.Or(known, good)), 'no standard name and no number is refused')


class GetAbbrev(Contract):
    """get_abbrev: every standard signal number gives its name, and a number that is no standard signal none"""
    target = 'sig::get_abbrev'
    covers = ('name', 'none')

    def setup(self, E, st, f):
        self.n = z3.Int('signum')
        st.assume(E.in_range(self.n, 'i32'))
        self.probes = [z3.StringVal(x) for x in SIGNALS]
        return [self.n]

    def post(self, E, st, ret):
        _, _, vi, fs = variant(E, st, ret)
        std = z3.Or([self.n == k for k in SIGNALS.values()])
        if vi == 1:
            self.covered['name'] = True
            s = val(E, st, fs[0])
            for x, k in SIGNALS.items():
                E.prove(st, z3.Implies(self.n == k, s == z3.StringVal(x)), f'{k} is {x}')
            E.prove(st, z3.Or(std, self.n == 16), 'only standard signals have names')
        else:
            self.covered['none'] = True
            E.prove(st, z3.Not(std), 'every standard signal has its name')


CONTRACTS = [ParseSignum, GetAbbrev]
