"""The command: its options, the configuration they select, and how main runs it."""
from ..contract import *
from ..std import *
from .procs import *

ARGS = Ty('adt', 'argv::Args')
CONFIG = Ty('adt', 'agent::ConnectConfig')
STR = STRING
CLAP = 'Args::parse (generated by clap) gives the options of the command line under their names, and refuses values that their value parser refuses'
ENVIRON = 'std::env::var gives the value of the variable of exactly that name'


def environ(c, E, d):
    """the environment: per name, whether it is set (and UTF-8) and its value"""
    c.envset = z3.Function('env_set', STR_SORT(E), B)
    c.envval = z3.Function('env_val', STR_SORT(E), STR_SORT(E))

    def var(E, st, cc):
        n = E.pack(st, val(E, st, cc.args[0]), STR)
        if E.decide(st, c.envset(n)):
            return Agg(cc.dty, [E.unpack(st, c.envval(n), STR)], 0)
        return Agg(cc.dty, [E.fresh(st, cc.dty.args[1], 'varerr')], 1)
    for n in ('env::var', 'std::env::var'):
        d[n] = var


def STR_SORT(E):
    return E.sort(STR)


class Parse(Contract):
    """argv::parse: asking to print or to write results means running until no process is left; every other option is as given; a command line that selects no
    way to run, or both --exit and --wait, is refused"""
    target = 'argv::parse'
    bin = True
    covers = ('accepted', 'refused')
    assumes = [CLAP]

    def overrides(self, E):
        d = {}

        def parse(E, st, c):
            self.given = E.fresh(st, ARGS, 'args')
            self.g = E.pack(st, self.given, ARGS)
            return self.given
        d['Args::parse'] = d['argv::Args::parse'] = d['Parser::parse'] = parse

        def leave(E, st, c):
            code = val(E, st, c.args[0])
            E.prove(st, code != 0, 'a refusal is an error')
            E.prove(st, self.refuse(E, self.g), 'refused only if no way to run was selected, or both --exit and --wait')
            self.covered['refused'] = True
            return []
        d['process::exit'] = leave
        return d

    def opt(self, E, t, n):
        return field(E, ARGS, t, n)

    def exits(self, E, t):
        return z3.Or(self.opt(E, t, 'exit'), self.opt(E, t, 'print'), is_some(self.opt(E, t, 'output')))

    def refuse(self, E, t):
        x, w = self.exits(E, t), self.opt(E, t, 'wait')
        return z3.Or(z3.And(x, w), z3.Not(z3.Or(x, w, self.opt(E, t, 'serve'), self.opt(E, t, 'agent'))))

    def setup(self, E, st, f):
        return []

    def post(self, E, st, ret):
        t = E.pack(st, val(E, st, ret), ARGS)
        E.prove(st, z3.Not(self.refuse(E, self.g)), 'accepted only if exactly one way of ending, or a service, was selected')
        E.prove(st, self.opt(E, t, 'exit') == self.exits(E, self.g), 'printing or writing results implies running until no process is left, and nothing else does')
        for n, ty in E.db.info(ARGS).fields:
            if n != 'exit':
                E.prove(st, field(E, ARGS, t, n) == field(E, ARGS, self.g, n), f'--{n.replace("_", "-")} as given')
        self.covered['accepted'] = True



class DurationValue(Contract):
    """parse_duration_value: accepts exactly the numbers that are the seconds of a duration, and gives their value"""
    target = 'argv::parse_duration_value'
    bin = True
    covers = ('accepted', 'refused')
    assumes = ['<f64 as FromStr>::from_str parses the number written']

    def overrides(self, E):
        d = {}
        self.isnum, self.num = z3.Bool('is_number'), z3.Real('number')

        def parse(E, st, c):
            E.prove(st, E.pack(st, val(E, st, c.args[0]), STR) == self.arg, 'the text given is parsed')
            if E.decide(st, self.isnum):
                return Agg(c.dty, [self.num], 0)
            return Agg(c.dty, [E.fresh(st, c.dty.args[1], 'parse error')], 1)
        d['str::parse'] = d['core::str::parse'] = parse
        return d

    def setup(self, E, st, f):
        s = E.fresh(st, STR, 'arg')
        self.arg = E.pack(st, s, STR)
        return [E.ref_to(st, s, STR)]

    def post(self, E, st, ret):
        _, _, vi, (x, *_) = variant(E, st, ret)
        if vi == 0:
            E.prove(st, z3.And(self.isnum, val(E, st, x) == self.num), 'accepted: the value given')
            E.prove(st, z3.And(self.num >= 0, self.num < z3.RealVal(1 << 64)), 'accepted: a number of seconds')
        else:
            E.prove(st, z3.Not(z3.And(self.isnum, self.num >= 0, self.num < z3.RealVal(1 << 64))), 'refused only what is none')
        self.covered['accepted' if vi == 0 else 'refused'] = True


class ConnectConfig(Contract):
    """argv::get_connect_config: each reconnection setting as given, or else its documented default"""
    target = 'argv::get_connect_config'
    bin = True
    assumes = [CLAP, 'the seconds given are those of a duration, as parse_duration_value accepts; floating-point and durations are treated as real numbers']
    DEFAULTS = dict(interval_start=z3.RealVal(1), interval_mult=z3.RealVal(2), interval_max=z3.RealVal(60), count_max=z3.IntVal((1 << 64) - 1))

    def setup(self, E, st, f):
        a = E.fresh(st, ARGS, 'args')
        self.a = E.pack(st, a, ARGS)
        for n in ('interval_start', 'interval_max', 'interval_mult'):
            o = field(E, ARGS, self.a, 'connect_' + n)
            st.assume(z3.Implies(is_some(o), z3.And(some_of(o) >= 0, some_of(o) < z3.RealVal(1 << 64))))
        return [E.ref_to(st, a, ARGS)]

    def post(self, E, st, ret):
        t = E.pack(st, val(E, st, ret), CONFIG)
        fs = [n for n, _ in E.db.info(CONFIG).fields]
        if sorted(fs) != sorted(self.DEFAULTS):
            raise Unsupported('the fields of ConnectConfig')
        for n in fs:
            o = field(E, ARGS, self.a, 'connect_' + n)
            v = field(E, CONFIG, t, n)
            E.prove(st, z3.Implies(is_some(o), v == some_of(o)), f'{n}: as given')
            E.prove(st, z3.Implies(z3.Not(is_some(o)), v == self.DEFAULTS[n]), f'{n}: its default otherwise')


class Expand(Contract):
    var = None
    assumes = [ENVIRON]

    def overrides(self, E):
        d = {}
        environ(self, E, d)
        return d


class Getenv(Expand):
    """sys::getenv: the value of exactly the variable named, if it is set"""
    target = 'sys::getenv'
    covers = ('set', 'unset')

    def setup(self, E, st, f):
        s = E.fresh(st, STR, 'name')
        self.n = E.pack(st, s, STR)
        return [E.ref_to(st, s, STR)]

    def post(self, E, st, ret):
        t = E.pack(st, val(E, st, ret), opt_ty(STR))
        E.prove(st, is_some(t) == self.envset(self.n), 'given exactly if set')
        E.prove(st, z3.Implies(is_some(t), some_of(t) == self.envval(self.n)), 'its value')
        for k, c in (('set', is_some(t)), ('unset', z3.Not(is_some(t)))):
            if E.feasible(st, c):
                self.covered[k] = True


class ExpandHostname(Expand):
    """proto::expand_hostname: the host given, or else PROCSTAR_AGENT_HOST of the environment, if set"""
    target = 'proto::expand_hostname'
    covers = ('given', 'environment', 'none')
    VAR = z3.StringVal('PROCSTAR_AGENT_HOST')

    def setup(self, E, st, f):
        a = E.fresh(st, opt_ty(STR), 'host')
        self.a = E.pack(st, a, opt_ty(STR))
        return [E.ref_to(st, a, opt_ty(STR))]

    def post(self, E, st, ret):
        t = E.pack(st, val(E, st, ret), opt_ty(STR))
        E.prove(st, is_some(t) == z3.Or(is_some(self.a), self.envset(self.VAR)), 'a host exactly if given or in the environment')
        E.prove(st, z3.Implies(is_some(self.a), some_of(t) == some_of(self.a)), 'the host given')
        E.prove(st, z3.Implies(z3.And(z3.Not(is_some(self.a)), is_some(t)), some_of(t) == self.envval(self.VAR)), 'else that of the environment')
        for k, c in (('given', is_some(self.a)), ('environment', z3.And(is_some(t), z3.Not(is_some(self.a)))), ('none', z3.Not(is_some(t)))):
            if E.feasible(st, c):
                self.covered[k] = True


class ExpandPort(Expand):
    """proto::expand_port: the port given, or else PROCSTAR_AGENT_PORT of the environment, if set; one that is not a port is refused"""
    target = 'proto::expand_port'
    covers = ('given', 'environment', 'none', 'refused')
    VAR = z3.StringVal('PROCSTAR_AGENT_PORT')
    assumes = [ENVIRON, '<u32 as FromStr>::from_str parses the number written']

    def overrides(self, E):
        d = super().overrides(E)
        self.isnum, self.num = z3.Bool('is_number'), z3.Int('number')

        def parse(E, st, c):
            E.prove(st, E.pack(st, val(E, st, c.args[0]), STR) == self.envval(self.VAR), 'the text of the environment is parsed')
            if E.decide(st, self.isnum):
                st.assume(E.in_range(self.num, 'u32'))
                return Agg(c.dty, [self.num], 0)
            return Agg(c.dty, [E.fresh(st, c.dty.args[1], 'parse error')], 1)
        d['str::parse'] = d['core::str::parse'] = parse
        return d

    def panics_if(self, E, st):
        self.covered['refused'] = True
        return z3.And(z3.Not(is_some(self.a)), self.envset(self.VAR), z3.Not(self.isnum))

    def setup(self, E, st, f):
        self.ty = f.locals[f.args[0]]
        self.a = E.pack(st, E.fresh(st, self.ty, 'port'), self.ty)
        return [E.unpack(st, self.a, self.ty)]

    def post(self, E, st, ret):
        t = E.pack(st, val(E, st, ret), self.ty)
        env = self.envset(self.VAR)
        E.prove(st, is_some(t) == z3.Or(is_some(self.a), env), 'a port exactly if given or in the environment')
        E.prove(st, z3.Implies(is_some(self.a), some_of(t) == some_of(self.a)), 'the port given')
        E.prove(st, z3.Implies(z3.And(z3.Not(is_some(self.a)), env), z3.And(self.isnum, some_of(t) == self.num)), 'else that of the environment, if it is a number')
        for k, c in (('given', is_some(self.a)), ('environment', z3.And(is_some(t), z3.Not(is_some(self.a)))), ('none', z3.Not(is_some(t)))):
            if E.feasible(st, c):
                self.covered[k] = True


class AccessToken(Expand):
    """net::get_access_token: PROCSTAR_AGENT_TOKEN of the environment, or the empty string"""
    target = 'net::get_access_token'
    VAR = z3.StringVal('PROCSTAR_AGENT_TOKEN')

    def setup(self, E, st, f):
        return []

    def post(self, E, st, ret):
        t = E.pack(st, val(E, st, ret), STR)
        E.prove(st, t == z3.If(self.envset(self.VAR), self.envval(self.VAR), z3.StringVal('')), 'the token of the environment, or none')


class LogLevel(Contract):
    """argv::parse_log_level: the level of that name, for each level the command line admits"""
    target = 'argv::parse_log_level'
    bin = True
    LEVELS = dict(error=1, warn=2, info=3, debug=4, trace=5)

    def setup(self, E, st, f):
        s = E.fresh(st, STR, 'level')
        self.s = E.pack(st, s, STR)
        return [E.ref_to(st, s, STR)]

    def post(self, E, st, ret):
        _, _, vi, fs = variant(E, st, ret)
        known = z3.Or([self.s == z3.StringVal(n) for n in self.LEVELS])
        E.prove(st, known == z3.BoolVal(vi == 0), 'each name of a level, and no other, is one')
        if vi == 0:
            t = str(E.pack(st, val(E, st, fs[0]), val(E, st, fs[0]).ty)).split('::')[-1]
            for n in self.LEVELS:
                E.prove(st, z3.Implies(self.s == z3.StringVal(n), z3.BoolVal(t.lower() == n)), f'{n}: that level')


OPTARGS = 'the options are such as argv::parse gives under its own contract'
RES = parse_ty('std::collections::BTreeMap<std::string::String, res::ProcRes>')
DONE = 'done:'


class Flow(Base):
    """a part of main: what it waits for and does is recorded, path by path"""
    bin = True
    FUTURES = ('SharedProcs::wait_running', 'SharedProcs::wait_idle', 'SharedProcs::wait_for_shutdown', 'http::run_http', 'agent::run')

    def overrides(self, E):
        d = super().overrides(E)

        def fut(name):
            return lambda E, st, c: PyV('future', name=name, args=tuple(c.args), dty=c.dty)
        for n in self.FUTURES:
            d[n] = fut(n.split('::')[-1])

        def leave(E, st, c):
            E.prove(st, val(E, st, c.args[0]) != 0, 'leaving early is an error')
            self.leaves(E, st)
            return []
        d['process::exit'] = leave

        def shutdown(E, st, c):
            self.procs_are(E, st, c.args[0])
            event(E, st, 'set_shutdown', [E.pack(st, val(E, st, c.args[1]), SHUT)], None)
            return unit()
        d['SharedProcs::set_shutdown'] = shutdown

        def collect(E, st, c):
            self.procs_are(E, st, c.args[0])
            r = E.fresh(st, c.dty, 'results')
            event(E, st, 'collect', [E.pack(st, r, c.dty)], None)
            return r
        d['SharedProcs::collect_results'] = collect

        def output(name):
            def f(E, st, c):
                ok = E.decide(st, E.fresh_const(B, 'works'))
                event(E, st, name, [E.pack(st, val(E, st, c.args[0]), RES)] + [E.pack(st, val(E, st, a), STR) for a in c.args[1:]], ok)
                return Agg(c.dty, [unit() if ok else E.fresh(st, c.dty.args[1], 'ioerr')], 0 if ok else 1)
            return f
        d['res::print'] = output('print')
        d['res::dump_file'] = output('dump')
        return d

    def leaves(self, E, st):
        E.prove(st, z3.BoolVal(False), 'does not leave the process')

    def procs_are(self, E, st, a):
        E.prove(st, list(fields(E, st, val(E, st, a)).values())[0].ptr == self.ptr, 'of these processes')

    def options(self, E, st):
        a = E.fresh(st, ARGS, 'args')
        self.a = E.pack(st, a, ARGS)
        P = Parse()
        st.assume(z3.And(z3.Not(P.refuse(E, self.a)), self.opt(E, 'exit') == P.exits(E, self.a)))
        return a

    def opt(self, E, n):
        return field(E, ARGS, self.a, n)

    def setup(self, E, st, f):
        ps = self.base_setup(E, st)
        a = self.options(E, st)
        return [E.ref_to(st, a, ARGS), ps]

    def on_await(self, E, st, fut, rty):
        n, a = fut.a['name'], fut.a['args']
        if n.startswith('wait_'):
            self.procs_are(E, st, a[0])
            havoc_shared(E, st)
            event(E, st, DONE + n, [], None)
            return unit()
        raise Unsupported('await of ' + n)

    def names(self, st):
        return [e[0] for e in st.trace if e[0].startswith(DONE) or e[0] in ('set_shutdown', 'collect', 'print', 'dump')]

    def args_of(self, st, name):
        return [e[1] for e in st.trace if e[0] == name]

    def must(self, E, st, b, what):
        E.prove(st, z3.BoolVal(bool(b)), what)


class UntilExit(Flow):
    """maybe_run_until_exit: with --exit, once no process runs or shutdown was requested, collects the results, prints and writes them if and where asked, and
    only then completes shutdown; without it, does nothing"""
    target = 'maybe_run_until_exit'
    covers = ('nothing', 'none running', 'shut down', 'printed', 'written', 'failed')
    assumes = ASSUMES + [OPTARGS, 'wait_running, wait_for_shutdown, collect_results and set_shutdown as under their own contracts']

    def leaves(self, E, st):
        self.covered['failed'] = True
        self.must(E, st, any(e[0] in ('print', 'dump') and e[2] is False for e in st.trace), 'leaves only if printing or writing failed')

    def post(self, E, st, ret):
        ns = self.names(st)
        if not ns:
            self.covered['nothing'] = True
            E.prove(st, z3.Not(self.opt(E, 'exit')), 'does nothing only if not asked to')
            return
        E.prove(st, self.opt(E, 'exit'), 'only if asked to')
        M = lambda b, w: self.must(E, st, b, w)
        M(ns[0] in (DONE + 'wait_running', DONE + 'wait_for_shutdown'), 'first waits until no process runs, or for shutdown')
        self.covered['none running' if ns[0] == DONE + 'wait_running' else 'shut down'] = True
        M(ns.count('collect') == 1, 'collects the results once')
        i = ns.index('collect') if 'collect' in ns else 0
        M(not any(n.startswith(DONE) for n in ns[i:]), 'waits for nothing more once it has')
        M(all(n in ('print', 'dump', 'set_shutdown') for n in ns[i + 1:]), 'collects before it prints and writes')
        M(ns[-1] == 'set_shutdown' and ns.count('set_shutdown') == 1, 'completes shutdown at the end')
        for (t,) in self.args_of(st, 'set_shutdown'):
            E.prove(st, self.Sh.is_(t, 'Done'), 'shutdown is done')
        res = [a[0] for a in self.args_of(st, 'collect')]
        pr, du = self.args_of(st, 'print'), self.args_of(st, 'dump')
        E.prove(st, z3.BoolVal(len(pr) == 1) == self.opt(E, 'print'), 'prints exactly if asked to')
        E.prove(st, z3.BoolVal(len(du) == 1) == is_some(self.opt(E, 'output')), 'writes exactly if asked to')
        for a in pr + du:
            E.prove(st, a[0] == res[0], 'what is printed and written are the results collected')
        for a in du:
            E.prove(st, a[1] == some_of(self.opt(E, 'output')), 'written to the path given')
        M(all(e[2] is not False for e in st.trace if e[0] in ('print', 'dump')), 'a failure to print or write is an error')
        if pr:
            self.covered['printed'] = True
        if du:
            self.covered['written'] = True


class UntilIdle(Flow):
    """maybe_run_until_idle: with --wait, once no process is left or shutdown was requested, completes shutdown; without it, does nothing"""
    target = 'maybe_run_until_idle'
    covers = ('nothing', 'idle', 'shut down')
    assumes = ASSUMES + [OPTARGS, 'wait_idle, wait_for_shutdown and set_shutdown as under their own contracts']

    def post(self, E, st, ret):
        ns = self.names(st)
        if not ns:
            self.covered['nothing'] = True
            E.prove(st, z3.Not(self.opt(E, 'wait')), 'does nothing only if not asked to')
            return
        E.prove(st, self.opt(E, 'wait'), 'only if asked to')
        self.must(E, st, ns[0] in (DONE + 'wait_idle', DONE + 'wait_for_shutdown'), 'first waits until no process is left, or for shutdown')
        self.covered['idle' if ns[0] == DONE + 'wait_idle' else 'shut down'] = True
        self.must(E, st, ns[-1] == 'set_shutdown' and len(ns) == 2, 'then completes shutdown, and nothing else')
        for (t,) in self.args_of(st, 'set_shutdown'):
            E.prove(st, self.Sh.is_(t, 'Done'), 'shutdown is done')


class RunHttp(Flow):
    """maybe_run_http: with --serve, serves these processes on the port given until shutdown; without it, does not"""
    target = 'maybe_run_http'
    covers = ('nothing', 'ended', 'shut down')
    assumes = ASSUMES + [OPTARGS, 'wait_for_shutdown as under its own contract; run_http accepts connections on the port it is given']

    def panics_if(self, E, st):
        return z3.BoolVal(any(e[0] == 'http failed' for e in st.trace))

    def on_await(self, E, st, fut, rty):
        if fut.a['name'] == 'run_http':
            a = fut.a['args']
            self.procs_are(E, st, a[0])
            E.prove(st, val(E, st, a[1]) == self.opt(E, 'serve_port'), 'on the port given')
            havoc_shared(E, st)
            ok = E.decide(st, E.fresh_const(B, 'served'))
            event(E, st, DONE + 'run_http' if ok else 'http failed', [], None)
            return Agg(rty, [unit() if rty.args[0].is_unit() else E.fresh(st, rty.args[0], 'ok') if ok else E.fresh(st, rty.args[1], 'err')], 0 if ok else 1) \
                if ok else Agg(rty, [E.fresh(st, rty.args[1], 'err')], 1)
        return super().on_await(E, st, fut, rty)

    def post(self, E, st, ret):
        ns = self.names(st)
        if not ns:
            self.covered['nothing'] = True
            E.prove(st, z3.Not(self.opt(E, 'serve')), 'does nothing only if not asked to')
            return
        E.prove(st, self.opt(E, 'serve'), 'only if asked to')
        self.must(E, st, ns in ([DONE + 'run_http'], [DONE + 'wait_for_shutdown']), 'serves until shutdown')
        self.covered['ended' if ns[0] == DONE + 'run_http' else 'shut down'] = True


class RunAgent(Flow, Expand):
    """maybe_run_agent: with --agent, runs the connection to the host and port given, or of the environment, or the default port, with the ids and the
    configuration given, until it ends, also after shutdown; without a host, or if the connection fails for good, it is an error"""
    target = 'maybe_run_agent'
    covers = ('nothing', 'ended', 'after shutdown', 'no host', 'failed')
    assumes = ASSUMES + [OPTARGS, ENVIRON, 'get_connect_config, Connection::new and agent::run as under their own contracts', 'Url::parse takes the text it is given']

    def overrides(self, E):
        d = super().overrides(E)
        environ(self, E, d)

        def url(E, st, c):
            event(E, st, 'url', [val(E, st, c.args[0])], None)
            ok = E.decide(st, E.fresh_const(B, 'url parses'))
            r = E.fresh(st, c.dty.args[0 if ok else 1], 'url')
            if ok:
                st.ghost['url'] = E.pack(st, r, c.dty.args[0])
            else:
                event(E, st, 'bad url', [], None)
            return Agg(c.dty, [r], 0 if ok else 1)
        d['Url::parse'] = d['url::Url::parse'] = url

        self.isnum, self.num = z3.Bool('port is number'), z3.Int('env port')

        def parse(E, st, c):
            E.prove(st, E.pack(st, val(E, st, c.args[0]), STR) == self.envval(ExpandPort.VAR), 'the port of the environment')
            if E.decide(st, self.isnum):
                st.assume(E.in_range(self.num, 'u32'))
                return Agg(c.dty, [self.num], 0)
            return Agg(c.dty, [E.fresh(st, c.dty.args[1], 'parse error')], 1)
        d['str::parse'] = d['core::str::parse'] = parse

        def config(E, st, c):
            E.prove(st, E.pack(st, val(E, st, c.args[0]), ARGS) == self.a, 'the configuration of these options')
            r = E.fresh(st, c.dty, 'config')
            st.ghost['cfg'] = E.pack(st, r, CONFIG)
            return r
        d['argv::get_connect_config'] = config

        def new(E, st, c):
            v = [val(E, st, a) for a in c.args]
            E.prove(st, E.pack(st, v[0], v[0].ty) == st.ghost['url'], 'connects to that url')
            for x, n in ((c.args[1], 'conn_id'), (c.args[2], 'group_id')):
                E.prove(st, E.pack(st, val(E, st, x), opt_ty(STR)) == self.opt(E, n), f'--{n.replace("_", "-")} as given')
            r = E.fresh(st, c.dty, 'connection')
            st.ghost['connection'] = E.pack(st, r, c.dty)
            return r
        d['agent::Connection::new'] = d['Connection::new'] = new
        return d

    def host(self, E):
        h = self.opt(E, 'agent_host')
        return z3.If(is_some(h), some_of(h), self.envval(ExpandHostname.VAR))

    def has_host(self, E):
        return z3.Or(is_some(self.opt(E, 'agent_host')), self.envset(ExpandHostname.VAR))

    def port_of(self, E):
        p = self.opt(E, 'agent_port')
        return z3.If(is_some(p), some_of(p), z3.If(self.envset(ExpandPort.VAR), self.num, z3.IntVal(59789)))

    def leaves(self, E, st):
        failed = any(e[0] == 'agent failed' for e in st.trace)
        E.prove(st, z3.And(self.opt(E, 'agent'), z3.Or(z3.BoolVal(failed), z3.Not(self.has_host(E)))), 'leaves only for want of a host, or if the connection failed for good')
        self.covered['failed' if failed else 'no host'] = True

    def panics_if(self, E, st):
        bad = any(e[0] == 'bad url' for e in st.trace)
        return z3.Or(z3.BoolVal(bad), z3.And(z3.Not(is_some(self.opt(E, 'agent_port'))), self.envset(ExpandPort.VAR), z3.Not(self.isnum)))

    def on_await(self, E, st, fut, rty):
        if fut.a['name'] == 'run':
            a = fut.a['args']
            E.prove(st, E.pack(st, val(E, st, a[0]), val(E, st, a[0]).ty) == st.ghost['connection'], 'runs that connection')
            self.procs_are(E, st, a[1])
            E.prove(st, E.pack(st, val(E, st, a[2]), CONFIG) == st.ghost['cfg'], 'with that configuration')
            us = self.args_of(st, 'url')
            self.must(E, st, len(us) == 1, 'to one url')
            want = z3.Concat(z3.StringVal('wss://'), self.host(E), z3.StringVal(':'), itoa(self.port_of(E)))
            E.prove(st, E.pack(st, us[0][0], STR) == want, 'host and port as given, or of the environment, or the default port')
            havoc_shared(E, st)
            ok = E.decide(st, E.fresh_const(B, 'agent runs'))
            event(E, st, DONE + 'run' if ok else 'agent failed', [], None)
            return Agg(rty, [unit() if ok else E.fresh(st, rty.args[1], 'err')], 0 if ok else 1)
        return super().on_await(E, st, fut, rty)

    def post(self, E, st, ret):
        ns = self.names(st)
        if not ns:
            self.covered['nothing'] = True
            E.prove(st, z3.Not(self.opt(E, 'agent')), 'does nothing only if not asked to')
            return
        E.prove(st, self.opt(E, 'agent'), 'only if asked to')
        self.must(E, st, ns in ([DONE + 'run'], [DONE + 'wait_for_shutdown', DONE + 'run']), 'runs until the connection has ended')
        self.must(E, st, not any(e[0] == 'agent failed' for e in st.trace), 'a connection that failed for good is an error')
        self.covered['ended' if len(ns) == 1 else 'after shutdown'] = True


SPECS = parse_ty('std::collections::BTreeMap<std::string::String, spec::Proc>')


class Main(Flow):
    """main: restricts executables as asked before anything starts; handles SIGTERM, SIGINT, SIGQUIT and SIGUSR1 each in its documented way; starts exactly the
    processes of the input given before any service; then runs all that the options ask for until all of it has ended"""
    target = 'main'
    covers = ('restricted', 'not restricted', 'input', 'stdin', 'no input', 'started', 'nothing to start', 'bad input', 'start refused')
    assumes = ASSUMES + [OPTARGS, 'argv::parse, parse_log_level, install_signal_handler, start_procs, restrict_exe and the four maybe_run functions as under their own contracts',
                         'the runtime, the LocalSet and the join! of tokio run the futures given; stderrlog is given as much as it needs']
    SIGNALS = {15: 'TermThenKill', 2: 'TermThenKill', 3: 'Kill', 10: 'ShutdownOnIdle'}
    PARTS = ('maybe_run_http', 'maybe_run_agent', 'maybe_run_until_exit', 'maybe_run_until_idle')

    def overrides(self, E):
        d = super().overrides(E)

        def opaque(E, st, c):
            if c.dty.kind == 'ref':
                return c.args[0] if isinstance(c.args[0], RefV) else E.ref_to(st, E.fresh(st, c.dty.args[0], 'log'), c.dty.args[0])
            return E.fresh(st, c.dty, 'log')
        for n in ('new', 'StdErrLog::module', 'StdErrLog::verbosity', 'StdErrLog::timestamp', 'StdErrLog::quiet', 'StdErrLog::color'):
            d['stderrlog::' + n] = opaque
            if '::' in n:
                d[n] = opaque
        d['stderrlog::StdErrLog::init'] = d['StdErrLog::init'] = lambda E, st, c: Agg(c.dty, [unit()], 0)

        def parse(E, st, c):
            self.must(E, st, not self.args_of(st, 'parse'), 'parses the command line once')
            event(E, st, 'parse', [], None)
            return self.options(E, st)
        d['argv::parse'] = parse

        def level(E, st, c):
            E.prove(st, E.pack(st, val(E, st, c.args[0]), STR) == some_of(self.opt(E, 'log_level')), 'the log level given')
            return Agg(c.dty, [E.fresh(st, c.dty.args[0], 'level')], 0)
        d['argv::parse_log_level'] = level

        def restrict(E, st, c):
            event(E, st, 'restrict', [E.pack(st, val(E, st, c.args[0]), STR)], None)
            return unit()
        d['procs::restrict_exe'] = restrict
        d['LocalSet::new'] = lambda E, st, c: PyV('localset')

        def procs(E, st, c):
            self.must(E, st, not self.args_of(st, 'procs'), 'one set of processes')
            event(E, st, 'procs', [], None)
            return Agg(SPROCS, [RcV(PROCS, self.ptr)])
        d['SharedProcs::new'] = procs

        def install(E, st, c):
            self.procs_are(E, st, c.args[0])
            _, _, vi, _ = variant(E, st, c.args[2])
            sig = as_int(val(E, st, c.args[1]))
            style = E.db.info(Ty('adt', 'shutdown::SignalStyle')).variants[vi][0]
            event(E, st, 'install', [sig, style], None)
            return PyV('future', name='handler', args=(sig,), dty=c.dty)
        d['shutdown::install_signal_handler'] = install

        def spawn(E, st, c):
            v = c.args[1]
            while isinstance(v, Agg) and v.ty is not None and v.ty.kind == 'adt' and v.ty.name in ('Pin', 'Box'):
                v = v.fields[0]
            if not (isinstance(v, PyV) and v.kind == 'future' and v.a['name'] == 'handler'):
                raise Unsupported('task spawned by main')
            event(E, st, 'spawn', [v.a['args'][0]], None)
            return E.fresh(st, c.dty, 'task')
        d['LocalSet::spawn_local'] = d['task::spawn_local'] = spawn

        def load(name):
            def f(E, st, c):
                ok = E.decide(st, E.fresh_const(B, 'loads'))
                r = E.fresh(st, c.dty.args[0 if ok else 1], 'input')
                t = None
                if ok:
                    v = fields(E, st, r)['specs']
                    nonempty_facts(E, st, v)
                    t = E.pack(st, v, SPECS)
                    st.ghost['specs'] = t
                    st.ghost['nspecs'] = v.size
                event(E, st, name, [E.pack(st, val(E, st, a), STR) for a in c.args], ok)
                return Agg(c.dty, [r], 0 if ok else 1)
            return f
        d['spec::load_file'] = load('load_file')
        d['spec::load_stdin'] = load('load_stdin')

        def start(E, st, c):
            self.procs_are(E, st, c.args[1])
            v = val(E, st, c.args[0])
            ok = E.decide(st, E.fresh_const(B, 'starts'))
            event(E, st, 'start', [E.pack(st, v, SPECS)], ok)
            return Agg(c.dty, [E.fresh(st, c.dty.args[0 if ok else 1], 'tasks')], 0 if ok else 1)
        d['procs::start_procs'] = start

        def part(name):
            def f(E, st, c):
                E.prove(st, E.pack(st, val(E, st, c.args[0]), ARGS) == self.a, f'{name}: with the options of the command line')
                self.procs_are(E, st, c.args[1])
                return PyV('future', name=name, args=(), dty=c.dty)
            return f
        for n in self.PARTS:
            d[n] = part(n)
        d['LocalSet::run_until'] = lambda E, st, c: PyV('future', name='run_until', args=(c.args[1],), dty=c.dty)
        return d

    def leaves(self, E, st):
        bad = [e[0] for e in st.trace if e[0] in ('load_file', 'load_stdin', 'start') and e[2] is False]
        self.must(E, st, bad, 'leaves only if the input cannot be loaded or started')
        if bad:
            self.covered['start refused' if bad[-1] == 'start' else 'bad input'] = True

    def setup(self, E, st, f):
        self.base_setup(E, st)
        st.ghost['specs'] = z3.Const('specs0', E.sort(SPECS))
        st.ghost['nspecs'] = z3.IntVal(0)
        return []

    def find(self, E):
        return E.load('main::{closure#0}') or super().find(E)

    def execute(self, E, st, f, args):
        return E.run(f, [ClosV(E.closure_of.get(f.path, '{main}'), ()), PyV('context')][:len(f.args)], st)

    def on_await(self, E, st, fut, rty):
        n, a = fut.a['name'], fut.a['args']
        if n == 'run_until':
            return E.run_async(st, a[0])
        if n in self.PARTS:
            event(E, st, DONE + n, [], None)
            havoc_shared(E, st)
            return unit()
        raise Unsupported('await of ' + n)

    def post(self, E, st, ret):
        M = lambda b, w: self.must(E, st, b, w)
        ns = [e[0] for e in st.trace]
        first = lambda k: ns.index(k) if k in ns else len(ns)
        parts = [i for i, n in enumerate(ns) if n.startswith(DONE)]
        M(sorted(ns[i] for i in parts) == sorted(DONE + p for p in self.PARTS), 'runs each service and each wait asked for, once, until it ends')
        M(not any(n == 'start' for n in ns[min(parts):]) if parts else True, 'starts the processes of the input before any service')
        # ---- restriction
        rs = self.args_of(st, 'restrict')
        E.prove(st, z3.BoolVal(len(rs) == 1) == is_some(self.opt(E, 'restrict_exe')), 'restricts executables exactly if asked to')
        for (t,) in rs:
            E.prove(st, t == some_of(self.opt(E, 'restrict_exe')), 'to the executable given')
        M(not rs or first('restrict') < min([first('start')] + parts), 'restricted before anything starts')
        self.covered['restricted' if rs else 'not restricted'] = True
        # ---- signals
        ins = [tuple(a) for a in self.args_of(st, 'install')]
        for k, style in self.SIGNALS.items():
            M(ins.count((k, style)) == 1 and [x for x, _ in ins].count(k) == 1, f'signal {k} is handled as documented')
            sp = [i for i, e in enumerate(st.trace) if e[0] == 'spawn' and e[1][0] == k]
            M(len(sp) == 1 and (not parts or sp[0] < min(parts)), f'the handler of signal {k} runs')
        M(len(ins) == len(self.SIGNALS), 'handles no other signal')
        last = max([i for i, n in enumerate(ns) if n == 'install'] + [-1])
        M(last < first('start'), 'signals are caught before processes start')
        # ---- input
        lf, ls = [e for e in st.trace if e[0] == 'load_file'], [e for e in st.trace if e[0] == 'load_stdin']
        o = self.opt(E, 'input')
        dash = z3.StringVal('-')
        E.prove(st, z3.BoolVal(len(lf) == 1) == z3.And(is_some(o), some_of(o) != dash), 'loads a file exactly if one is given')
        E.prove(st, z3.BoolVal(len(ls) == 1) == z3.And(is_some(o), some_of(o) == dash), 'loads standard input exactly for -')
        M(all(e[2] for e in lf + ls), 'goes on only with its input loaded')
        for e in lf:
            E.prove(st, e[1][0] == some_of(o), 'loads the file given')
        self.covered['input' if lf else 'stdin' if ls else 'no input'] = True
        ss = [e for e in st.trace if e[0] == 'start']
        M(len(ss) <= 1, 'starts the input once')
        if ss:
            E.prove(st, ss[0][1][0] == st.ghost['specs'], 'starts exactly the processes of the input')
            M(ss[0][2], 'goes on only with them started')
            self.covered['started'] = True
        else:
            E.prove(st, st.ghost['nspecs'] == 0, 'starts them unless there are none')
            self.covered['nothing to start'] = True


class Files(Contract):
    """reading and writing JSON: the file named, through serde_json"""
    assumes = ['serde_json reads and writes values as it should']

    def overrides(self, E):
        d = {}

        def opens(name):
            def f(E, st, c):
                ok = E.decide(st, E.fresh_const(B, 'opens'))
                r = E.fresh(st, c.dty.args[0 if ok else 1], 'file')
                event(E, st, name, [E.pack(st, val(E, st, c.args[0]), STR), E.pack(st, r, c.dty.args[0]) if ok else None], ok)
                return Agg(c.dty, [r], 0 if ok else 1)
            return f
        d['File::create'] = d['fs::File::create'] = opens('create')
        d['File::open'] = d['fs::File::open'] = opens('open')
        d['io::stdout'] = d['stdio::stdout'] = lambda E, st, c: PyV('stdio', name='stdout')
        d['io::stdin'] = d['stdio::stdin'] = lambda E, st, c: PyV('stdio', name='stdin')
        d['Stdin::lock'] = d['Stdout::lock'] = lambda E, st, c: c.args[0] if isinstance(c.args[0], PyV) else val(E, st, c.args[0])
        d['BufReader::new'] = d['BufWriter::new'] = lambda E, st, c: c.args[0]

        def where_(E, st, v):
            while isinstance(v, RefV):
                v = E.load_ref(st, v)
            return v.a['name'] if isinstance(v, PyV) else E.pack(st, v, v.ty)

        def write(E, st, c):
            ok = E.decide(st, E.fresh_const(B, 'writes'))
            event(E, st, 'write', [where_(E, st, c.args[0]), E.pack(st, val(E, st, c.args[1]), RES)], ok)
            return Agg(c.dty, [unit() if ok else E.fresh(st, c.dty.args[1], 'err')], 0 if ok else 1)
        for n in ('serde_json::to_writer', 'ser::to_writer', 'to_writer'):
            d[n] = write

        def read(E, st, c):
            ok = E.decide(st, E.fresh_const(B, 'reads'))
            r = E.fresh(st, c.dty.args[0 if ok else 1], 'value')
            event(E, st, 'read', [where_(E, st, c.args[0]), E.pack(st, r, c.dty.args[0]) if ok else None], ok)
            return Agg(c.dty, [r], 0 if ok else 1)
        for n in ('serde_json::from_reader', 'de::from_reader', 'from_reader'):
            d[n] = read
        return d

    def panics_if(self, E, st):
        return z3.BoolVal(any(e[0] == 'write' and e[2] is False for e in st.trace))

    def ev(self, st, n):
        return [e for e in st.trace if e[0] == n]

    def must(self, E, st, b, what):
        E.prove(st, z3.BoolVal(bool(b)), what)


class ResPrint(Files):
    """res::print: the results, all of them, on standard output"""
    target = 'res::print'

    def setup(self, E, st, f):
        r = E.fresh(st, RES, 'results')
        self.r = E.pack(st, r, RES)
        return [E.ref_to(st, r, RES)]

    def post(self, E, st, ret):
        _, _, vi, _ = variant(E, st, ret)
        w = self.ev(st, 'write')
        self.must(E, st, len(w) == 1 and w[0][1][0] == 'stdout', 'writes once, to standard output')
        if w:
            E.prove(st, w[0][1][1] == self.r, 'the results given')
            self.must(E, st, w[0][2] == (vi == 0), 'a success exactly if written')


class ResDump(Files):
    """res::dump_file: the results, all of them, in the file named, created or replaced"""
    target = 'res::dump_file'
    covers = ('written', 'not created', 'not written')

    def setup(self, E, st, f):
        r = E.fresh(st, RES, 'results')
        self.r = E.pack(st, r, RES)
        p = E.fresh(st, STR, 'path')
        self.p = E.pack(st, p, STR)
        return [E.ref_to(st, r, RES), E.ref_to(st, p, STR)]

    def post(self, E, st, ret):
        _, _, vi, _ = variant(E, st, ret)
        w, cr = self.ev(st, 'write'), self.ev(st, 'create')
        self.must(E, st, len(cr) == 1 and not self.ev(st, 'open'), 'creates one file')
        for e in cr:
            E.prove(st, e[1][0] == self.p, 'the file named')
        ok = all(e[2] for e in cr)
        if ok:
            self.must(E, st, len(w) == 1, 'writes it once')
        for e in w:
            E.prove(st, e[1][0] == cr[0][1][1], 'written to that file')
            E.prove(st, e[1][1] == self.r, 'the results given')
        self.must(E, st, (vi == 0) == (ok and all(e[2] for e in w)), 'a success exactly if written')
        self.covered['written' if vi == 0 else 'not written' if ok else 'not created'] = True


class LoadFile(Files):
    """spec::load_file: the specs of the file named, as read"""
    target = 'spec::load_file'
    covers = ('loaded', 'not opened', 'not read')
    src = 'open'

    def setup(self, E, st, f):
        p = E.fresh(st, STR, 'path')
        self.p = E.pack(st, p, STR)
        return [E.ref_to(st, p, STR)]

    def post(self, E, st, ret):
        _, _, vi, (x, *_) = variant(E, st, ret)
        r, o = self.ev(st, 'read'), self.ev(st, 'open')
        self.must(E, st, len(o) == 1 and not self.ev(st, 'create'), 'opens one file')
        for e in o:
            E.prove(st, e[1][0] == self.p, 'the file named')
        ok = all(e[2] for e in o)
        if ok:
            self.must(E, st, len(r) == 1, 'reads it once')
        for e in r:
            E.prove(st, e[1][0] == o[0][1][1], 'from that file')
        self.must(E, st, (vi == 0) == (ok and all(e[2] for e in r)), 'a success exactly if read')
        if vi == 0 and r:
            v = val(E, st, x)
            E.prove(st, E.pack(st, v, v.ty) == r[0][1][1], 'the specs read')
        self.covered['loaded' if vi == 0 else 'not read' if ok else 'not opened'] = True


class LoadStdin(Files):
    """spec::load_stdin: the specs of standard input, as read"""
    target = 'spec::load_stdin'
    covers = ('loaded', 'not read')

    def setup(self, E, st, f):
        return []

    def post(self, E, st, ret):
        _, _, vi, (x, *_) = variant(E, st, ret)
        r = self.ev(st, 'read')
        self.must(E, st, len(r) == 1 and r[0][1][0] == 'stdin', 'reads standard input once')
        self.must(E, st, (vi == 0) == all(e[2] for e in r), 'a success exactly if read')
        if vi == 0 and r:
            v = val(E, st, x)
            E.prove(st, E.pack(st, v, v.ty) == r[0][1][1], 'the specs read')
        self.covered['loaded' if vi == 0 else 'not read'] = True


CONTRACTS = [Parse, DurationValue, ConnectConfig, Getenv, ExpandHostname, ExpandPort, AccessToken, LogLevel, UntilExit, UntilIdle, RunHttp, RunAgent, Main,
             ResPrint, ResDump, LoadFile, LoadStdin]
