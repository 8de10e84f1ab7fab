"""Concretising a failed obligation about the command: the real binary, and its own option source, run on command lines and environments; what they do against
what the options say."""
import json
import os
import random
import signal
import socket
import subprocess
import tempfile
import time
import urllib.request
from . import extract

ID = 'abc'


class Found(Exception):
    def __init__(self, input, expected, got):
        super().__init__()
        self.v = dict(input=input, expected=expected, got=got)


class Run:
    """a running command, ended in any case"""
    def __init__(self, exe, args, cwd, env=None, stdin=None):
        e = {k: v for k, v in os.environ.items() if not k.startswith('PROCSTAR_')}
        e.update(env or {})
        self.args, self.env = args, env or {}
        self.out = tempfile.TemporaryFile()
        self.err = tempfile.TemporaryFile()
        self.t0 = time.time()
        self.p = subprocess.Popen([exe, *args], cwd=cwd, env=e, stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
                                  stdout=self.out, stderr=self.err, start_new_session=True)
        if stdin is not None:
            try:
                self.p.stdin.write(stdin.encode())
                self.p.stdin.close()
            except OSError:
                pass

    def wait(self, secs):
        """-> exit code, or None if it still runs"""
        try:
            return self.p.wait(secs)
        except subprocess.TimeoutExpired:
            return None

    def text(self):
        self.out.seek(0)
        return self.out.read().decode(errors='replace')

    def errors(self):
        self.err.seek(0)
        return self.err.read().decode(errors='replace')[-400:]

    def end(self):
        if self.p.poll() is None:
            self.p.kill()
            self.p.wait()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.end()


class Search:
    def __init__(self, a):
        self.rnd = random.Random(a['seed'])
        self.strs = [s for s in a['strs'] if s.isprintable() and '\0' not in s][:50]
        self.ints = a['ints']
        self.deadline = time.time() + a['budget']
        self.n = 0
        self.notes = []

    def go(self):
        return time.time() < self.deadline

    def must(self, ok, inp, expected, got):
        self.n += 1
        if not ok:
            raise Found(inp, expected, got)

    # -------------------------------------------------------------------------------- the options
    def options(self, exe):
        r = self.rnd
        args, env, want = [], {}, {}
        flags = {k: r.random() < p for k, p in (('exit', .3), ('wait', .25), ('serve', .3), ('agent', .3), ('print', .25))}
        for k, v in flags.items():
            if v:
                args.append(r.choice(['--' + k, dict(exit='-x', wait='-w', serve='-s', agent='-a', print='-p')[k]]))
        want.update(flags)
        text = lambda: r.choice(['a', 'my group', 'host.example.com', '/bin/x', 'ü'] + [s for s in self.strs if s and not s.startswith('-')])
        for k, p in (('output', .2), ('group-id', .3), ('conn-id', .2), ('restrict-exe', .3)):
            v = text() if r.random() < p else None
            if v is not None:
                args += ['--' + k, v]
            want[k.replace('-', '_')] = v
        want['log_level'] = r.choice([None, None, 'trace', 'debug', 'info', 'warn', 'error'])
        if want['log_level']:
            args += ['--log-level', want['log_level']]
        want['serve_port'] = 3000
        if r.random() < .4:
            want['serve_port'] = r.choice([0, 1, 80, 3000, 3001, 65535] + [i for i in self.ints if 0 <= i < 65536])
            args += ['--serve-port', str(want['serve_port'])]
        want['host'] = None
        if r.random() < .5:
            want['host'] = env['PROCSTAR_AGENT_HOST'] = r.choice(['', 'env.example.com', text()])
        if r.random() < .5:
            want['host'] = r.choice(['given.example.com', '', text()])
            args += ['--agent-host', want['host']]
        bad = False
        for k, df in (('start', 1.0), ('mult', 2.0), ('max', 60.0)):
            want[k] = df
            if r.random() < .4:
                v = r.choice(['0', '0.5', '3', '1e3', '5', '61', '-1', '-0.25', 'nan', 'inf', '1e300'])
                args.append(f'--connect-interval-{k}={v}')
                if v[0] == '-' or v in ('nan', 'inf', '1e300'):
                    bad = True
                else:
                    want[k] = float(v)
        want['count'] = str(2 ** 64 - 1)
        if r.random() < .4:
            want['count'] = str(r.choice([0, 1, 2, 7, 2 ** 64 - 1]))
            args += ['--connect-count-max', want['count']]
        want['input'] = r.choice([None, None, '-', 'specs.json', 'a b'])
        if want['input'] is not None:
            args.append(want['input'])
        ex = flags['exit'] or flags['print'] or want['output'] is not None
        refused = bad or (ex and flags['wait']) or not (ex or flags['wait'] or flags['serve'] or flags['agent'])
        want['exit'] = ex
        e = {k: v for k, v in os.environ.items() if not k.startswith('PROCSTAR_')}
        e.update(env)
        p = subprocess.run([exe, *args], env=e, stdin=subprocess.DEVNULL, capture_output=True, text=True, timeout=20)
        inp = dict(options=args, env=env)
        if refused:
            self.must(p.returncode not in (0, 101) and p.returncode > 0, inp, 'this command line is refused', dict(code=p.returncode, out=p.stdout[-400:], err=p.stderr[-300:]))
            return
        self.must(p.returncode == 0, inp, 'this command line is accepted', dict(code=p.returncode, err=p.stderr[-300:]))
        got = json.loads(p.stdout)
        for k, v in want.items():
            if k in got:
                self.must(got[k] == v, inp, {k: v}, {k: got[k]})

    # -------------------------------------------------------------------------------- the binary
    def scratch(self, specs, name='specs.json'):
        with open(os.path.join(self.dir, name), 'w') as f:
            json.dump(dict(specs=specs), f)
        return name

    def refusals(self, exe):
        for args in ([], ['specs.json'], ['-x', '-w'], ['-p', '-w'], ['-w', '--output', 'o.json'], ['-x', '--connect-interval-start=-1'],
                     ['-x', '--connect-interval-mult=nan'], ['-x', '--connect-interval-max=-0.5'], ['-x', '--log-level', 'loud'], ['-x', 'missing.json'],
                     ['-x', 'broken.json'], ['-a']):
            self.scratch({'p': dict(argv=['/bin/sh', '-c', 'echo ran >ran'])})
            open(os.path.join(self.dir, 'broken.json'), 'w').write('{"specs": {"p":')
            with Run(exe, args, self.dir) as r:
                c = r.wait(15)
                self.must(c is not None and c > 0 and c != 101, dict(command=args), 'refused with an error', dict(code=c, out=r.text()[-300:], err=r.errors()))
            ran = os.path.join(self.dir, 'ran')
            self.must(not os.path.exists(ran), dict(command=args), 'a refused command line starts nothing', 'its process ran')

    def both(self, exe):
        self.results(exe, ['--print', '--output'])

    def results(self, exe, ask=None):
        """results are printed and written exactly where asked, of every process, once none runs"""
        r = self.rnd
        ids = ['p%d' % i for i in range(r.choice([0, 1, 2, 4]))]
        codes = {i: r.choice([0, 0, 1, 3, 77]) for i in ids}
        late = {i: r.random() < .4 for i in ids}
        specs = {i: dict(argv=['/bin/sh', '-c', ('sleep 0.4; ' if late[i] else '') + f'exit {codes[i]}']) for i in ids}
        pr, out, ex = r.random() < .6, r.random() < .5, r.random() < .5
        if ask or not (pr or out or ex):
            pr, out = True, bool(ask)
        args = (['--print'] if pr else []) + (['--output', 'out.json'] if out else []) + (['--exit'] if ex else [])
        name = r.choice(['specs.json', '-specs.json', 'a b', 'ü', '--', '-x', './-'] + [x for x in self.strs if x and '/' not in x and x not in ('.', '..', '-') and len(x) < 50])
        path = self.scratch(specs, name)
        o = os.path.join(self.dir, 'out.json')
        if os.path.exists(o):
            os.unlink(o)
        stdin = None
        if name == 'out.json':
            return
        if r.random() < .3:
            stdin = json.dumps(dict(specs=specs))
            path = '-'
        args += ['--', path]
        inp = dict(command=args, specs=specs)
        with Run(exe, args, self.dir, stdin=stdin if stdin is not None else json.dumps(dict(specs={'other': dict(argv=['/bin/true'])}))) as p:
            c = p.wait(30)
            self.must(c == 0, inp, 'ends successfully once no process runs', dict(code=c, err=p.errors()))
            took, txt = time.time() - p.t0, p.text()
        self.must(took > 0.38 or not any(late.values()), inp, 'ends only once no process runs', f'ended after {took:.2f} s')
        docs = []
        if pr:
            docs.append(('printed', txt))
        else:
            self.must(txt.strip() == '', inp, 'prints nothing unless asked', txt[-300:])
        self.must(os.path.exists(o) == out, inp, 'writes the output exactly if asked', os.path.exists(o))
        if out:
            docs.append(('written', open(o).read()))
        for what, t in docs:
            try:
                d = json.loads(t)
            except ValueError:
                self.must(False, inp, f'the results {what} are JSON', t[-300:])
            self.must(sorted(d) == sorted(ids), inp, f'the results {what} are of every process', sorted(d))
            for i in ids:
                st = (d[i].get('status') or {})
                self.must(st.get('exit_code') == codes[i], inp, f'{i} {what} with exit code {codes[i]}', d[i].get('status'))

    def stops(self, exe):
        """each signal shuts the command down as documented, and results come still"""
        for sig, by in (('SIGTERM', 15), ('SIGINT', 15), ('SIGQUIT', 9)):
            ready = os.path.join(self.dir, 'ready')
            if os.path.exists(ready):
                os.unlink(ready)
            path = self.scratch({'p': dict(argv=['/bin/sh', '-c', '>ready; exec sleep 100'])})
            inp = dict(command=['--print', path], signal=sig)
            with Run(exe, ['--print', path], self.dir) as p:
                t = time.time()
                while not os.path.exists(ready) and time.time() - t < 10:
                    time.sleep(.02)
                time.sleep(.3)
                p.p.send_signal(getattr(signal, sig))
                c = p.wait(20)
                self.must(c == 0, inp, 'shuts down', dict(code=c, err=p.errors()))
                try:
                    d = json.loads(p.text())
                    st = d['p']['status']
                except (ValueError, KeyError, TypeError):
                    st = None
                self.must(st is not None and st.get('signum') == by, inp, f'its process was sent signal {by}, and its result printed', st if st else p.text()[-300:])
        # on idle
        for args in (['-s', '--serve-port', str(free_port())], ['-w', '-s', '--serve-port', str(free_port())]):
            with Run(exe, args, self.dir) as p:
                time.sleep(.5)
                if '-w' not in args:
                    self.must(p.p.poll() is None, dict(command=args), 'runs until shut down', p.p.poll())
                if p.p.poll() is None:
                    p.p.send_signal(signal.SIGUSR1)
                c = p.wait(15)
                self.must(c == 0, dict(command=args, signal='SIGUSR1'), 'shuts down when idle', dict(code=c, err=p.errors()))

    def services(self, exe):
        """the HTTP service runs exactly if asked, on the port given, and knows the input's processes from the start"""
        path = self.scratch({'p': dict(argv=['/bin/sleep', '100']), 'q': dict(argv=['/bin/true'])})
        for serve in (True, False):
            port = free_port()
            args = ['--exit', '--serve-port', str(port)] + (['--serve'] if serve else []) + [path]
            with Run(exe, args, self.dir) as p:
                t, got = time.time(), None
                while got is None and p.p.poll() is None and time.time() - t < (10 if serve else 1.5):
                    try:
                        got = json.loads(urllib.request.urlopen(f'http://127.0.0.1:{port}/procs', timeout=5).read())
                    except OSError:
                        time.sleep(.02)
                    except ValueError:
                        got = 'not JSON'
                if serve:
                    self.must(isinstance(got, dict) and sorted((got.get('data') or got).get('procs') or {}) == ['p', 'q'], dict(command=args), 'serves both processes on that port', str(got)[:300])
                else:
                    self.must(got is None, dict(command=args), 'no service unless asked', str(got)[:300])
                self.must(p.p.poll() is None, dict(command=args), 'runs while a process runs', dict(code=p.p.poll(), err=p.errors()))
                p.p.send_signal(signal.SIGTERM)
                self.must(p.wait(15) == 0, dict(command=args), 'ends when shut down', p.errors())

    def waits(self, exe):
        """--wait ends when no process is left; --exit when none runs"""
        port = free_port()
        path = self.scratch({'p': dict(argv=['/bin/true'])})
        args = ['--wait', '--serve', '--serve-port', str(port), path]
        with Run(exe, args, self.dir) as p:
            time.sleep(1)
            self.must(p.p.poll() is None, dict(command=args), 'runs until every process was deleted', dict(code=p.p.poll(), err=p.errors()))
            rq = urllib.request.Request(f'http://127.0.0.1:{port}/procs/p', method='DELETE')
            try:
                urllib.request.urlopen(rq, timeout=5).read()
            except OSError as e:
                self.must(False, dict(command=args, request='DELETE /procs/p'), 'deleted', str(e))
            c = p.wait(15)
            self.must(c == 0, dict(command=args, request='DELETE /procs/p'), 'ends once none is left', dict(code=c, err=p.errors()))

    def restricted(self, exe):
        """--restrict-exe starts the executable given, whatever the specs say"""
        path = self.scratch({'p': dict(argv=['x', '-c', 'exit 1'], exe='/bin/sh')})
        args = ['--print', '--restrict-exe', '/bin/true', path]
        with Run(exe, args, self.dir) as p:
            c = p.wait(20)
            if c == 0:
                try:
                    st = json.loads(p.text()).get('p', {}).get('status') or {}
                except ValueError:
                    st = {}
                self.must(st.get('exit_code') != 1 , dict(command=args), 'only /bin/true is run', st)
            else:
                self.must(c not in (None, 101), dict(command=args), 'only /bin/true is run', dict(code=c, err=p.errors()))

    def agents(self, exe):
        """the agent connects to the server that its options or environment name, as often and at such intervals as they say"""
        r = self.rnd
        with socket.socket() as l, socket.socket() as l2:
            for s in (l, l2):
                s.bind(('127.0.0.1', 0))
                s.listen(16)
                s.settimeout(6)
            port, other = l.getsockname()[1], l2.getsockname()[1]
            env, args = {}, ['--agent']
            if r.random() < .5:
                args += ['--agent-host', '127.0.0.1']
                if r.random() < .5:
                    env['PROCSTAR_AGENT_HOST'] = '127.9.9.9'
            else:
                env['PROCSTAR_AGENT_HOST'] = '127.0.0.1'
            if r.random() < .5:
                args += ['--agent-port', str(port)]
                if r.random() < .5:
                    env['PROCSTAR_AGENT_PORT'] = str(other)
            else:
                env['PROCSTAR_AGENT_PORT'] = str(port)
            n = r.choice([1, 2, 3, 4])
            start, mult, mx = r.choice([(.2, 2, .5), (.3, 1, 1), (.1, 4, .4), (.4, .5, 10)])
            args += ['--connect-interval-start', str(start), '--connect-interval-mult', str(mult), '--connect-interval-max', str(mx), '--connect-count-max', str(n)]
            inp = dict(command=args, env=env)
            at = []
            with Run(exe, args, self.dir, env=env) as p:
                for _ in range(n):
                    try:
                        s, _ = l.accept()
                    except OSError:
                        break
                    at.append(time.time())
                    s.close()
                c = p.wait(10)
                l.settimeout(.2)
                more = 0
                try:
                    while True:
                        l.accept()[0].close()
                        more += 1
                except OSError:
                    pass
                self.must(len(at) + more == n, inp, f'{n} connection attempts to 127.0.0.1:{port}', len(at) + more)
                self.must(c == 1, inp, 'gives up with an error then', dict(code=c, err=p.errors()))
                iv = start
                for x, y in zip(at, at[1:]):
                    self.must(iv - .05 <= y - x <= iv + 3, inp, f'an interval of {iv} s', f'{y - x:.2f} s')
                    iv = min(iv * mult, mx)

    def defaults(self, exe):
        """the default reconnection settings: a second, doubled each time"""
        with socket.socket() as l:
            l.bind(('127.0.0.1', 0))
            l.listen(16)
            l.settimeout(8)
            args = ['--agent', '--agent-host', '127.0.0.1', '--agent-port', str(l.getsockname()[1])]
            at = []
            with Run(exe, args, self.dir) as p:
                for _ in range(3):
                    try:
                        s, _ = l.accept()
                    except OSError:
                        break
                    at.append(time.time())
                    s.close()
                self.must(len(at) == 3 and p.p.poll() is None, dict(command=args), 'goes on connecting', dict(attempts=len(at), code=p.p.poll()))
                d = [y - x for x, y in zip(at, at[1:])]
                self.must(.9 <= d[0] <= 1.9 and 1.9 <= d[1] <= 3.9, dict(command=args), 'intervals of 1 s, then 2 s', d)

    def run(self):
        with tempfile.TemporaryDirectory(prefix='pv-') as self.dir:
            try:
                try:
                    cmd = extract.build_cmd()
                except extract.ExtractError as e:
                    cmd = None
                    self.notes.append('the option source does not build by itself: ' + str(e)[-300:])
                exe = extract.build_bin()
                self.refusals(exe)
                for f in (self.both, self.results, self.results, self.results, self.stops, self.services, self.waits, self.restricted, self.agents, self.agents, self.defaults):
                    if self.go():
                        f(exe)
                end = self.deadline - (self.deadline - time.time()) / 2
                while cmd and time.time() < end:
                    self.options(cmd)
                while self.go():
                    self.results(exe)
                    self.agents(exe)
            except Found as e:
                return dict(evaluations=self.n, violation=e.v, notes=self.notes)
        return dict(evaluations=self.n, notes=self.notes)


def free_port():
    with socket.socket() as s:
        s.bind(('127.0.0.1', 0))
        return s.getsockname()[1]


def command(a):
    return Search(a).run()


if __name__ == '__main__':
    import sys
    print(json.dumps(command(dict(seed=int(sys.argv[1]) if len(sys.argv) > 1 else 1, strs=[], ints=[], budget=float(sys.argv[2]) if len(sys.argv) > 2 else 60, why='run')), indent=1, default=str))
