"""Concretising a failed obligation about how the agent secures its connection: the real binary against TLS servers on the loopback interface, with certificates
that it should or should not accept; a server says whether the agent talked to it once the connection was secured."""
import os
import random
import socket
import ssl
import subprocess
import tempfile
import threading
import time
from . import extract
from .command_search import Found, Run


def make_cert(d, name, host, ca=False):
    key, crt = os.path.join(d, name + '.key'), os.path.join(d, name + '.crt')
    subprocess.run(['openssl', 'req', '-x509', '-newkey', 'rsa:2048', '-nodes', '-keyout', key, '-out', crt, '-days', '3650', '-subj', '/CN=' + host,
                    '-addext', 'subjectAltName=DNS:' + host] + ([] if ca else ['-addext', 'basicConstraints=critical,CA:FALSE']),
                   check=True, capture_output=True, timeout=60)
    return crt, key


class Server:
    """takes connections until it is ended; what each peer sent: in clear first, and once secured"""
    def __init__(self, crt, key):
        self.ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
        self.ctx.load_cert_chain(crt, key)
        self.s = socket.socket()
        self.s.bind(('127.0.0.1', 0))
        self.s.listen(8)
        self.s.settimeout(.2)
        self.port = self.s.getsockname()[1]
        self.clear, self.secured, self.tried = [], [], 0
        self.stop = False
        self.t = threading.Thread(target=self.run, daemon=True)
        self.t.start()

    def run(self):
        while not self.stop:
            try:
                c, _ = self.s.accept()
            except OSError:
                continue
            self.tried += 1
            try:
                c.settimeout(3)
                self.clear.append(c.recv(3, socket.MSG_PEEK))
                t = self.ctx.wrap_socket(c, server_side=True)
                self.secured.append(t.recv(4096))
                t.close()
            except OSError:
                pass
            finally:
                c.close()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.stop = True
        self.t.join(5)
        self.s.close()


def tls(a):
    r = random.Random(a['seed'])
    end = time.time() + a['budget']
    exe = extract.build_bin()
    n = 0
    try:
        with tempfile.TemporaryDirectory(prefix='pv-tls-') as d:
            good, other, wrong = make_cert(d, 'good', 'localhost', True), make_cert(d, 'other', 'localhost', True), make_cert(d, 'wrong', 'elsewhere.example', True)
            empty, junk, missing = os.path.join(d, 'empty.pem'), os.path.join(d, 'junk.pem'), os.path.join(d, 'missing.pem')
            open(empty, 'w').close()
            with open(junk, 'w') as f:
                f.write('-----BEGIN CERTIFICATE-----\nnot one\n-----END CERTIFICATE-----\n')
            # (certificate of the server, roots of the system, PROCSTAR_AGENT_CERT, whether the agent may talk to it)
            cases = [(good, None, None, False), (good, None, good[0], True), (good, None, other[0], False), (wrong, None, wrong[0], False), (good, good[0], None, True),
                     (good, good[0], other[0], True), (wrong, wrong[0], None, False), (good, good[0], missing, False), (good, good[0], junk, False), (good, None, missing, False),
                     (good, None, junk, False), (wrong, wrong[0], good[0], False), (good, other[0], None, False), (good, other[0], good[0], True)]
            first = True
            while time.time() < end and (first or a['budget'] > 60):
                r.shuffle(cases)
                first = False
                for cert, system, extra, ok in cases:
                    if time.time() > end:
                        break
                    env = dict(SSL_CERT_FILE=system or empty, SSL_CERT_DIR=os.path.join(d, 'none'))
                    if extra:
                        env['PROCSTAR_AGENT_CERT'] = extra
                    with Server(*cert) as s:
                        args = ['--agent', '--agent-host', 'localhost', '--agent-port', str(s.port), '--connect-count-max', '1', '--connect-interval-start', '0.05']
                        with Run(exe, args, d, env) as p:
                            t = time.time() + 8
                            while time.time() < t and p.p.poll() is None and not s.secured:
                                time.sleep(.02)
                            time.sleep(.1)
                        n += 1
                        inp = {'args': args, 'server certificate': os.path.basename(cert[0]), 'system roots': system and os.path.basename(system),
                               'PROCSTAR_AGENT_CERT': extra and os.path.basename(extra)}
                        plain = [c for c in s.clear if c and c[:1] != b'\x16']
                        if plain:
                            raise Found(inp, 'a TLS handshake before anything else', repr(plain[0]))
                        talked = any(s.secured)
                        if talked != ok:
                            raise Found(inp, 'the agent talks to this server' if ok else 'the agent does not talk to this server',
                                        f'{"talked" if talked else "did not talk"} to it; it said: {p.errors()}')
    except Found as e:
        return dict(evaluations=n, violation=e.v)
    return dict(evaluations=n, note='the real binary against TLS servers', violation=None)


if __name__ == '__main__':
    import sys
    print(tls(dict(seed=int(sys.argv[1]) if len(sys.argv) > 1 else 1, budget=float(sys.argv[2]) if len(sys.argv) > 2 else 60, strs=[], ints=[])))
