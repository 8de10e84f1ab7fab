"""The agent's connection to the server."""
from ..contract import *
from ..std import *
from .procs import *
from .waits import MSG, KEEP_ALIVE
from .requests import INMSG

WSMSG = Ty('adt', 'tokio_tungstenite::tungstenite::Message')
OPT_OUT = opt_ty(MSG)
BYTES = parse_ty('std::vec::Vec<u8>')
CODEC = 'rmp_serde::from_slice and to_vec_named decode and encode the messages (their inverse on the wire is not established here)'


class Codec(Base):
    def overrides(self, E):
        d = super().overrides(E)

        def decode(E, st, c):
            v = val(E, st, c.args[0])
            ok = E.decide(st, E.fresh_const(B, 'decodes'))
            r = E.fresh(st, c.dty.args[0 if ok else 1], 'decoded')
            event(E, st, 'decode', [(E.vec_arr(st, v), v.length()), ok], r)
            return Agg(c.dty, [r], 0 if ok else 1)

        def encode(E, st, c):
            v = val(E, st, c.args[0])
            ok = E.decide(st, E.fresh_const(B, 'encodes'))
            r = E.fresh(st, c.dty.args[0 if ok else 1], 'encoded')
            event(E, st, 'encode', [E.pack(st, v, MSG), ok], r)
            return Agg(c.dty, [r], 0 if ok else 1)
        for n in ('rmp_serde::from_slice', 'decode::from_slice', 'from_slice'):
            d[n] = decode
        for n in ('rmp_serde::to_vec_named', 'encode::to_vec_named', 'to_vec_named'):
            d[n] = encode
        return d

    def bytes_are(self, E, st, v, w):
        i = z3.Int('i')
        v, w = val(E, st, v), val(E, st, w)
        va, vn = v if isinstance(v, tuple) else (E.vec_arr(st, v), v.length())
        wa, wn = w if isinstance(w, tuple) else (E.vec_arr(st, w), w.length())
        return z3.And(vn == wn, z3.Implies(z3.And(i >= 0, i < vn), z3.Select(va, i) == z3.Select(wa, i)))

    def procs_ptr(self, E, st, a):
        return list(fields(E, st, val(E, st, a)).values())[0].ptr


class Handle(Codec):
    """handle: a decodable request is handled once and its reply, if any, sent back encoded; what cannot be decoded is dropped; a ping is answered with
    its payload; nothing else is answered"""
    target = 'agent::handle'
    covers = ('reply', 'silent', 'dropped', 'ping', 'other')
    assumes = ASSUMES + [CODEC, 'proto::handle_incoming as under its own contract']

    def overrides(self, E):
        d = super().overrides(E)

        def handle(E, st, c):
            return PyV('future', name='handle_incoming', args=tuple(c.args), dty=c.dty)
        d['proto::handle_incoming'] = d['handle_incoming'] = handle
        return d

    def setup(self, E, st, f):
        r = self.base_setup(E, st)
        self.wt = f.locals[f.args[1]]
        self.msg = E.fresh(st, self.wt, 'wsmsg')
        self.W = Enum(E, self.wt)
        return [r, self.msg]

    def on_await(self, E, st, fut, rty):
        if fut.a['name'] != 'handle_incoming':
            raise Unsupported('await of ' + fut.a['name'])
        a = fut.a['args']
        ptr = list(fields(E, st, val(E, st, a[0])).values())[0].ptr
        havoc_shared(E, st)
        r = E.fresh(st, rty, 'reply')
        event(E, st, 'handled', [ptr, E.pack(st, a[1], INMSG)], r)
        return r

    def post(self, E, st, ret):
        P = lambda c, n: E.prove(st, c if isinstance(c, z3.ExprRef) else z3.BoolVal(bool(c)), n)
        kind, mf = case(E, st, self.msg)
        _, _, vi, fs = variant(E, st, ret)
        reply = rf = None
        if vi == 0:
            _, _, oi, od = variant(E, st, fs[0])
            if oi == 1:
                reply, rf = case(E, st, od[0])
        dec, hand, enc = ([e for e in st.trace if e[0] == k] for k in ('decode', 'handled', 'encode'))

        def bytes_are(v, w):
            i = z3.Int('i')
            v, w = val(E, st, v), val(E, st, w)
            return z3.And(v.length() == w.length(), z3.Implies(z3.And(i >= 0, i < w.length()), z3.Select(E.vec_arr(st, v), i) == z3.Select(E.vec_arr(st, w), i)))
        if kind != 'Binary':
            P(not hand, f'{kind}: nothing is handled')
            if kind == 'Ping':
                self.covered['ping'] = True
                P(reply == 'Pong', 'ping: answered')
                if reply == 'Pong':
                    P(bytes_are(list(rf.values())[0], list(mf.values())[0]), 'ping: with the same payload')
            else:
                self.covered['other'] = True
                P(reply is None, f'{kind}: not answered')
            return
        P(len(dec) == 1, 'decoded once')
        if len(dec) != 1:
            return
        i = z3.Int('i')
        data = val(E, st, list(mf.values())[0])
        (arr, n), ok = dec[0][1]
        P(z3.And(n == data.length(), z3.Implies(z3.And(i >= 0, i < n), z3.Select(arr, i) == z3.Select(E.vec_arr(st, data), i))), 'exactly the message is decoded')
        if not ok:
            self.covered['dropped'] = True
            P(not hand and vi == 0 and reply is None, 'undecodable: dropped without reply and without ending the connection')
            return
        P(len(hand) == 1, 'a request is handled once')
        if len(hand) != 1:
            return
        P(z3.And(hand[0][1][0] == self.ptr, hand[0][1][1] == E.pack(st, dec[0][2], INMSG)), 'the request decoded, on the set of processes')
        _, _, oi, od = variant(E, st, hand[0][2])
        if oi == 0:
            self.covered['silent'] = True
            P(vi == 0 and reply is None, 'no reply where there is none')
            return
        P(len(enc) == 1, 'the reply is encoded')
        if len(enc) != 1:
            return
        P(enc[0][1][0] == E.pack(st, od[0], MSG), 'the reply encoded is the one to the request')
        if enc[0][1][1]:
            self.covered['reply'] = True
            P(reply == 'Binary', 'the reply is sent back')
            if reply == 'Binary':
                P(bytes_are(list(rf.values())[0], enc[0][2]), 'as encoded')
        else:
            P(reply is None, 'nothing is sent if it cannot be encoded')


CONN = Ty('adt', 'agent::Connection')
REGISTRATION = ('conn', 'proc', 'proc_ids', 'access_token', 'shutdown_state')


class Connect(Codec):
    """connect: over a new connection to the given url, the first message sent is the registration, with the identity, the token, the ids of all processes
    and the shutdown state as they are when it is sent; it succeeds exactly if the first message received confirms the registration, and nothing
    else is sent or received by then.  The subscription it returns was made before any change not in the registration."""
    target = 'agent::connect'
    covers = ('registered', 'failed', 'refused', 'closed', 'undecodable')
    assumes = ASSUMES + [CODEC, 'get_proc_ids gives exactly the ids of the registered processes (C07); a notification after subscribing reaches the subscription']

    def overrides(self, E):
        d = super().overrides(E)

        def opaque(name, key=None):
            def f(E, st, c):
                r = E.fresh(st, c.dty, name)
                event(E, st, name, list(c.args), r)
                return r
            return f

        def result(name):
            def f(E, st, c):
                ok = E.decide(st, E.fresh_const(B, name))
                r = E.fresh(st, c.dty.args[0 if ok else 1], name)
                event(E, st, name, list(c.args) + [ok], r)
                return Agg(c.dty, [r], 0 if ok else 1)
            return f
        d['get_tls_connector'] = d['net::get_tls_connector'] = result('tls')
        d['get_access_token'] = d['net::get_access_token'] = opaque('token')
        d['StreamExt::split'] = opaque('split')

        def ids(E, st, c):
            st.ghost['read'] = z3.BoolVal(True)
            r = E.fresh(st, c.dty, 'ids')
            event(E, st, 'ids', [self.procs_ptr(E, st, c.args[0])], r)
            return r
        d['SharedProcs::get_proc_ids'] = ids

        def shutdown(E, st, c):
            st.ghost['read'] = z3.BoolVal(True)
            r = E.unpack(st, st.ghost['shut'], SHUT)
            event(E, st, 'shutdown', [self.procs_ptr(E, st, c.args[0])], r)
            return r
        d['SharedProcs::get_shutdown'] = shutdown

        def subscribe(E, st, c):
            st.ghost['sub'] = z3.BoolVal(True)
            r = E.fresh(st, c.dty, 'sub')
            event(E, st, 'subscribe', [self.procs_ptr(E, st, c.args[0])], r)
            return r
        d['SharedProcs::subscribe'] = subscribe
        for n in ('connect_async_tls_with_config', 'tls::connect_async_tls_with_config', 'connect::connect_async_tls_with_config', 'tokio_tungstenite::connect_async_tls_with_config'):
            d[n] = lambda E, st, c: PyV('future', name='ws_connect', args=tuple(c.args), dty=c.dty)
        return d

    def setup(self, E, st, f):
        r = self.base_setup(E, st)
        self.cterm = E.fresh(st, CONN, 'connection')
        self.c0 = E.pack(st, self.cterm, CONN)
        st.ghost['read'] = st.ghost['sub'] = z3.BoolVal(False)
        return [E.ref_to(st, self.cterm, CONN), r]

    def on_await(self, E, st, fut, rty):
        a, n = fut.a['args'], fut.a['name']
        if n not in ('ws_connect', 'ws_send', 'ws_next', 'ws_close'):
            raise Unsupported('await of ' + n)
        E.prove(st, z3.Implies(st.ghost['read'], st.ghost['sub']), 'subscribed before what is registered can change')
        extra = []
        if n == 'ws_send':
            _, m = fut.a['args'][0], case(E, st, fut.a['args'][1])
            extra = [m]
        if n == 'ws_connect':
            E.prove(st, E.pack(st, val(E, st, a[0]), fty(E, CONN, 'url')) == field(E, CONN, self.c0, 'url'), 'connects to the url given')
            tls = [e for e in st.trace if e[0] == 'tls' and e[1][-1]]
            _, _, oi, od = variant(E, st, a[3])
            kind, kf = case(E, st, od[0]) if oi == 1 else (None, {})
            x = list(kf.values())[0] if kf else None
            E.prove(st, z3.Or([z3.BoolVal(False)] + [E.pack(st, x, e[2].ty) == E.pack(st, e[2], e[2].ty) for e in tls if kind == 'NativeTls']),
                    'secured by the connector made for it')
        event(E, st, 'await ' + n, list(a), extra)
        if n == 'ws_next':
            r = E.fresh(st, rty, 'received')
            event(E, st, 'received', [], r)
        elif n == 'ws_close':
            r = E.fresh(st, rty, 'closed')
        else:
            ok = E.decide(st, E.fresh_const(B, n))
            v = E.fresh(st, rty.args[0 if ok else 1], n)
            event(E, st, n + ' done', [ok], v)
            r = Agg(rty, [v], 0 if ok else 1)
        havoc_shared(E, st)
        s0 = st.ghost['shut']
        st.ghost['shut'] = E.fresh_const(E.sort(SHUT), 'shut')
        st.assume(z3.Implies(self.Sh.is_(s0, 'Done'), self.Sh.is_(st.ghost['shut'], 'Done')))
        return r

    def post(self, E, st, ret):
        P = lambda c, n: E.prove(st, c if isinstance(c, z3.ExprRef) else z3.BoolVal(bool(c)), n)
        _, _, vi, fs = variant(E, st, ret)
        ev = lambda k: [(i, e) for i, e in enumerate(st.trace) if e[0] == k]
        sent = ev('await ws_send')
        conn = ev('ws_connect done')
        got = ev('received')
        encoded = ev('encode')
        # what was sent
        if sent:
            P(len(sent) == 1, 'nothing but the registration is sent')
            P(conn and conn[0][1][1][0] and conn[0][0] < sent[0][0], 'sent over a connection')
            P(not got or got[0][0] > sent[0][0], 'the registration is the first message')
            kind, mf = sent[0][1][2][0]
            P(kind == 'Binary', 'sent as a binary message')
            P(len(encoded) == 1 and encoded[0][1][1][1], 'one message is encoded')
            if kind == 'Binary' and len(encoded) == 1:
                P(self.bytes_are(E, st, list(mf.values())[0], encoded[0][1][2]), 'the encoded one is sent')
        if encoded:
            M = Enum(E, MSG)
            t = encoded[0][1][1][0]
            P(M.is_(t, 'Register'), 'it is a registration')
            names = [n for n, _ in M.info.variants[M.vi['Register']][2]]
            F = lambda n: M.f(t, 'Register', names.index(n))
            P(F('conn') == field(E, CONN, self.c0, 'conn'), 'with the identity of this connection')
            P(F('proc') == field(E, CONN, self.c0, 'proc'), 'and of this process')
            # the last of each before the encoding, with no wait between it and the sending
            for n, k, what in (('proc_ids', 'ids', 'the ids of all processes'), ('access_token', 'token', 'the token'), ('shutdown_state', 'shutdown', 'the shutdown state')):
                es = [(i, e) for i, e in ev(k) if i < encoded[0][0]]
                P(bool(es), f'{what} is read')
                if es:
                    i, e = es[-1]
                    ty = [ty for m, ty in M.info.variants[M.vi['Register']][2] if m == n][0]
                    P(F(n) == E.pack(st, e[2], ty), f'and {what}')
                    if k != 'token':
                        P(e[1][0] == self.ptr, f'{what}: of these processes')
                        P(not any(x[0].startswith('await') for x in st.trace[i:encoded[0][0]]), f'{what}: as it is then')
                        if sent:
                            P(not any(x[0].startswith('await') for x in st.trace[encoded[0][0]:sent[0][0]]), f'{what}: as it is when sent')
        # the outcome
        ok = False
        P(len(got) <= 1, 'one message is received')
        if got:
            _, _, oi, od = variant(E, st, got[0][1][2])
            if oi == 0:
                self.covered['closed'] = True
            else:
                _, _, ri, rd = variant(E, st, od[0])
                if ri == 0:
                    kind, mf = case(E, st, rd[0])
                    dec = ev('decode')
                    if kind == 'Binary':
                        P(len(dec) == 1, 'the message received is decoded')
                        if len(dec) == 1:
                            P(self.bytes_are(E, st, dec[0][1][1][0], list(mf.values())[0]), 'exactly it')
                            if dec[0][1][1][1]:
                                k2, _ = case(E, st, dec[0][1][2])
                                ok = k2 == 'Registered'
                                if not ok:
                                    self.covered['refused'] = True
                            else:
                                self.covered['undecodable'] = True
        if not got:
            self.covered['failed'] = True
        P((vi == 0) == ok, 'succeeds exactly if the registration is confirmed')
        P(not got or (sent and all(e[1][0] for _, e in ev('ws_send done'))), 'nothing is received unless the registration was sent')
        if vi == 0:
            self.covered['registered'] = True
            subs = ev('subscribe')
            P(len(subs) == 1, 'one subscription')
            tup = val(E, st, fs[0])
            parts = tup.fields if isinstance(tup, Agg) else []
            sp = ev('split')
            P(len(sp) == 1, 'the connection is split once')
            for x in parts:
                ty = getattr(x, 'ty', None)
                v = val(E, st, x)
                k = str(getattr(v, 'ty', None))
                if 'NotificationSub' in k and subs:
                    P(E.pack(st, v, v.ty) == E.pack(st, subs[0][1][2], v.ty), 'that subscription is returned')
                    P(subs[0][1][1][0] == self.ptr, 'to these processes')
                elif k == 'shutdown::State' and encoded:
                    P(E.pack(st, v, SHUT) == F('shutdown_state'), 'the shutdown state registered is returned')
                elif 'SplitSink' in k or 'SplitStream' in k:
                    pair = list(fields(E, st, val(E, st, sp[0][1][2])).values())
                    P(E.pack(st, v, v.ty) == E.pack(st, pair[0 if 'SplitSink' in k else 1], v.ty), 'the connection registered is returned')


CFG = Ty('adt', 'agent::ConnectConfig')
SELECT = 'select! runs the closure tokio makes of it, with any of its futures ready; a receive from the websocket or a subscription loses nothing when not chosen'


class Run(Codec):
    """run: attempts one connection after another until shutdown is complete or the allowed number of attempts in a row has failed; after a failure it waits
    the current interval, which grows by the factor to the maximum and starts over with a connection.  While connected, every message received is
    handled once and its reply sent, and every notification is turned into its message and sent; the connection is left only when it has ended or
    failed, or notifications were missed; nothing is waited for once shutdown is known to be complete."""
    target = 'agent::run'
    covers = ('ends', 'gives up', 'waits', 'reply', 'notification')
    budget = 600
    assumes = ASSUMES + [CODEC, SELECT, 'agent::connect, agent::handle, NotificationSub::recv and notification_to_message as under their own contracts',
                         'the multiplier is not negative, and fewer than 2^63 attempts fail', 'floating-point and durations are treated as real numbers']

    FLAGS = ('failed', 'conn', 'regdone', 'donenote', 'gone', 'unhandled', 'unnoted', 'owed', 'owedrsp', 'broken', 'encoded')

    def overrides(self, E):
        d = super().overrides(E)

        def fut(name):
            return lambda E, st, c: PyV('future', name=name, args=tuple(c.args), dty=c.dty)
        d['connect'] = d['agent::connect'] = fut('connect')
        d['handle'] = d['agent::handle'] = fut('handle')
        d['NotificationSub::recv'] = fut('recv')

        def shutdown(E, st, c):
            E.prove(st, self.procs_ptr(E, st, c.args[0]) == self.ptr, 'the shutdown state of these processes')
            return E.unpack(st, st.ghost['shut'], SHUT)
        d['SharedProcs::get_shutdown'] = shutdown
        d['SharedProcs::subscribe'] = lambda E, st, c: E.fresh(st, c.dty, 'othersub')

        def message(E, st, c):
            g = st.ghost
            E.prove(st, self.procs_ptr(E, st, c.args[0]) == self.ptr, 'messages are of these processes')
            E.prove(st, z3.And(g['unnoted'], E.pack(st, val(E, st, c.args[1]), NOTI) == g['noti']), 'the message is of the notification received')
            g['unnoted'] = z3.BoolVal(False)
            if E.decide(st, E.fresh_const(B, 'has message')):
                m = E.fresh(st, c.dty.args[0], 'message')
                g['owed'] = z3.BoolVal(True)
                g['msg'] = E.pack(st, m, MSG)
                return Agg(c.dty, [m], 1)
            return Agg(c.dty, [], 0)
        d['notification_to_message'] = d['agent::notification_to_message'] = message

        def encode(E, st, c):
            g = st.ghost
            v = val(E, st, c.args[0])
            E.prove(st, z3.And(g['owed'], E.pack(st, v, MSG) == g['msg']), 'what is sent is the message of the notification')
            if E.decide(st, E.fresh_const(B, 'encodes')):
                r = E.fresh(st, c.dty.args[0], 'encoding')
                g['encoded'] = z3.BoolVal(True)
                g['enc_n'] = r.length()
                g['enc_a'] = E.vec_arr(st, r)
                return Agg(c.dty, [r], 0)
            g['owed'] = z3.BoolVal(False)
            g['broken'] = z3.BoolVal(True)
            return Agg(c.dty, [E.fresh(st, c.dty.args[1], 'encerr')], 1)
        for n in ('rmp_serde::to_vec_named', 'encode::to_vec_named', 'to_vec_named'):
            d[n] = encode
        return d

    def setup(self, E, st, f):
        self.base_setup(E, st)
        g = st.ghost
        for k in self.FLAGS:
            g[k] = z3.BoolVal(False)
        self.conn = E.fresh(st, CONN, 'connection')
        self.c0 = E.pack(st, self.conn, CONN)
        cfg = E.fresh(st, CFG, 'cfg')
        ct = E.pack(st, cfg, CFG)
        self.start, self.mult, self.max, self.count = (field(E, CFG, ct, n) for n in ('interval_start', 'interval_mult', 'interval_max', 'count_max'))
        top = z3.RealVal(1 << 64)
        st.assume(z3.And(self.start >= 0, self.start < top, self.max >= 0, self.max < top, self.mult >= 0))
        g['fails'] = z3.IntVal(0)
        g['wait'] = self.start
        g['noti'] = z3.Const('noti0', E.sort(NOTI))
        g['msg'] = z3.Const('msg0', E.sort(MSG))
        g['enc_n'], g['enc_a'] = z3.IntVal(0), z3.K(I, z3.IntVal(0))
        for k in ('wsmsg', 'rsp'):
            g[k] = z3.Const(k + '0', E.sort(WSMSG))
        g['err'] = z3.Const('err0', E.sort(Ty('adt', 'err::Error')))
        body = E.load(self.target + '::{closure#0}')
        for w in ('SplitSink', 'SplitStream', 'NotificationSub'):
            ty = [t for t in body.locals.values() if t is not None and t.kind == 'adt' and t.last == w] if body is not None else []
            if not ty:
                raise Unsupported(f'no {w} in run')
            g[w] = z3.Const(w + '0', E.sort(ty[0]))
        return [self.conn, Agg(SPROCS, [RcV(PROCS, self.ptr)]), E.ref_to(st, cfg, CFG)]

    def idle(self, E, st, what):
        g = st.ghost
        E.prove(st, z3.Not(g['unhandled']), f'{what}: the message received was handled')
        E.prove(st, z3.Not(g['unnoted']), f'{what}: the notification received was turned into its message')
        E.prove(st, z3.Not(g['owed']), f'{what}: the message of the notification was sent')
        E.prove(st, z3.Not(g['owedrsp']), f'{what}: the reply was sent')

    def on_select(self, E, st):
        g = st.ghost
        self.idle(E, st, 'next')
        E.prove(st, g['conn'], 'waits for messages only while connected')
        E.prove(st, z3.Not(g['regdone']), 'waits for nothing more if shutdown was complete at registration')
        E.prove(st, z3.Not(g['donenote']), 'waits for nothing more once shutdown is announced complete')
        E.prove(st, z3.Not(g['gone']), 'waits for nothing more on a connection that has ended or missed notifications')

    def tick(self, E, st):
        havoc_shared(E, st)
        g = st.ghost
        s0 = g['shut']
        g['shut'] = E.fresh_const(E.sort(SHUT), 'shut')
        st.assume(z3.Implies(self.Sh.is_(s0, 'Done'), self.Sh.is_(g['shut'], 'Done')))

    def on_await(self, E, st, fut, rty):
        g = st.ghost
        T, F = z3.BoolVal(True), z3.BoolVal(False)
        a, n = fut.a['args'], fut.a['name']
        if n != 'sleep':
            E.prove(st, z3.Not(g['failed']), 'waits after a failed attempt before anything else')
        if n == 'connect':
            self.idle(E, st, 'reconnecting')
            E.prove(st, z3.Not(self.Sh.is_(g['shut'], 'Done')), 'attempts no connection once shutdown is complete')
            E.prove(st, z3.Implies(g['conn'], z3.Or(g['broken'], g['gone'])), 'leaves no connection that has not ended or failed')
            E.prove(st, E.pack(st, val(E, st, a[0]), CONN) == self.c0, 'connects as given')
            E.prove(st, self.procs_ptr(E, st, a[1]) == self.ptr, 'with the processes given')
            self.tick(E, st)
            for k in ('conn', 'regdone', 'donenote', 'gone', 'broken'):
                g[k] = F
            if E.decide(st, E.fresh_const(B, 'connects')):
                r = E.fresh(st, rty.args[0], 'connected')
                reg, seen = None, set()
                parts = fields(E, st, r)
                for x in parts.values():
                    v = val(E, st, x)
                    k = str(getattr(v, 'ty', None))
                    if k == 'shutdown::State':
                        reg = E.pack(st, v, SHUT)
                    for w in ('SplitSink', 'SplitStream', 'NotificationSub'):
                        if w in k:
                            seen.add(w)
                            g[w] = E.pack(st, v, v.ty)
                if reg is None or len(seen) < 3:
                    raise Unsupported('result of connect')
                st.assume(z3.Implies(self.Sh.is_(reg, 'Done'), self.Sh.is_(g['shut'], 'Done')))
                g['regdone'] = simp(self.Sh.is_(reg, 'Done'))
                g['conn'] = T
                g['fails'] = z3.IntVal(0)
                g['wait'] = self.start
                return Agg(rty, [r], 0)
            g['fails'] = simp(g['fails'] + 1)
            st.assume(g['fails'] < 1 << 63)
            g['failed'] = T
            e = E.fresh(st, rty.args[1], 'connect error')
            g['err'] = E.pack(st, e, rty.args[1])
            return Agg(rty, [e], 1)
        if n == 'sleep':
            E.prove(st, g['failed'], 'waits only after a failed attempt')
            E.prove(st, g['fails'] < self.count, 'gives up once the allowed number of attempts has failed')
            E.prove(st, val(E, st, a[0]) == g['wait'], 'for the current interval')
            self.covered['waits'] = True
            self.tick(E, st)
            g['wait'] = simp(z3.If(g['wait'] * self.mult > self.max, self.max, g['wait'] * self.mult))
            g['failed'] = F
            return unit()
        E.prove(st, g['conn'], f'{n} only while connected')
        if n in ('ws_next', 'recv', 'ws_send', 'ws_close'):
            w = {'ws_next': 'SplitStream', 'recv': 'NotificationSub'}.get(n, 'SplitSink')
            v = val(E, st, a[0])
            E.prove(st, E.pack(st, v, v.ty) == g[w], f'{n} on the current connection')
        if n == 'ws_next':
            self.tick(E, st)
            r = E.fresh(st, rty, 'received')
            _, _, oi, od = variant(E, st, r)
            if oi == 0:
                g['gone'] = T
                return r
            _, _, ri, rd = variant(E, st, od[0])
            if ri == 1:
                g['gone'] = T
                return r
            kind, _ = case(E, st, rd[0])
            g['wsmsg'] = E.pack(st, rd[0], WSMSG)
            if kind == 'Close':
                g['gone'] = T
            else:
                g['unhandled'] = T
            return r
        if n == 'recv':
            self.tick(E, st)
            if not E.decide(st, E.fresh_const(B, 'notified')):
                g['gone'] = T
                return Agg(rty, [], 0)
            v = E.fresh(st, NOTI, 'noti')
            N, t = self.N, v.term
            done = z3.And(N.is_(t, 'ShutDown'), self.Sh.is_(N.f(t, 'ShutDown'), 'Done'))
            st.assume(z3.Implies(done, self.Sh.is_(g['shut'], 'Done')))
            g['donenote'] = simp(done)
            g['noti'] = t
            g['unnoted'] = T
            return Agg(rty, [v], 1)
        if n == 'handle':
            E.prove(st, self.procs_ptr(E, st, a[0]) == self.ptr, 'messages are handled on these processes')
            v = val(E, st, a[1])
            E.prove(st, z3.And(g['unhandled'], E.pack(st, v, WSMSG) == g['wsmsg']), 'handles the message received, once')
            g['unhandled'] = F
            self.tick(E, st)
            r = E.fresh(st, rty, 'handled')
            _, _, ri, rd = variant(E, st, r)
            if ri == 1:
                g['broken'] = T
                return r
            _, _, oi, od = variant(E, st, rd[0])
            if oi == 1:
                g['owedrsp'] = T
                g['rsp'] = E.pack(st, od[0], WSMSG)
            return r
        if n == 'ws_send':
            v = val(E, st, a[1])
            if E.decide(st, g['owedrsp']):
                E.prove(st, E.pack(st, v, WSMSG) == g['rsp'], 'the reply sent is the one to the message')
                g['owedrsp'] = F
                self.covered['reply'] = True
            else:
                E.prove(st, z3.And(g['owed'], g['encoded']), 'nothing else is sent')
                kind, mf = case(E, st, v)
                E.prove(st, z3.BoolVal(kind == 'Binary'), 'a message of a notification is sent as binary')
                if kind == 'Binary':
                    E.prove(st, self.bytes_are(E, st, list(mf.values())[0], (g['enc_a'], g['enc_n'])), 'as encoded')
                g['owed'] = g['encoded'] = F
                self.covered['notification'] = True
            self.tick(E, st)
            if E.decide(st, E.fresh_const(B, 'sends')):
                return Agg(rty, [unit()], 0)
            g['broken'] = T
            return Agg(rty, [E.fresh(st, rty.args[1], 'send error')], 1)
        if n == 'ws_close':
            E.prove(st, z3.Or(g['gone'], g['broken']), 'closes only a connection that has ended or failed')
            self.tick(E, st)
            g['broken'] = T
            return E.fresh(st, rty, 'closed')
        raise Unsupported('await of ' + n)

    def loop_inv(self, L):
        E = L.E
        out = {}
        for k in self.FLAGS:
            for v in (True, False):
                out[f'{k} {v}'] = lambda st, k=k, v=v: st.ghost[k] == z3.BoolVal(v)
        out['fails'] = lambda st: st.ghost['fails'] >= 0
        out['wait'] = lambda st: z3.And(st.ghost['wait'] >= 0, st.ghost['wait'] < z3.RealVal(1 << 64))
        out['left'] = lambda st: z3.Implies(st.ghost['conn'], z3.Or(st.ghost['broken'], st.ghost['gone'], self.Sh.is_(st.ghost['shut'], 'Done')))
        done = lambda st: self.Sh.is_(st.ghost['shut'], 'Done')
        out['done'] = lambda st: z3.Implies(z3.Or(st.ghost['regdone'], st.ghost['donenote']), done(st))
        out['below'] = lambda st: z3.Implies(z3.Not(st.ghost['failed']), z3.Or(st.ghost['fails'] == 0, st.ghost['fails'] < self.count))
        for k in L.values((z3.ExprRef,)):
            v = L.get(L.entry, k)
            nm = f'{k[1]}{k[2] if len(k) > 2 else ""}'
            if z3.is_bool(v) and k[0] != 'g':
                out[f'done {nm}'] = lambda st, k=k: z3.Implies(L.get(st, k), done(st))
                out[f'known {nm}'] = lambda st, k=k: z3.Implies(z3.And(st.ghost['conn'], z3.Or(st.ghost['regdone'], st.ghost['donenote'])), L.get(st, k))
            elif z3.is_int(v) and k[0] != 'g':
                out[f'count {nm}'] = lambda st, k=k: L.get(st, k) == st.ghost['fails']
            elif z3.is_real(v) and k[0] != 'g':
                out[f'wait {nm}'] = lambda st, k=k: L.get(st, k) == st.ghost['wait']
        for k in L.values((OpaqueV, Sym, Agg)):
            v = L.get(L.entry, k)
            for w in ('SplitSink', 'SplitStream', 'NotificationSub'):
                if w in str(getattr(v, 'ty', '')) and w in L.entry.ghost:
                    out[f'{w} {k}'] = lambda st, k=k, w=w: E.pack(st, L.get(st, k), L.get(st, k).ty) == st.ghost[w]
            if str(getattr(v, 'ty', '')) == 'agent::Connection':
                out[f'connection {k}'] = lambda st, k=k: E.pack(st, L.get(st, k), CONN) == self.c0
        return out

    def post(self, E, st, ret):
        g = st.ghost
        _, _, vi, fs = variant(E, st, ret)
        self.idle(E, st, 'end')
        if vi == 0:
            self.covered['ends'] = True
            E.prove(st, self.Sh.is_(g['shut'], 'Done'), 'ends only once shutdown is complete')
            E.prove(st, z3.Not(g['failed']), 'or gives up after a failure')
        else:
            self.covered['gives up'] = True
            E.prove(st, z3.And(g['failed'], self.count <= g['fails']), 'gives up only when the allowed number of attempts in a row has failed')
            E.prove(st, E.pack(st, val(E, st, fs[0]), val(E, st, fs[0]).ty) == g['err'], 'with the error of the last')


class ConnectionNew(Contract):
    """Connection::new: the url and ids given, a new id and the default group where none is given, the restriction and the process as they are"""
    target = 'agent::Connection::new'
    covers = ('id given', 'id made', 'group given', 'group default')

    def overrides(self, E):
        def opaque(n):
            def f(E, st, c):
                r = E.fresh(st, c.dty, n)
                event(E, st, n, list(c.args), r)
                return r
            return f
        d = {}
        for n, k in (('proto::get_default_conn_id', 'newid'), ('procs::get_restricted_exe', 'restricted'), ('ProcessInfo::new_self', 'self')):
            d[n] = d[n.split('::')[-1]] = opaque(k)
        d['ProcessInfo::new_self'] = d['new_self'] = opaque('self')
        return d

    def setup(self, E, st, f):
        T = [f.locals[a] for a in f.args]
        self.url = E.fresh(st, T[0].args[0], 'url')
        self.ids = [E.fresh(st, t, 'id') for t in T[1:]]
        return [E.ref_to(st, self.url, T[0].args[0])] + self.ids

    def post(self, E, st, ret):
        t = E.pack(st, ret, CONN)
        F = lambda n: field(E, CONN, t, n)
        ct = fty(E, CONN, 'conn')
        C = lambda n: field(E, ct, F('conn'), n)
        ev = lambda k: [e[2] for e in st.trace if e[0] == k]
        E.prove(st, F('url') == E.pack(st, self.url, fty(E, CONN, 'url')), 'the url given')
        for n, given, what in (('conn_id', self.ids[0], 'id'), ('group_id', self.ids[1], 'group')):
            _, _, vi, fs = variant(E, st, given)
            if vi == 1:
                self.covered[what + ' given'] = True
                E.prove(st, C(n) == val(E, st, fs[0]), f'the {what} given')
            elif what == 'id':
                self.covered['id made'] = True
                E.prove(st, z3.Or([z3.BoolVal(False)] + [C(n) == val(E, st, x) for x in ev('newid')]), 'a new id')
            else:
                self.covered['group default'] = True
                E.prove(st, C(n) == z3.StringVal('default'), 'the default group')
        E.prove(st, z3.Or([z3.BoolVal(False)] + [C('restricted_exe') == E.pack(st, x, fty(E, ct, 'restricted_exe')) for x in ev('restricted')]), 'the restriction as it is')
        E.prove(st, z3.Or([z3.BoolVal(False)] + [F('proc') == E.pack(st, x, fty(E, CONN, 'proc')) for x in ev('self')]), 'this process')


CONTRACTS = [Handle, Connect, Run, ConnectionNew]
