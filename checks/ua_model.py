"""One real user agent over the real transaction layer, driven by a scripted peer and
owner, in lockstep with a reference automaton of the call leg (C05, C06, C07, C09)."""
import re, hashlib
from common import *

sim.std_setup()
from sippy.UA import UA
from sippy.CCEvents import (CCEventTry, CCEventRing, CCEventConnect, CCEventPreConnect, CCEventFail, CCEventRedirect,
                            CCEventDisconnect, CCEventUpdate, CCEventInfo)
from sippy.MsgBody import MsgBody
from sippy.SipAddress import SipAddress
from sippy.SipURL import SipURL
from sippy.SipHeader import SipHeader
from sippy.SipReason import SipReason
from sippy.SipContact import SipContact
from sippy.SipReferTo import SipReferTo
from sippy.SipAlso import SipAlso
from sippy.Exceptions.SdpParseError import SdpParseError
sim.seed_tokens()

PEER = ('192.0.2.9', 5070)
PCONTACT = 'sip:peer@192.0.2.50:5066'
PCA = ('192.0.2.50', 5066)
SDP = {k: minisip.sdp(host='192.0.2.%d' % (60 + i), port=7000 + 10 * i, ver=i + 1) for i, k in enumerate('ABCDEFGH')}
RSN = 'Q.850;cause=17;text="why"'
SDP['X'] = SDP['A'] + 'a=bad\r\n'          # what the SDP handler refuses
RNA = 'SIP;cause=488;text="refused"'
RSN2 = 'SIP;cause=200;text="done elsewhere"'


def uaddr(u):
    """where a request for this URI is sent"""
    u = re.sub(r'^sips?:', '', u).split(';')[0].split('?')[0]
    if '@' in u:
        u = u.split('@', 1)[1]
    h, _, p = u.partition(':')
    return h, int(p or 5060)


def norm(u):
    p = u.split(';')
    return p[0], tuple(sorted(p[1:]))


def body_of(x):
    return None if x is None else str(x)


def evname(e):
    return e.__class__.__name__[7:]


def relayed(t):
    """what the SDP handler makes of a body"""
    return t + 'a=via:relay\r\n'


def target(x):
    return minisip.uri(str(x))


def chal_parts(v):
    """(scheme, {name: value}) of a challenge or credentials header, quotes respected"""
    scheme, rest = v.strip().split(' ', 1)
    d = {}
    for n, q, x in re.findall(r'\s*([\w-]+)=(?:"([^"]*)"|([^,"\s]*)),?', rest):
        if n in d:
            raise Violation('%s given twice in %s' % (n, v))
        d[n] = q or x
    return scheme, d


HF = {'MD5': 'md5', 'SHA-256': 'sha256', 'SHA-512-256': 'sha512_256'}


def digest(user, pwd, method, uri, d, body):
    alg = d.get('algorithm', 'MD5')
    sess = alg.endswith('-sess')
    h = lambda *a: hashlib.new(HF[alg[:-5] if sess else alg], ':'.join(a).encode()).hexdigest()
    ha1 = h(user, d['realm'], pwd)
    if sess:
        ha1 = h(ha1, d['nonce'], d['cnonce'])
    if d.get('qop') == 'auth-int':
        ha2 = h(method, uri, h(body))
    else:
        ha2 = h(method, uri)
    if 'qop' in d:
        return h(ha1, d['nonce'], d['nc'], d['cnonce'], d['qop'], ha2)
    return h(ha1, d['nonce'], ha2)


# label -> (challenge headers, index of the one to be answered or None)
CHALS = {
    'plain': (['Digest realm="r", nonce="n0"'], 0),
    'md5': (['Digest realm="a, b=c", nonce="n=1,x", algorithm=MD5, qop="auth"'], 0),
    'int': (['Digest realm="r", nonce="n2==", algorithm=MD5, qop="auth-int", opaque="op/=1"'], 0),
    'both': (['Digest realm="r", nonce="n3", algorithm=MD5, qop="auth,auth-int", opaque="5ccc"'], 0),
    'sha': (['Digest realm="r", nonce="n4", algorithm=SHA-256, qop="auth"'], 0),
    'sess': (['Digest realm="r", nonce="n5", algorithm=MD5-sess, qop="auth-int"'], 0),
    's512': (['Digest realm="r", nonce="n6", algorithm=SHA-512-256-sess, qop=auth, stale=FALSE, domain="sip:x"'], 0),
    'ib': (['Digest realm="r", nonce="nd", algorithm=MD5, qop="auth-int,auth"'], 0),
    'lastqop': (['Digest realm="r", nonce="ne", qop="weird, auth-int"'], 0),
    'foo': (['Digest realm="r", nonce="n7", algorithm=FOO, qop="auth"'], None),
    'qop': (['Digest realm="r", nonce="n8", algorithm=MD5, qop="weird"'], None),
    'second': (['Digest realm="r0", nonce="n9", algorithm=FOO, qop="auth"', 'Digest realm="r1", nonce="n9b", algorithm=MD5, qop="auth"'], 1),
    'first': (['Digest realm="r0", nonce="na", algorithm=SHA-256, qop="auth"', 'Digest realm="r1", nonce="nb", algorithm=MD5, qop="auth"'], 0),
    'none': ([], None),
    'other': (['Digest realm="r", nonce="nc", algorithm=MD5, qop="auth"'], None),
}

OVER = ('CANCELLING', 'FAILED', 'DISCONNECTED', 'DEAD')


class Held(Exception):
    pass


class Refused(Exception):
    pass


class Harness:
    def __init__(self, cfg):
        self.w = w = sim.World()
        self.gc = {}
        self.tm = sim.mk_stm(w, self.new_req, config=self.gc)
        self.base = len(w.timers)
        w.advance(2.1)
        self.events = []
        self.cbs = []
        self.nsent = 0
        self.seen_raw = set()
        self.invites_in = {}
        kw = dict(cfg.get('ua', {}))
        self.attrs = dict(kw.pop('attrs', {}))
        l = cfg.get('lim', {})
        for k, n in (('expire', 'expire_time'), ('noprog', 'no_progress_time'), ('credit', 'credit_time')):
            if l.get(k) is not None:
                kw[n] = l[k]
        if l.get('noreply') is not None:
            self.attrs['no_reply_time'] = l['noreply']
        cbk = dict(conn_cbs=(lambda ua, rtime, origin: self.cb('conn', rtime, origin, None),),
                   disc_cbs=(lambda ua, rtime, origin, code=None: self.cb('disc', rtime, origin, code),),
                   fail_cbs=(lambda ua, rtime, origin, code: self.cb('fail', rtime, origin, code),),
                   ring_cbs=(lambda ua, rtime, origin, code: self.cb('ring', rtime, origin, code),),
                   dead_cbs=(lambda ua: self.cb('dead', None, None, None),))
        if cfg['role'] == 'uac':
            kw['nh_address'] = PEER
        self.ua = UA(self.gc, self.on_event, **cbk, **kw)
        for k, v in self.attrs.items():
            setattr(self.ua, k, v)
        self.role = cfg['role']
        self.held = []
        self.sdpmode = cfg.get('sdp')
        if self.sdpmode:
            self.ua.on_remote_sdp_change = self.remote_sdp
            self.ua.on_local_sdp_change = self.local_sdp

    def convert(self, body):
        body.content = relayed(str(body))
        body.parsed = False
        body.needs_update = False
        return body

    def remote_sdp(self, body, done):
        if 'a=bad' in str(body):
            raise SdpParseError('refused')
        if self.sdpmode == 'sync':
            return self.convert(body)
        self.held.append((body, done))

    def local_sdp(self, body, done):
        if 'a=bad' in str(body):
            raise SdpParseError('refused')
        if self.sdpmode == 'sync':
            done(self.convert(body))
            return
        self.held.append((body, done))

    def cb(self, name, rtime, origin, code):
        self.cbs.append((sim.now(), name, None if rtime is None else rtime.monot, origin, code))

    def new_req(self, req, sip_t):
        if req.getHFBody('to').getTag() is not None:
            return (req.genResponse(481, 'Call Leg/Transaction Does Not Exist'), None, None)
        if req.getMethod() == 'INVITE':
            return self.ua.recvRequest(req, sip_t)
        return (req.genResponse(501, 'Not Implemented'), None, None)

    def on_event(self, event, ua):
        self.events.append((sim.now(), event))

    def new_tx(self):
        out = []
        for t, raw, dest, srv in self.w.sent[self.nsent:]:
            out.append((t, raw, dest))
        self.nsent = len(self.w.sent)
        return out


class Run:
    """real leg + reference leg + stimuli"""

    def __init__(self, cfg, ctx):
        self.cfg = cfg
        self.ctx = ctx
        self.h = Harness(cfg)
        self.ua, self.tm, self.w = self.h.ua, self.h.tm, self.h.w
        self.hist = []
        self.role = cfg['role']
        self.lim = dict(cfg.get('lim', {}))
        self.attrs = dict(cfg.get('ua', {})).get('attrs', {})
        self.st = 'IDLE'
        self.t = {}             # armed reference timers: name -> time
        self.exp = {'ev': [], 'tx': [], 'cb': []}
        self.origin = 'callee' if self.role == 'uac' else 'caller'
        self.lSDP = self.rSDP = None
        self.last_scode = 100
        self.now = sim.now()
        self.pending = False            # late offer, ACK withheld
        self.inv = None                 # INVITE being worked on, from the wire (uac: ours; uas: peer's)
        self.txn = None                 # our INVITE transaction: None/'TRYING'/'PROC'/'OVER'
        self.cancel_deferred = False
        self.pcseq = 100                # peer's CSeq
        self.n = 0
        self.cancelreason = None
        self.seen = set()
        self.credit_at = None
        self.credits = {}
        self.autoack = cfg.get('autoack', True)
        self.finals = {}                # cseq -> raw of our final answer to a peer INVITE awaiting ACK
        self.wait_ack = False           # uas: PreConnect sent
        self.term = 0
        self.final_seen = None
        self.reqs_in = {}
        self.cancelled = set()
        self.est = False
        self.ltag = self.rtag = None
        self.sdpmode = cfg.get('sdp')
        self.held = []
        self.seq = self.elast = 0
        self.setup_t = self.conn_t = self.disc_t = None
        self.ka = self.katx = None      # keepalive in progress
        self.kadef = False
        self.kas = 0
        self.kaint = self.attrs.get('kaInterval', 0)
        self.kagen = 0
        self.chal = None                # challenge already answered in this attempt
        self.xh = dict(cfg.get('xh', ()))
        self.cred = cfg.get('ua', {}).get('username') is not None
        self.rr = cfg.get('rr', ())
        self.pcontact = cfg.get('contact', PCONTACT)
        self.dlg = None
        self.invs = {}
        self.forked = cfg.get('forked')

    @property
    def st(self):
        return self._st

    @st.setter
    def st(self, v):
        old = getattr(self, '_st', None)
        self._st = v
        if not getattr(self, 'kaint', 0) or old == v and v != 'CONNECTED':
            return
        if old == 'CONNECTED' and v != 'CONNECTED':
            self.stop('ka')
            if self.ka is not None and self.katx in ('TRYING', 'PROC') and not self.kaold:
                if self.katx == 'PROC':
                    self.tx('CANCEL', cseq=self.ka.cseq[0])
                else:
                    self.kadef = True
                self.kaold = True
        if v == 'CONNECTED' and old != v:
            self.kas = 0
            self.katry = False
            self.kagen += 1
            self.t['ka'] = self.now + self.kaint

    kaold = False

    # ------------------------------------------------------------ expectations
    def ev(self, name, *data, **kw):
        self.seq += 1
        self.elast = self.seq
        self.exp['ev'].append((self.now, name, data, kw))

    def rev(self, name, body, mk, **kw):
        """event carrying a session description from the peer"""
        if body is not None and self.sdpmode and self.st not in OVER:
            if self.sdpmode == 'async':
                self.seq += 1
                self.held.append(('r', self.seq, name, mk, body, kw, self.st == 'UPD_UAC'))
                return
            body = relayed(body)
        self.rSDP = body
        self.ev(name, *mk(body), **kw)

    def tx(self, what, **kw):
        self.exp['tx'].append((self.now, what, kw))

    def cb(self, name, code='-', origin='-'):
        self.exp['cb'].append((self.now, name, code, origin))

    def stop(self, *names):
        for n in names:
            self.t.pop(n, None)

    def end(self, st):
        """enter FAILED/DISCONNECTED/DEAD"""
        self.st = st
        if self.disc_t is None:
            self.disc_t = self.now
        self.stop('noreply', 'noprog', 'expire', 'credit', 'te')
        if st == 'DEAD':
            self.stop('dead')
            self.cb('dead')
        else:
            self.t['dead'] = self.now + 32.0
        if self.pending:
            self.tx('ACK')
            self.pending = False
            self.txn = 'OVER'

    def start_credit(self, t0=None):
        self.conn_t = self.now if t0 is None else t0
        c = self.lim.get('credit')
        if c is not None and 0 not in self.credits:
            self.credits[0] = self.conn_t + c
        if self.credits:
            self.t['credit'] = min(self.credits.values())

    # ------------------------------------------------------------ comparison
    def verify(self, what):
        h = self.h
        ctxm = 'history %s' % self.hist
        if self.w.errors:
            raise Violation('%s: exception escaped: %s (%s)' % (what, self.w.errors[0][0], ctxm), self.w.errors[0][1])
        # events
        got = h.events
        h.events = []
        exp = self.exp['ev']
        need(len(got) == len(exp) and all(evname(g[1]) == e[1] for g, e in zip(got, exp)),
             '%s: owner told %s, expected %s (%s)', what, [evname(g[1]) for g in got], [e[1] for e in exp], ctxm)
        for (t, g), (et, name, data, kw) in zip(got, exp):
            need(abs(t - et) < 1e-3, '%s: %s told at %.3f, expected at %.3f (%s)', what, name, t, et, ctxm)
            d = g.getData()
            for i, x in enumerate(data):
                if x is Ellipsis:
                    continue
                v = d if name in ('Update', 'Info', 'Disconnect') else d[i]
                if name == 'Redirect' and i == 3:
                    v = tuple(str(a.url) for a in v)
                if isinstance(v, MsgBody):
                    v = str(v)
                if name == 'Disconnect' and v is not None:
                    v = target(v)
                need(v == x, '%s: %s carries %r, expected %r (%s)', what, name, v, x, ctxm)
            if 'reason' in kw:
                r = g.reason_rfc3326
                need((None if r is None else str(r).replace('; ', ';')) == kw['reason'], '%s: %s reason %r, expected %r (%s)', what, name, r and str(r), kw['reason'], ctxm)
            if 'chal' in kw:
                need([str(x) for x in g.challenges] == kw['chal'], '%s: challenges passed on %r, expected %r', what, [str(x) for x in g.challenges], kw['chal'])
            if 'mf' in kw:
                need(g.max_forwards == kw['mf'], '%s: %s says Max-Forwards %r, expected %r (%s)', what, name, g.max_forwards, kw['mf'], ctxm)
            if 'rtime' in kw:
                need(abs(g.rtime.monot - kw['rtime']) < 1e-3, '%s: %s dated %.3f, expected %.3f (%s)', what, name, g.rtime.monot, kw['rtime'], ctxm)
            need(g.origin in (self.origin, None) if name != 'Connect' else True, '%s: %s origin %r', what, name, g.origin)
        # notifications
        got = h.cbs
        h.cbs = []
        exp = self.exp['cb']
        key = lambda x: (round(x[0], 3), x[1])
        gk, ek = sorted(map(key, got)), sorted(map(key, exp))
        need(gk == ek, '%s: notifications %s, expected %s (%s)', what, gk, ek, ctxm)
        for g, e in zip(sorted(got, key=key), sorted(exp, key=key)):
            if e[2] != '-':
                need(g[4] == e[2], '%s: %s notification code %r, expected %r (%s)', what, e[1], g[4], e[2], ctxm)
            if e[3] != '-':
                need(g[3] == e[3], '%s: %s notification origin %r, expected %r (%s)', what, e[1], g[3], e[3], ctxm)
        # messages (repeats of earlier ones are the transaction layer's business)
        got, rep = [], []
        for t, raw, dest in h.new_tx():
            if raw in self.seen:
                rep.append((t, Msg(raw), dest))
                continue
            self.seen.add(raw)
            got.append((t, Msg(raw), dest))
        exp = list(self.exp['tx'])
        desc = lambda m: m.method if m.is_req else '%d/%s' % (m.code, m.cseq[1])
        edesc = lambda e: e[1] if e[1] != 'resp' else '%d/%s' % (e[2]['code'], e[2]['method'])
        # an answer given twice looks the same as a repeat
        have = [desc(g[1]) for g in got]
        for e in exp:
            if edesc(e) in have:
                have.remove(edesc(e))
                continue
            for g in rep:
                if desc(g[1]) == edesc(e) and abs(g[0] - e[0]) < 1e-3:
                    rep.remove(g)
                    got.append(g)
                    break
        gl, el = sorted(desc(m) for t, m, d in got), sorted(edesc(e) for e in exp)
        need(gl == el, '%s: sent %s, expected %s (%s)', what, gl, el, ctxm)
        for e in exp:
            for g in got:
                if desc(g[1]) == edesc(e) and ('cseq' not in e[2] or g[1].cseq[0] == e[2]['cseq']):
                    break
            else:
                raise Violation('%s: %s not for the right request (%s)' % (what, edesc(e), ctxm))
            got.remove(g)
            t, m, dest = g
            kw = e[2]
            need(abs(t - e[0]) < 1e-3, '%s: %s sent at %.3f, expected at %.3f (%s)', what, desc(m), t, e[0], ctxm)
            if 'body' in kw:
                need((m.body or None) == kw['body'], '%s: %s body %r, expected %r (%s)', what, desc(m), m.body[:60], kw['body'] and kw['body'][:60], ctxm)
            if 'reason' in kw:
                need(m.reason == kw['reason'], '%s: reason phrase %r, expected %r', what, m.reason, kw['reason'])
            if 'hreason' in kw:
                r = [x.replace('; ', ';') for x in m.all('reason')]
                need(r == ([kw['hreason']] if kw['hreason'] else []), '%s: %s Reason header %r, expected %r (%s)', what, desc(m), r, kw['hreason'], ctxm)
            if 'mf' in kw:
                need(m.get('max-forwards') == str(kw['mf']), '%s: %s Max-Forwards %r, expected %r (%s)', what, desc(m), m.get('max-forwards'), kw['mf'], ctxm)
            if kw.get('auth'):
                self.check_auth(m, kw['auth'], what)
            elif m.is_req:
                need(not m.get('authorization') and not m.get('proxy-authorization') or m.method == 'CANCEL', '%s: credentials in %s unasked (%s)', what, m.method, ctxm)
            for n, v in kw.get('xh', ()):
                need(m.all(n.lower()) == [v], '%s: %s header %s: %r, expected %r (%s)', what, desc(m), n, m.all(n.lower()), v, ctxm)
            for n in ('also', 'refer-to', 'referred-by'):
                v = m.get(n)
                need((None if v is None else target(v)) == kw.get(n), '%s: %s %s header %r, expected %r (%s)', what, desc(m), n, v, kw.get(n), ctxm)
            if 'contacts' in kw:
                need([minisip.uri(x) for x in m.all('contact')] == kw['contacts'], '%s: contacts %r', what, m.all('contact'))
            self.check_dialog(m, dest, what)
            self.note_tx(m, kw)
        self.exp = {'ev': [], 'tx': [], 'cb': []}
        self.est = self.est or self.st == 'CONNECTED'

    def check_dialog(self, m, dest, what):
        if m.is_req:
            if self.rtag is not None and (m.method in ('BYE', 'INFO', 'REFER') or m.method == 'INVITE' and self.inv is not None or
                                          m.method == 'ACK' and m.branch not in self.invs):
                need(m.ttag == self.rtag and m.ftag == self.ltag, '%s: %s tags %r/%r, expected %r/%r', what, m.method, m.ftag, m.ttag, self.ltag, self.rtag)
                if self.role == 'uac':
                    lu, ru, cid = self.first.get('from'), self.first.get('to'), self.first.cid
                else:
                    lu, ru, cid = self.inv0.get('to'), self.inv0.get('from'), self.inv0.cid
                need(minisip.uri(m.get('from')) == minisip.uri(lu) and minisip.uri(m.get('to')) == minisip.uri(ru) and m.cid == cid,
                     '%s: %s From %s To %s Call-ID %s', what, m.method, m.get('from'), m.get('to'), m.cid)
                ruri, routes, addr = self.path()
                ob = self.attrs.get('outbound_proxy')
                got = m.ruri, [minisip.uri(x) for x in m.all('route')]
                if ob is not None and routes and ';lr' in routes[0] and len(got[1]) > 1 and norm(got[0]) == norm(routes[0].split(';')[0]):
                    # as if it came from a strict router: the first proxy puts it right (RFC 3261, 16.4)
                    got = got[1][-1], got[1][:-1]
                if ob is None or m.method != 'ACK':
                    need(norm(got[0]) == norm(ruri) and [norm(x) for x in got[1]] == [norm(x) for x in routes] and dest == (ob or addr),
                         '%s: %s for %s Route %s sent to %s, expected %s %s to %s (%s)', what, m.method, m.ruri, m.all('route'), dest, ruri, routes, ob or addr, self.hist)
            if m.method == 'INVITE':
                self.invs[m.branch] = m.cseq[0]
            if m.method not in ('ACK', 'CANCEL'):
                need(m.cseq[0] > getattr(self, 'maxcseq', 0), '%s: CSeq %d not increasing', what, m.cseq[0])
                self.maxcseq = m.cseq[0]
            else:
                need(m.cseq[0] in self.invs.values(), '%s: %s for CSeq %d', what, m.method, m.cseq[0])
                if m.branch in self.invs:
                    need(m.cseq[0] == self.invs[m.branch], '%s: %s for CSeq %d', what, m.method, m.cseq[0])

    def path(self):
        """(request-URI, routes, address) of requests in the dialog"""
        tgt, rs = self.dlg
        if not rs:
            return tgt, [], uaddr(tgt)
        if ';lr' in rs[0]:
            return tgt, rs, uaddr(rs[0])
        return rs[0], rs[1:] + [tgt], uaddr(rs[0])

    def check_auth(self, m, auth, what):
        hf, ch = auth
        o = 'authorization' if hf == 'proxy-authorization' else 'proxy-authorization'
        need(len(m.all(hf)) == 1 and not m.all(o), '%s: credentials %r %r', what, m.all(hf), m.all(o))
        sch, d = chal_parts(m.get(hf))
        sch, c = chal_parts(ch)
        need(sch == 'Digest', '%s: scheme %s', what, sch)
        user, pwd = self.cfg['ua']['username'], self.cfg['ua']['password']
        for n in ('realm', 'nonce', 'opaque', 'algorithm'):
            need(d.get(n) == c.get(n), '%s: credentials have %s=%r, challenge %r (%s)', what, n, d.get(n), c.get(n), self.hist)
        need(d['username'] == user and d['uri'] == m.ruri, '%s: credentials for %r %r', what, d['username'], d['uri'])
        q = c.get('qop')
        need(('qop' in d) == bool(q) and (not q or d['qop'] in re.split(' *, *', q)), '%s: qop %r for %r', what, d.get('qop'), q)
        if q:
            need(d.get('nc') == '00000001' and d.get('cnonce'), '%s: nc %r cnonce %r', what, d.get('nc'), d.get('cnonce'))
        r = digest(user, pwd, m.method, d['uri'], d, m.body)
        need(d['response'] == r, '%s: digest %s, expected %s for %s (%s)', what, d['response'], r, m.get(hf), self.hist)

    def note_tx(self, m, kw=()):
        if m.is_req and m.method == 'INVITE' and 'ka' in kw:
            self.ka = m
            self.katx = 'TRYING'
            self.kadef = False
            if 'auth' in kw:
                self.t['kb'] = self.now + 32.0
        elif m.is_req and m.method == 'INVITE':
            self.inv = m
            self.txn = 'TRYING'
            self.t['b'] = self.now + 32.0
            self.cancel_deferred = False
            if self.ltag is None:
                self.ltag = m.ftag
                self.first = m
        elif m.is_req and m.method in ('BYE', 'CANCEL', 'INFO', 'REFER') and self.cfg.get('autook', True):
            self.todo.append(m)
        elif not m.is_req and m.cseq[1] == 'INVITE':
            if m.ttag and self.role == 'uas' and self.ltag is None:
                self.ltag = m.ttag
            if m.code >= 200:
                self.finals[m.cseq[0]] = m
                if self.autoack:
                    self.todo.append(m)
                else:
                    self.t['noack%d' % m.cseq[0]] = self.now + 32.0

    todo = ()

    def check(self, what):
        self.todo = []
        self.verify(what)
        while self.todo:
            m = self.todo.pop(0)
            if m.is_req:
                if m.method == 'REFER':
                    sim.deliver(self.w, self.tm, minisip.response(m, 100, 'Trying'), PEER)
                    self.verify('peer answering 100')
                    self.stop('refer')
                    self.tx('BYE')
                sim.deliver(self.w, self.tm, minisip.response(m, 200, 'OK', self.rtag or 'pt'), PEER)
            else:
                self.deliver_ack(m)
            self.verify('peer answering %s' % (m.method if m.is_req else m.code))

    def deliver_ack(self, m, body=''):
        self.n += 1
        req = self.reqs_in[m.cseq[0]]
        br = req.branch if m.code >= 300 else 'z9hG4bKack%d' % self.n
        raw = minisip.request('ACK', 'sip:x@10.0.0.1:5060', m.get('from'), m.get('to'), m.cid, m.cseq[0], '192.0.2.9:5070', br, body=body)
        self.stop('noack%d' % m.cseq[0])
        self.finals.pop(m.cseq[0], None)
        if self.wait_ack and m.code < 300 and self.st == 'CONNECTED':
            self.wait_ack = False
            self.stop('expire')
            self.stop('credit')
            self.start_credit()
            self.cb('conn', origin='caller')
            self.rev('Connect', body or None, lambda b: ('ACK', 'ACK', b))
        sim.deliver(self.w, self.tm, raw, PEER)

    # ------------------------------------------------------------ time
    def advance(self, dt):
        t1 = self.w_now() + dt
        self.w.advance(dt)
        while self.t:
            name, when = min(self.t.items(), key=lambda x: (x[1], 0 if x[0] in ('noack',) else 1))
            if when > t1 + 1e-9:
                break
            self.now = max(when, self.now)
            del self.t[name]
            self.fire(name)
        self.now = t1
        self.hist.append('+%g' % dt)
        self.check('after %g s' % dt)

    def w_now(self):
        return sim.now()

    def fire(self, name):
        if name == 'dead':
            self.st = 'DEAD'
            self.cb('dead')
        elif name == 'te':
            self.end('DEAD')
        elif name == 'refer':
            self.tx('BYE')
        elif name == 'b':
            self.txn = 'OVER'
            if self.st != 'DEAD':
                self.on_resp(408, 'Request Timeout', None, None, local=True)
        elif name in ('noreply', 'noprog', 'expire', 'credit'):
            self.do_disconnect_self()
        elif name == 'ka':
            self.katry = False
            self.kaold = False
            self.tx('INVITE', body=self.lSDP, ka=True)
            self.t['kb'] = self.now + 32.0
        elif name == 'kb':
            self.katx = 'OVER'
            self.on_ka(408)
        elif name == 'kadisc':
            self.do_disconnect_self()
        elif name.startswith('noack'):
            self.finals.pop(int(name[5:]), None)
            if self.noack_watch(int(name[5:])):
                self.do_disconnect_self()
        elif name.startswith('srvexp'):
            self.peer_gone(None, int(name[6:]), expired=True)

    watched = ()

    def noack_watch(self, cseq):
        return cseq in self.watched and self.st in ('CONNECTED', 'UPD_UAC', 'UPD_UAS')

    def do_disconnect_self(self):
        """the leg ends on its own account: owner told once and the peer informed"""
        if self.st in ('CANCELLING', 'FAILED', 'DISCONNECTED', 'DEAD'):
            return
        self.owner_end('Disconnect', None, None)
        self.ev('Disconnect', None)

    # ------------------------------------------------------------ owner
    def owner_end(self, kind, data, reason, origin=None):
        st = self.st
        if st == 'IDLE':
            self.end('DEAD')
            self.cb('disc')
        elif st in ('TRYING', 'RINGING') and self.role == 'uac':
            self.cb('disc', self.last_scode, origin)
            self.cancel_inv(reason)
            self.stop('noreply', 'noprog', 'expire')
            self.disc_t = self.now
            self.st = 'CANCELLING'
            self.t['te'] = self.now + 300.0
        elif st in ('TRYING', 'RINGING'):
            cs = self.inv.cseq[0]
            self.stop('srvexp%d' % cs)
            if kind == 'Disconnect':
                self.tx('resp', code=500, method='INVITE', reason='Disconnected', hreason=reason, body=None)
                self.cb('disc', 100, origin)
                self.end('DISCONNECTED')
            elif kind == 'Fail':
                code, rs = data or (500, 'Failed')
                self.tx('resp', code=code, method='INVITE', reason=rs, hreason=reason, body=None)
                self.cb('fail', code, origin)
                self.end('FAILED')
            else:
                code, rs, body, addrs = data or (500, 'Failed', None, None)
                self.tx('resp', code=code, method='INVITE', reason=rs, contacts=list(addrs or ()), hreason=reason, body=None)
                self.cb('fail', code, origin)
                self.end('FAILED')
        elif st == 'CONNECTED':
            go = None
            if kind == 'Disconnect' and data:
                go = data
            elif kind == 'Redirect' and data:
                go = data[3][0]
            if go and self.attrs.get('useRefer', True):
                self.tx('REFER', hreason=reason, **{'refer-to': go, 'referred-by': minisip.uri(self.local_uri())})
                if not self.cfg.get('autook', True):
                    self.t['refer'] = self.now + 32.0
            else:
                self.tx('BYE', hreason=reason, also=go)
            self.cb('disc', origin=origin if origin else '-')
            self.end('DISCONNECTED')
        elif st == 'UPD_UAC':
            self.cancel_inv(None)
            self.tx('BYE', hreason=reason)
            self.cb('disc')
            self.end('DISCONNECTED')
        elif st == 'UPD_UAS':
            if kind == 'Disconnect':
                self.stop('srvexp%d' % self.inv_in)
                self.tx('resp', code=487, method='INVITE', cseq=self.inv_in)
                self.tx('BYE', hreason=reason)
                self.cb('disc')
                self.end('DISCONNECTED')
            elif kind == 'Fail':
                self.stop('srvexp%d' % self.inv_in)
                code, rs = data or (500, 'Failed')
                self.tx('resp', code=code, method='INVITE', reason=rs, cseq=self.inv_in, hreason=reason)
                self.rSDP = None
                self.st = 'CONNECTED'
            else:
                self.stop('srvexp%d' % self.inv_in)
                code, rs, body, addrs = data or (500, 'Failed', None, None)
                self.tx('resp', code=code, method='INVITE', reason=rs, cseq=self.inv_in, contacts=list(addrs or ()), hreason=reason)
                self.rSDP = None
                self.st = 'CONNECTED'

    def cancel_inv(self, reason):
        self.cancelreason = reason
        if self.txn == 'PROC':
            self.tx('CANCEL', hreason=reason)
        elif self.txn == 'TRYING':
            self.cancel_deferred = True

    def local_uri(self):
        return self.first.get('from') if self.role == 'uac' else self.inv0.get('to')

    def lhook(self, Bt, again, kind):
        """does the SDP handler get in between?  returns the body to go on with or raises Held"""
        if Bt is None or not self.sdpmode or self.st in OVER:
            return Bt
        if 'a=bad' in Bt:
            raise Refused()
        if self.sdpmode == 'sync':
            return relayed(Bt)
        self.held.append(('l', again, Bt, kind))
        raise Held()

    def ref_event(self, kind, Bt, code, data, reason, org, mf, t0=None):
        """reference effect of an event given by the owner"""
        at = self.now if t0 is None else t0

        def again(b):
            self.ref_event(kind, b, code, data, reason, org, mf, at)
        hook = (lambda b: self.lhook(b, again, kind)) if t0 is None else (lambda b: b)
        st = self.st
        if kind == 'Try':
            if st == 'IDLE':
                if self.setup_t is None:
                    self.setup_t = self.now
                try:
                    Bt = hook(Bt)
                except Refused:
                    self.ev('Fail', 488, 'Not Acceptable Here', reason=RNA)
                    self.cb('fail', 488)
                    self.end('FAILED')
                    return
                self.chal = None
                self.tx('INVITE', body=Bt, mf=70 if mf is None else mf, xh=tuple(self.xh.items()))
                self.curxh = tuple(self.xh.items())
                self.st = 'TRYING'
                self.lSDP = Bt
                self.late = Bt is None
                l = self.lim
                for k, n in (('noreply', 'noreply'), ('noprog', 'noprog'), ('expire', 'expire')):
                    if l.get(k) is not None:
                        self.t[n] = self.setup_t + l[k]
        elif kind == 'Ring':
            c = code or 180
            if self.role == 'uas' and st in ('TRYING', 'RINGING') or st == 'UPD_UAS':
                if not (st == 'TRYING' and code == 100):
                    if code:
                        Bt = hook(Bt)
                    cs = self.inv.cseq[0] if st != 'UPD_UAS' else self.inv_in
                    self.tx('resp', code=c, method='INVITE', reason='Progress' if code else 'Ringing', body=Bt, cseq=cs)
                    self.lSDP = Bt
                    if st != 'UPD_UAS':
                        self.cb('ring', c, org)
                        self.stop('noprog')
                        self.st = 'RINGING'
        elif kind in ('Connect', 'PreConnect'):
            if self.role == 'uas' and st in ('TRYING', 'RINGING'):
                Bt = hook(Bt)
                self.stop('noprog', 'srvexp%d' % self.inv.cseq[0])
                if kind == 'Connect':
                    self.stop('expire')
                self.tx('resp', code=200, method='INVITE', reason='Fine', body=Bt)
                self.lSDP = Bt
                self.st = 'CONNECTED'
                if kind == 'Connect':
                    self.start_credit(at)
                    self.cb('conn', origin=org)
                else:
                    self.wait_ack = True
            elif st == 'UPD_UAS' and kind == 'Connect':
                Bt = hook(Bt)
                self.stop('srvexp%d' % self.inv_in)
                self.tx('resp', code=200, method='INVITE', reason='Fine', body=Bt, cseq=self.inv_in)
                self.lSDP = Bt
                self.st = 'CONNECTED'
            elif st == 'CONNECTED' and self.pending and kind == 'Connect':
                Bt = hook(Bt)
                self.pending = False
                self.txn = 'OVER'
                self.lSDP = Bt
                self.tx('ACK', body=Bt)
                self.start_credit(at)
                self.cb('conn')
        elif kind in ('Fail', 'Redirect', 'Disconnect'):
            self.owner_end(kind, data, reason, org)
        elif kind == 'Update':
            if st == 'UPD_UAS':
                self.ev('Fail', 491, 'Request Pending')
            if st == 'CONNECTED':
                if Bt == self.lSDP and Bt is not None:
                    self.ev('Connect', 200, 'OK', self.rSDP)
                    return
                try:
                    Bt = hook(Bt)
                except Refused:
                    self.ev('Fail', 488, 'Not Acceptable Here', reason=RNA)
                    return
                if Bt == self.lSDP and Bt is not None:
                    self.ev('Connect', 200, 'OK', self.rSDP)
                    return
                if mf is not None and mf <= 0:
                    self.ev('Fail', 483, 'Too Many Hops')
                    return
                self.chal = None
                self.curxh = ()
                self.tx('INVITE', body=Bt, mf=70 if mf is None else mf - 1)
                self.lSDP = Bt
                self.st = 'UPD_UAC'
        elif kind == 'Info':
            if st == 'CONNECTED':
                self.tx('INFO', body=Bt)

    def owner(self, kind, data=None, body=None, reason=None, code=None, mf=None):
        """owner hands the leg an event"""
        self.hist.append('own:%s%s' % (kind, ('' if code is None else str(code)) + ('/' + body if body else '')))
        self.now = sim.now()
        Bt = None if body is None else SDP.get(body, body)
        org = 'caller' if self.role == 'uac' else 'callee'
        if kind == 'Update':
            if Bt == 'same':
                Bt = self.lSDP
                if Bt is None:
                    raise Prune()
            if self.pending and self.st == 'CONNECTED':
                raise Prune()
        B = None if body is None else MsgBody(Bt)
        if kind == 'Try':
            e = CCEventTry((None, 'alice', 'bob', B, None, 'Alice A'), origin=org)
        elif kind == 'Ring':
            e = CCEventRing(None if code is None else (code, 'Progress', B), origin=org)
        elif kind in ('Connect', 'PreConnect'):
            e = (CCEventConnect if kind == 'Connect' else CCEventPreConnect)((code or 200, 'Fine', B), origin=org)
        elif kind == 'Fail':
            e = CCEventFail(None if code is None else (code, 'Nope'), origin=org)
            data = (code, 'Nope') if code else None
        elif kind == 'Redirect':
            addrs = ('sip:other@192.0.2.70', 'sip:third@192.0.2.71:5099')
            e = CCEventRedirect((302, 'Moved', None, tuple(SipAddress(url=SipURL(a)) for a in addrs)), origin=org)
            data = (302, 'Moved', None, addrs)
        elif kind == 'Disconnect':
            e = CCEventDisconnect(None if data is None else SipAddress(url=SipURL(data)), origin=org)
        elif kind == 'Update':
            e = CCEventUpdate(B, origin=org)
        elif kind == 'Info':
            B = MsgBody('Signal=5', mtype='application/dtmf-relay') if body else None
            Bt = 'Signal=5' if body else None
            e = CCEventInfo(B, origin=org)
        else:
            raise AssertionError(kind)
        if mf is not None:
            e.max_forwards = mf
        if kind == 'Try' and self.xh:
            e.extra_headers = tuple(SipHeader('%s: %s' % (n, v)) for n, v in self.xh.items())
        if reason:
            e.reason_rfc3326 = SipReason(body=reason)
        try:
            self.ref_event(kind, Bt, code, data, reason, org, mf)
        except Held:
            pass
        except Refused:
            na, both = (488, 'Not Acceptable Here'), self.st == 'UPD_UAS'
            self.ev('Fail', *na, reason=RNA)
            if self.st in ('CONNECTED', 'UPD_UAS'):
                self.ev('Disconnect', None)
            self.owner_end('Fail', na, RNA)
            if both:
                self.owner_end('Disconnect', None, None)
        try:
            self.ua.recvEvent(e)
        except Exception as ex:
            import traceback
            raise Violation('owner event %s raised %r (history %s)' % (kind, ex, self.hist), traceback.format_exc())
        self.check('owner %s' % kind)

    def release(self, ok=True):
        """the SDP handler finishes the job it has held longest"""
        self.hist.append('sdp-%s' % ('done' if ok else 'failed'))
        self.now = sim.now()
        need(len(self.held) == len(self.h.held), 'SDP handler called %d times too few or many (%s)', len(self.h.held) - len(self.held), self.hist)
        h = self.held.pop(0)
        body, done = self.h.held.pop(0)
        orig = h[4] if h[0] == 'r' else h[2]
        need(str(body) == orig, 'SDP handler was given %r instead of %r (%s)', str(body), orig, self.hist)
        if self.st not in OVER:
            if not ok:
                na = (488, 'Not Acceptable Here')
                upd = 'Update' in (h[2] if h[0] == 'r' else h[3],)
                if h[0] == 'r' and upd:
                    self.owner_end('Fail', na, RNA)
                else:
                    self.ev('Fail', *na, reason=RNA)
                    if h[0] == 'r' and h[6] or h[0] == 'l' and not upd and self.st in ('CONNECTED', 'UPD_UAS', 'UPD_UAC'):
                        self.ev('Disconnect', None)
                    if not upd:
                        both = self.st == 'UPD_UAS'
                        self.owner_end('Fail', na, RNA)
                        if both:
                            self.owner_end('Disconnect', None, None)
            elif h[0] == 'l':
                h[1](relayed(h[2]))
            else:
                k, seq, name, mk, b, kw, upd = h
                self.rSDP = relayed(b)
                if name != 'Ring' or seq > self.elast:
                    self.elast = max(seq, self.elast)
                    self.exp['ev'].append((self.now, name, mk(relayed(b)), kw))
        try:
            if ok:
                done(self.h.convert(body))
            else:
                done(None, ex=SdpParseError('refused'))
        except Exception as ex:
            import traceback
            raise Violation('SDP handler completion raised %r (history %s)' % (ex, self.hist), traceback.format_exc())
        self.check('SDP handler done')

    # ------------------------------------------------------------ peer responses to our INVITE
    def on_resp(self, code, reason, body, hreason, local=False, contacts=(), totag=True):
        st = self.st
        if code < 200:
            self.txn = 'PROC'
            if self.cancel_deferred:
                self.cancel_deferred = False
                self.tx('CANCEL', hreason=self.cancelreason)
            self.t['b'] = self.now + 300.0
        else:
            self.stop('b')
            self.txn = 'OVER'
        if st in ('TRYING', 'RINGING'):
            self.last_scode = code
            self.stop('noreply')
            if code == 100:
                self.ev('Ring', 100, reason, body, rtime=self.now)
                if st == 'RINGING':
                    self.cb('ring', 100)
                return
            self.stop('noprog')
            if code < 200:
                if self.bad(body):
                    self.cancel_inv(RNA)
                    self.ev('Fail', 488, 'Not Acceptable Here', reason=RNA)
                    self.cb('fail', 488, 'callee')
                    if st == 'RINGING':
                        self.cb('ring', code, 'callee')
                    self.stop('expire')
                    self.disc_t = self.now
                    self.st = 'CANCELLING'
                    self.t['te'] = self.now + 300.0
                    return
                self.rev('Ring', body, lambda b: (code, reason, b), rtime=self.now)
                self.cb('ring', code, 'callee')
                self.st = 'RINGING'
                return
            self.stop('expire')
            if code < 300:
                if not totag:
                    self.tx('ACK')
                    self.tx('BYE')
                    self.ev('Fail', 502, 'Bad Gateway', rtime=self.now)
                    self.cb('fail', 502, 'callee')
                    self.end('FAILED')
                    return
                if self.bad(body):
                    self.tx('ACK', body=None)
                    self.tx('BYE')
                    self.ev('Fail', 488, 'Not Acceptable Here', reason=RNA)
                    self.cb('fail', 488, 'callee')
                    self.end('FAILED')
                    return
                if self.late and body is not None:
                    self.rev('PreConnect', body, lambda b: (code, reason, b), rtime=self.now)
                    self.pending = True
                    self.st = 'CONNECTED'
                else:
                    self.tx('ACK', body=None)
                    self.rev('Connect', body, lambda b: (code, reason, b), rtime=self.now)
                    self.cb('conn', origin='callee')
                    self.st = 'CONNECTED'
                    self.start_credit()
                return
            if not local:
                self.tx('ACK', body=None)
            if code in (300, 301, 302) and contacts:
                self.ev('Redirect', code, reason, body, tuple(contacts if code == 300 else contacts[:1]), reason=hreason, rtime=self.now)
            else:
                self.ev('Fail', code, reason, reason=hreason, rtime=self.now, **self.failkw)
            self.cb('fail', code, 'callee')
            self.end('FAILED')
        elif st == 'CANCELLING':
            if code < 200:
                return
            if not local:
                self.tx('ACK', body=None)
            if code < 300:
                self.tx('BYE')
                self.end('DISCONNECTED')
            else:
                self.end('DEAD')
        elif st == 'UPD_UAC':
            if code < 200:
                if code != 100:
                    if self.bad(body):
                        self.ev('Fail', 488, 'Not Acceptable Here', reason=RNA)
                        self.ev('Disconnect', None)
                        self.owner_end('Fail', None, RNA)
                        return
                    old = self.rSDP
                    self.rev('Ring', body, lambda b: (code, reason, b), rtime=self.now)
                    self.rSDP = old
                return
            if not local:
                self.tx('ACK', body=None)
            if code < 300:
                if self.bad(body):
                    self.ev('Fail', 502, 'Bad Gateway', reason='SIP;cause=502;text="Malformed SDP Body received from downstream"')
                    self.tx('BYE', hreason=RNA)
                    self.ev('Disconnect', None, reason='SIP;cause=500;text="Fatal Dialog Refresh Error"')
                    self.cb('disc')
                    self.end('DISCONNECTED')
                    return
                self.rev('Connect', body, lambda b: (code, reason, b), rtime=self.now)
                self.st = 'CONNECTED'
            elif code in (408, 481):
                self.ev('Fail', code, reason, reason=hreason)
                self.tx('BYE')
                self.ev('Disconnect', None)
                self.cb('disc')
                self.end('DISCONNECTED')
            elif code in (300, 301, 302) and contacts:
                self.ev('Redirect', code, reason, body, tuple(contacts if code == 300 else contacts[:1]), reason=hreason)
                self.st = 'CONNECTED'
            else:
                self.ev('Fail', code, reason, reason=hreason)
                self.lSDP = None
                self.st = 'CONNECTED'
        else:
            # nobody waits for it any more, the answer is only acknowledged
            if code >= 200 and not local:
                self.tx('ACK', body=None)

    def on_ka(self, code, ch=None):
        if self.kaold or self.st != 'CONNECTED':
            return
        if ch is not None and self.cred and not self.katry:
            self.katry = True
            self.tx('INVITE', body=self.lSDP, ka=True, auth=ch)
            return
        if code < 200:
            return
        self.kas += 1
        if code in (408, 481, 486):
            if self.kas == 1:
                self.t['kadisc'] = self.now + 600
            else:
                self.do_disconnect_self()
            return
        self.t['ka'] = self.now + self.kaint

    def karesp(self, code, chal=None):
        """the peer answers a keepalive"""
        self.hist.append('ka:%d' % code)
        self.now = sim.now()
        m = self.ka
        self.n += 1
        extra = [('Contact', '<%s>' % self.pcontact), ('X-Serial', str(self.n))] + [('Record-Route', x) for x in self.rr]
        ch = None
        if chal:
            extra.append(('WWW-Authenticate' if code == 401 else 'Proxy-Authenticate', CHALS[chal][0][0]))
            ch = ('authorization' if code == 401 else 'proxy-authorization', CHALS[chal][0][0])
        raw = minisip.response(m, code, 'KA', None, extra=extra, body=self.rSDP or '' if 200 <= code < 300 else '')
        if code < 200:
            self.katx = 'PROC'
            self.t['kb'] = self.now + 300.0
            if self.kadef:
                self.kadef = False
                self.tx('CANCEL', cseq=m.cseq[0])
        else:
            self.katx = 'OVER'
            self.stop('kb')
            self.tx('ACK', cseq=m.cseq[0])
        self.on_ka(code, ch)
        sim.deliver(self.w, self.tm, raw, PEER)
        self.check('keepalive answered %d' % code)

    def challenge(self, code, label):
        self.hist.append('resp:%d/%s' % (code, label))
        self.now = sim.now()
        hs, idx = CHALS[label]
        hn = 'WWW-Authenticate' if (code == 401) != (label == 'other') else 'Proxy-Authenticate'
        extra = [(hn, h) for h in hs] + [('X-Serial', str(self.n))]
        self.n += 1
        raw = minisip.response(self.inv, code, 'Who', 'pt%d' % self.n, extra=extra)
        st = self.st
        en = self.attrs.get('auth_enalgs')
        pick = idx if label != 'other' else None
        if en is not None and hs and label != 'other':
            pick = None
            for i, h in enumerate(hs):
                a = chal_parts(h)[1].get('algorithm')
                if a in en and a != 'FOO' and 'qop="weird"' not in h:
                    pick = i
                    break
        if st in ('TRYING', 'RINGING', 'UPD_UAC') and self.cred and pick is not None and not self.chal and not self.attrs.get('pass_auth'):
            self.tx('ACK', cseq=self.inv.cseq[0])
            self.chal = 'authorization' if code == 401 else 'proxy-authorization'
            self.stop('b')
            self.tx('INVITE', body=self.lSDP, auth=(self.chal, hs[pick]), mf=self.inv.get('max-forwards'), xh=self.curxh)
        else:
            kw = {}
            if self.attrs.get('pass_auth') and st == 'TRYING' and hs and label != 'other':
                kw['chal'] = ['%s: %s' % (hn, h) for h in hs]
            self.failkw = kw
            self.on_resp(code, 'Who', None, None)
            self.failkw = {}
        sim.deliver(self.w, self.tm, raw, PEER)
        self.check('challenge %s' % label)

    failkw = {}

    def resp(self, code, reason='Because', body=None, hreason=None, contacts=(), totag='pt'):
        self.hist.append('resp:%d%s' % (code, '' if body is None else '/' + body))
        self.now = sim.now()
        Bt = None if body is None else SDP[body]
        pc = self.pcontact
        if code < 200 and self.forked:
            totag, pc = 'early%d' % code, 'sip:early@192.0.2.99:5099'
        ct = ['<%s>' % c for c in contacts] or ['<%s>' % pc]
        extra = [('Contact', c) for c in ct] if code != 100 else []
        if 100 < code < 300:
            if self.role == 'uas':
                if self.cfg.get('rrmid', True):
                    extra += [('Record-Route', x) for x in reversed(self.rr)]
            elif not self.est or self.cfg.get('rrmid', True):
                extra += [('Record-Route', x) for x in self.rr]
        if hreason:
            extra.append(('Reason', hreason))
        self.n += 1
        extra.append(('X-Serial', str(self.n)))
        raw = minisip.response(self.inv, code, reason, totag if code != 100 else None, extra=extra, body=Bt or '')
        live = self.txn in ('TRYING', 'PROC')
        if live:
            if 200 <= code < 300 and totag and self.rtag is None:
                self.rtag = totag
                self.dlg = (pc, [minisip.uri(x) for x in reversed(self.rr)])
            self.on_resp(code, reason, Bt, hreason, contacts=contacts, totag=totag)
        sim.deliver(self.w, self.tm, raw, PEER)
        self.check('response %d' % code)

    # ------------------------------------------------------------ peer requests
    def peer_hdrs(self):
        if self.role == 'uac':
            i0 = self.first
            frm = i0.get('to') + (';tag=%s' % self.rtag)
            return frm, i0.get('from'), i0.cid
        to = self.inv0.get('to') + (';tag=%s' % self.ltag if self.ltag else '')
        return self.inv0.get('from'), to, self.inv0.cid

    def preq(self, method, body=None, extra=(), ctype='application/sdp'):
        self.pcseq += 1
        self.n += 1
        mf = 60
        frm, to, cid = self.peer_hdrs()
        raw = minisip.request(method, 'sip:x@10.0.0.1:5060', frm, to, cid, self.pcseq, '192.0.2.9:5070', 'z9hG4bKp%d' % self.n,
                              contact='<%s>' % self.pcontact, extra=extra, body=body or '', ctype=ctype, mf=mf)
        self.reqs_in[self.pcseq] = Msg(raw)
        return raw

    def invite(self, body='A', expires=None, hreason=None):
        """initial INVITE towards an answering leg"""
        self.hist.append('INVITE%s' % (body or ''))
        self.now = sim.now()
        self.pcseq += 1
        Bt = SDP[body] if body else None
        extra = [('Reason', hreason)] if hreason else []
        if expires:
            extra.append(('Expires', str(expires)))
        extra += [('Record-Route', x) for x in self.rr]
        self.dlg = (self.pcontact, [minisip.uri(x) for x in self.rr])
        raw = minisip.request('INVITE', 'sip:bob@10.0.0.1:5060', '"Al" <sip:alice@a.example>;tag=pt', '<sip:bob@10.0.0.1>', 'ccid@x', self.pcseq,
                              '192.0.2.9:5070', 'z9hG4bKinv', contact='<%s>' % self.pcontact, extra=extra, body=Bt or '')
        self.inv = self.inv0 = Msg(raw)
        self.reqs_in[self.pcseq] = self.inv0
        self.watched = (self.pcseq,)
        self.rtag = 'pt'
        self.tx('resp', code=100, method='INVITE')
        self.setup_t = self.now
        if self.bad(Bt):
            self.tx('resp', code=488, method='INVITE', reason='Not Acceptable Here', hreason=RNA)
            self.cb('fail', 488)
            self.end('FAILED')
            self.rawinv = raw
            sim.deliver(self.w, self.tm, raw, PEER)
            self.check('INVITE')
            return
        self.rev('Try', Bt, lambda b: (Ellipsis, 'alice', 'bob', b, None, 'Al'), reason=hreason, rtime=self.now, mf=70)
        self.st = 'TRYING'
        for k in ('noprog', 'expire'):
            if self.lim.get(k) is not None:
                self.t[k] = self.now + self.lim[k]
        self.t['srvexp%d' % self.pcseq] = self.now + (expires or 300)
        self.rawinv = raw
        sim.deliver(self.w, self.tm, raw, PEER)
        self.check('INVITE')

    def dup(self):
        """the peer repeats its last INVITE byte by byte"""
        self.hist.append('dup')
        self.now = sim.now()
        sim.deliver(self.w, self.tm, self.rawinv, PEER)
        self.check('repeated INVITE')

    def peer_gone(self, hreason, cs, expired=False):
        """CANCEL or expiry of the peer's pending INVITE cs"""
        self.tx('resp', code=487, method='INVITE', cseq=cs)
        self.stop('srvexp%d' % cs)
        if self.st == 'UPD_UAS':
            self.tx('BYE')
        self.ev('Disconnect', None, reason=hreason)
        self.cb('disc')
        self.end('DISCONNECTED')

    def cancel(self, hreason=None):
        self.hist.append('CANCEL')
        self.now = sim.now()
        cs = self.inv_in if self.st == 'UPD_UAS' else self.inv0.cseq[0]
        if cs in self.cancelled:
            raise Prune()       # a mere repeat
        self.cancelled.add(cs)
        m = self.reqs_in[cs]
        raw = minisip.request('CANCEL', m.ruri, m.get('from'), m.get('to'), m.cid, m.cseq[0], None, None, vias=m.all('via'),
                              extra=[('Reason', hreason)] if hreason else [])
        if self.st in ('TRYING', 'RINGING', 'UPD_UAS'):
            self.tx('resp', code=200, method='CANCEL')
            self.peer_gone(hreason, cs)
        else:
            self.tx('resp', code=481, method='CANCEL')
        sim.deliver(self.w, self.tm, raw, PEER)
        self.check('CANCEL')

    def refer(self, to='sip:over@192.0.2.77'):
        self.hist.append('REFER')
        self.now = sim.now()
        raw = self.preq('REFER', extra=[('Refer-To', '<%s>' % to)] if to else [])
        cs = self.pcseq
        st = self.st
        if st not in ('CONNECTED', 'UPD_UAS'):
            raise Prune()
        if to is None:
            self.tx('resp', code=400, method='REFER', cseq=cs)
        else:
            self.tx('resp', code=202, method='REFER', cseq=cs)
            self.tx('BYE')
            if st == 'UPD_UAS':
                self.tx('resp', code=487, method='INVITE', cseq=self.inv_in)
                self.stop('srvexp%d' % self.inv_in)
            self.ev('Disconnect', to, rtime=self.now)
            self.cb('disc', origin=self.origin)
            self.end('DISCONNECTED')
        sim.deliver(self.w, self.tm, raw, PEER)
        self.check('REFER')

    def stale(self, method, d):
        """a further request of the peer which is not newer than its last one"""
        self.hist.append('stale %s -%d' % (method, d))
        self.now = sim.now()
        cs = self.pcseq - d
        self.n += 1
        frm, to, cid = self.peer_hdrs()
        raw = minisip.request(method, 'sip:x@10.0.0.1:5060', frm, to, cid, cs, '192.0.2.9:5070', 'z9hG4bKs%d' % self.n,
                              contact='<%s>' % self.pcontact, body=SDP['F'] if method == 'INVITE' else '', mf=60)
        old = self.reqs_in.get(cs)
        self.reqs_in[cs] = Msg(raw)
        self.tx('resp', code=500, method=method, cseq=cs)
        sim.deliver(self.w, self.tm, raw, PEER)
        self.check('stale request')
        self.reqs_in[cs] = old

    def bad(self, body):
        return body is not None and self.sdpmode and 'a=bad' in body

    def bye(self, hreason=None, also=None):
        self.hist.append('BYE')
        self.now = sim.now()
        extra = [('Reason', hreason)] if hreason else []
        if also:
            extra.append(('Also', '<%s>' % also))
        raw = self.preq('BYE', extra=extra)
        st = self.st
        cs = self.pcseq
        if st == 'DEAD':
            self.tx('resp', code=481, method='BYE', cseq=cs)
        else:
            self.tx('resp', code=200, method='BYE', cseq=cs)
        if st in ('CONNECTED', 'UPD_UAC', 'UPD_UAS') or (st == 'RINGING' and self.role == 'uas'):
            if st == 'UPD_UAC':
                self.cancel_inv(None)
            elif st == 'UPD_UAS':
                self.tx('resp', code=487, method='INVITE', cseq=self.inv_in)
                self.stop('srvexp%d' % self.inv_in)
            elif st == 'RINGING':
                self.tx('resp', code=487, method='INVITE', cseq=self.inv0.cseq[0])
                self.stop('srvexp%d' % self.inv0.cseq[0])
            self.ev('Disconnect', also if st in ('CONNECTED', 'RINGING') else None, reason=hreason, rtime=self.now)
            self.cb('disc', origin=self.origin)
            self.end('DISCONNECTED')
        sim.deliver(self.w, self.tm, raw, PEER)
        self.check('BYE')

    def reinvite(self, body, hreason=None):
        """body: label, None or 'same'"""
        self.hist.append('reINVITE/%s' % body)
        self.now = sim.now()
        Bt = self.rSDP if body == 'same' else (SDP[body] if body else None)
        if body == 'same' and Bt is None:
            raise Prune()
        raw = self.preq('INVITE', Bt, extra=[('Reason', hreason)] if hreason else [])
        self.rawinv = raw
        cs = self.pcseq
        st = self.st
        if st == 'CONNECTED' and self.pending:
            self.tx('resp', code=491, method='INVITE', cseq=cs)
        elif st == 'CONNECTED':
            if self.wait_ack:
                raise Prune()
            self.tx('resp', code=100, method='INVITE', cseq=cs)
            if Bt is not None and Bt == self.rSDP and self.lSDP is not None:
                self.tx('resp', code=200, method='INVITE', cseq=cs, body=self.lSDP)
            elif self.bad(Bt):
                self.tx('resp', code=488, method='INVITE', cseq=cs, hreason=RNA)
            else:
                if Bt is None and self.rSDP is not None:
                    # taken for a hold request
                    Bt = MsgBody(self.rSDP)
                    Bt.parse()
                    for sect in Bt.content.sections:
                        sect.c_header.addr = '0.0.0.0'
                    Bt = str(Bt)
                self.rev('Update', Bt, lambda b: (b,), rtime=self.now, mf=60, reason=hreason)
                self.st = 'UPD_UAS'
                self.inv_in = cs
                self.watched += (cs,)
                self.t['srvexp%d' % cs] = self.now + 300
        elif st in ('UPD_UAC', 'UPD_UAS'):
            self.tx('resp', code=491, method='INVITE', cseq=cs)
        elif st == 'DISCONNECTED':
            self.tx('resp', code=500, method='INVITE', cseq=cs)
        else:
            raise Prune()
        sim.deliver(self.w, self.tm, raw, PEER)
        self.check('re-INVITE')

    def info(self, body=True):
        self.hist.append('INFO')
        self.now = sim.now()
        raw = self.preq('INFO', 'Signal=1' if body else None, ctype='application/dtmf-relay')
        if self.st == 'CONNECTED':
            self.tx('resp', code=200, method='INFO')
            self.ev('Info', 'Signal=1' if body else None, rtime=self.now)
        elif self.st == 'DISCONNECTED':
            self.tx('resp', code=500, method='INFO')
        else:
            raise Prune()
        sim.deliver(self.w, self.tm, raw, PEER)
        self.check('INFO')

    def options(self):
        self.hist.append('OPTIONS')
        self.now = sim.now()
        raw = self.preq('OPTIONS')
        if self.st != 'CONNECTED':
            raise Prune()
        self.tx('resp', code=200, method='OPTIONS')
        sim.deliver(self.w, self.tm, raw, PEER)
        self.check('OPTIONS')

    def ack(self, body=None):
        """explicit ACK to our oldest unacknowledged final answer"""
        self.hist.append('ACK' + (body or ''))
        self.now = sim.now()
        m = self.finals[min(self.finals)]
        self.deliver_ack(m, SDP[body] if body else '')
        self.check('ACK')

    # ------------------------------------------------------------ end of run
    def finish(self):
        """the owner lets go of whatever is left, time passes, nothing may remain"""
        if self.st in ('TRYING', 'RINGING', 'CONNECTED', 'UPD_UAC', 'UPD_UAS', 'IDLE'):
            self.owner('Disconnect')
        self.hist.append('drain')
        self.advance(1000)
        while self.held:
            self.release()
        need(self.st == 'DEAD', 'reference leg not dead: %s (%s)', self.st, self.hist)
        need(len(self.w.timers) == self.h.base, 'timers left: %s (%s)', [t.name for t in self.w.timers], self.hist)
        tm = self.tm
        need(not tm.tclient and not tm.tserver, 'transactions left: client %d server %d (%s)', len(tm.tclient), len(tm.tserver), self.hist)
        need(not tm.req_consumers, 'dialog still registered (%s)', self.hist)
        dur, delay, conn, disc = self.ua.getAcct()
        if self.conn_t is None:
            exp = (0, None, False, True)
        else:
            exp = (self.disc_t - self.conn_t, self.conn_t - self.setup_t, True, True)
        need(conn == exp[2] and disc and abs(float(dur) - exp[0]) < 1e-3 and (exp[1] is None or abs(float(delay) - exp[1]) < 1e-3),
             'call lasted %r after %r, connected %r, expected %r (%s)', dur, delay, conn, exp, self.hist)
        self.ctx.outcome = tuple(self.hist)


class UacRun(Run):
    def start(self, body='E', mf=None):
        self.owner('Try', body=body, mf=mf)


class UasRun(Run):
    start = Run.invite
