"""C18: codec policy, over all small descriptions in every message of a call that carries one."""
from b2b_model import *
import itertools
from sippy.Rtp_proxy.session import Rtp_proxy_session

TE, G729 = 'telephone-event/8000', 'G729/8000'
ITEMS = ('0', '8', '18', '10', '101', '[%s]' % TE, '[%s]' % G729)
# name -> (m= prefix, formats, attributes)
A0 = ['rtpmap:0 PCMU/8000', 'rtpmap:8 PCMA/8000']
MAPS = {0: 'PCMU/8000', 8: 'PCMA/8000', 18: G729, 101: TE, 1: 'X/8000', 10: 'L16/44100/2', 108: 'Y/8000', 96: 'H264/90000', 31: None, 97: TE, 80: 'Z/1'}


def sect(fmts, head='audio 9000 RTP/AVP', fmtp=(101, 18), other=('ptime:20', 'sendrecv'), mapped=None, c=None):
    at = []
    for f in dict.fromkeys(fmts):
        if MAPS.get(f) and (mapped is None or f in mapped):
            at.append('rtpmap:%d %s' % (f, MAPS[f]))
        if f in fmtp:
            at.append('fmtp:%d %s' % (f, '0-15' if f == 101 else 'annexb=no'))
    return (head, tuple(fmts), tuple(at) + tuple(other), c)


SECTS = {}
for i, f in enumerate([(0,), (8, 0), (0, 8, 101), (18, 101), (101, 0), (1, 10, 101), (8, 108, 80), (0, 8, 18, 101, 10), (97, 18), (101, 97, 8)]):
    SECTS['s%d' % i] = sect(f)
SECTS.update({
    'bare': sect((0, 18, 8), mapped=(), fmtp=(), other=()), 'dup': sect((0, 8, 0)), 'bw': sect((0, 8), c='192.0.2.77'),
    'mix': ('audio 9002 RTP/AVP', (0, 8, 101), ('sendonly', 'fmtp:101 0-11', 'rtpmap:101 ' + TE, 'ptime:30', 'rtpmap:0 PCMU/8000', 'maxptime:60', 'rtpmap:8 PCMA/8000', 'label:8', 'silenceSupp:off - - - -'), None),
    'savp': sect((0, 8), head='audio 9000 RTP/SAVP', other=('crypto:1 AES_CM_128_HMAC_SHA1_80 inline:8',)),
    'dtls': sect((8, 101), head='audio 9 UDP/TLS/RTP/SAVPF', other=('fingerprint:sha-256 00:08:65', 'setup:actpass', 'mid:0')),
    'video': sect((96, 31), head='video 9100 RTP/AVP', other=('fmtp:96 profile-level-id=42e01f',)),
    'video8': sect((8, 96), head='video 9100 RTP/AVP', other=()),
    'lower': sect((18, 0), head='audio 9000 rtp/avp'),
})
OTHER = {'t38': 'm=image 9200 udptl t38\r\na=T38FaxVersion:0\r\n', 'bfcp': 'm=application 9300 UDP/BFCP *\r\na=floorctrl:c-only\r\n', 'tcp': 'm=message 9400 TCP/MSRP *\r\n'}


def text(names, ver, keep=None, tail=''):
    """the description, with keep(section) saying which formats stay; None if one is left empty"""
    s = 'v=0\r\no=- 7 %d IN IP4 198.51.100.9\r\ns=-\r\nc=IN IP4 198.51.100.9\r\nt=0 0\r\na=group:X 0 8\r\n' % ver
    for n in names:
        if n in OTHER:
            s += OTHER[n]
            continue
        head, fmts, at, c = SECTS[n]
        k = fmts
        if keep is not None:
            k = keep(fmts, at)
            if not k:
                return None
        s += 'm=%s %s\r\n' % (head, ' '.join(str(x) for x in k))
        if c:
            s += 'c=IN IP4 %s\r\n' % c
        for a in at:
            w = a.split(':', 1)
            if w[0] in ('rtpmap', 'fmtp') and int(w[1].split(' ')[0]) not in k and len(k) < len(fmts):
                continue
            s += 'a=%s\r\n' % a
    return s + tail


def keeper(allowed):
    def keep(fmts, at):
        ok = set()
        for a in allowed:
            if a[0] == '[':
                nm = [x for x in at if x.startswith('rtpmap:') and x.split(' ', 1)[1] == a[1:-1]]
                if nm:
                    # the first payload type of that name
                    ok.add(int(nm[0][7:].split(' ')[0]))
            else:
                ok.add(int(a))
        return tuple(f for f in fmts if f in ok)
    return keep


def same(got, exp, what):
    got, exp = norm_sdp(got), norm_sdp(exp)
    need(got == exp, '%s: the description passed on is\n%s\ninstead of\n%s', what, got, exp)


def scen(ch, ctx, cfg):
    br = Bridge(dict(conf=[('auth_enable', 'off'), ('static_route', '%s:%d' % CALLEES['1']), ('allowed_pts', ','.join(cfg['allowed']))]))
    keep = keeper(cfg['allowed'])
    names = cfg['offers']
    n = [0]

    def pick(label):
        w = names[ch.choose(len(names))]
        n[0] += 1
        return w, text(w, n[0]), text(w, n[0], keep)
    w, raw, exp = pick('offer')
    late = cfg.get('late')
    if late:
        raw, exp = '', ''
    elif cfg.get('nat'):
        exp = exp and exp + 'a=nated:yes\r\n'
    st = (cfg['name'], w)
    A = br.call(cld='nat-5551' if cfg.get('nat') else '5551', body=raw)
    br.pump()
    got = [x for x in br.take()]
    inv = [x for x in got if x[1] == 'INVITE']
    if exp is None:
        need(not inv, 'a call whose media are all prohibited was passed on')
        need([(x[0], x[3]) for x in got] == [(A, 488)], 'a call with prohibited media: %s', got)
        ctx.outcome = st + ('488',)
        br.quiet_end()
        return
    need(len(inv) == 1 and len(got) == 1, 'the call was not placed: %s', got)
    B = inv[0][0]
    same(inv[0][2], exp, 'INVITE')
    ctx.step('offer %s' % (w,), st)
    if cfg['upto'] == 0:
        A.cancel()
        br.pump()
        B.party.deaf = B.st == 'new'
        br.quiet_end()
        ctx.outcome = st
        return
    kind = ('200', '183', '180+200', '183+200')[ch.choose(4)]
    w, raw, exp = pick('answer')
    st += (kind, w)
    dead = False
    if '+' in kind:
        if kind[:3] == '180':
            B.answer(180, '')
            same0 = ''
            br.pump()
            g = br.take()
            need([(x[0], x[3], x[5]) for x in g] == [(A, 180, same0)], 'provisional answer: %s', g)
        else:
            B.answer(183, raw)
            br.pump()
            g = br.take()
            if exp is None:
                dead = refused(br, A, B, g, 183)
            else:
                need([(x[0], x[3]) for x in g] == [(A, 183)], 'provisional answer: %s', g)
                same(g[0][5], exp, '183')
    if not dead:
        code = 183 if kind == '183' else 200
        aw, araw, aexp = pick('ack') if late and code == 200 and exp is not None else (0, '', '')
        br.ackbody = araw
        B.answer(code, raw)
        br.pump()
        g = br.take()
        if exp is None:
            dead = refused(br, A, B, g, code)
        else:
            r = [x for x in g if x[0] is A and x[1] == 'resp']
            need([x[3] for x in r] == [code], 'answer %d: %s', code, g)
            same(r[0][5], exp, str(code))
            acks = [x for x in g if x[0] is B]
            st += (aw,)
            if aexp is None:
                need(sorted(x[1] for x in acks) == ['ACK', 'BYE'] and not [x[2] for x in acks if x[1] == 'ACK'][0], 'callee of a call confirmed with prohibited media saw %s', acks)
                need([x[1] for x in g if x[0] is A] == ['resp', 'BYE'], 'caller which confirmed with prohibited media saw %s', g)
                dead = True
            else:
                need([x[1] for x in acks] == (['ACK'] if code == 200 else []), 'callee saw %s', acks)
                if acks:
                    same(acks[0][2], aexp, 'ACK')
    ctx.step('%s %s' % (kind, w), st)
    if dead or kind == '183':
        if not dead:
            A.cancel()
            br.pump()
        B.party.deaf = B.st == 'new'
        br.quiet_end()
        ctx.outcome = st
        return
    # session changes from either side
    for i in range(cfg['upto'] - 1):
        me, other = (A, B) if ch.choose(2) == 0 else (B, A)
        w, raw, exp = pick('re')
        st += (me is A, w)
        me.reinvite(raw)
        br.pump()
        g = br.take()
        if exp is None:
            need([(x[0], x[1], x[3] if x[1] == 'resp' else 0) for x in g] == [(me, 'resp', 488)], 'a session change to prohibited media: %s', g)
            ctx.step('re %s' % (w,), st)
            continue
        need([(x[0], x[1]) for x in g] == [(other, 'reINVITE')], 'session change: %s', g)
        same(g[0][2], exp, 're-INVITE')
        w, raw, exp = pick('reans')
        st += (w,)
        other.answer_re(200, raw)
        br.pump()
        g = br.take()
        ctx.step('re %s' % (w,), st)
        if exp is None:
            x = sorted((y[0] is me, y[1], y[3] if y[1] == 'resp' else 0) for y in g)
            need(not any(y[5] for y in g if y[1] == 'resp'), 'prohibited media passed on: %s', g)
            need(x == sorted([(True, 'resp', 502), (True, 'BYE', 0), (False, 'ACK', 0), (False, 'BYE', 0)]), 'prohibited media in an answer to a session change: %s', g)
            dead = True
            break
        r = [y for y in g if y[0] is me]
        need([y[3] for y in r] == [200], 'answer to the session change: %s', g)
        same(r[0][5], exp, 're-200')
    if not dead:
        (A, B)[ch.choose(2)].bye()
    br.pump()
    ctx.outcome = st
    br.quiet_end()


def refused(br, A, B, g, code):
    need(not any(x[5] for x in g if x[1] == 'resp'), 'prohibited media passed on: %s', g)
    need([(x[0], x[3]) for x in g if x[1] == 'resp'] == [(A, 488)], 'the caller of a call answered with prohibited media saw %s', g)
    need(sorted(x[1] for x in g if x[0] is B) == (['ACK', 'BYE'] if code >= 200 else ['CANCEL']), 'the callee which answered with prohibited media saw %s', g)
    return True


if __name__ == '__main__':
    def body():
        c = Check('C18', 'model_checking')
        L = []
        sing = [(s,) for s in SECTS]
        multi = [('s2', 'video'), ('video', 's1'), ('s2', 's3'), ('s0', 't38'), ('t38',), ('bfcp', 's7'), ('tcp', 's1', 'video8'), ('s1', 's1'), ()]
        subs = [x for k in range(1, len(ITEMS) + 1) for x in itertools.combinations(ITEMS, k)]
        for a in subs:
            L.append(dict(name='off-' + ','.join(a), allowed=a, offers=sing + multi, upto=0))
            if len(a) > 1:
                r = tuple(reversed(a))
                L.append(dict(name='nat-' + ','.join(r), allowed=r, offers=sing + multi, upto=0, nat=True))
        few = [('s2',), ('s3', 'video8'), ('mix', 't38'), ('s5',)]
        for a in c.q([('0',), ('8', '101'), ('18', '[%s]' % TE)], [x for x in subs if len(x) <= 3]):
            L.append(dict(name='ans-' + ','.join(a), allowed=a, offers=sing + multi if c.thorough and len(a) < 3 else few + [('s9',), ('dtls',)], upto=1))
            L.append(dict(name='late-' + ','.join(a), allowed=a, offers=few[:c.q(4, 4)], upto=1, late=True))
            L.append(dict(name='re-' + ','.join(a), allowed=a, offers=few[:c.q(3, 4)], upto=2))
        if c.thorough:
            for a in (('0',), ('8', '101'), ('8', '[%s]' % TE)):
                L.append(dict(name='re2-' + ','.join(a), allowed=a, offers=few[:3], upto=3))
        for k in c.q((3, 4), (3, 4, 5)):
            for a in (('0',), ('8', '101'), ('18', '[%s]' % TE)):
                L.append(dict(name='long%d-' % k + ','.join(a), allowed=a, offers=few[:3], upto=c.q(8, 20), cycle=k))
        c.explore('calls', scen, L)
        c.finish()
    main(body)
