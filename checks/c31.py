"""C31: the language spoken with the relay.  Every combination of command parts, printed and parsed back
by the real classes, compared by an independent reader; every documented form of answer."""
from common import *
import itertools, re
sim.std_setup()
from sippy.Rtp_proxy.cmd import Rtp_proxy_cmd, UpdateLookupOpts, Rtpp_stats
import sippy.Rtp_proxy.Session.update as upd
from sippy.Exceptions.RtpProxyError import RtpProxyError


def read_opts(s):
    """independent reader of the options of U and L: a sorted list of (letter, value)"""
    res = []
    i = 0
    while i < len(s):
        ch = s[i]
        i += 1
        if ch in 'RL':
            m = re.compile(r'\[[0-9a-fA-F:.]*\]|[0-9.]+').match(s, i)
        elif ch == 'c':
            m = re.compile(r'[0-9]+(,[0-9]+)*').match(s, i)
        elif ch in 'ztT':
            m = re.compile(r'[0-9]+').match(s, i)
        else:
            m = None
        v = m.group(0) if m else ''
        i += len(v)
        res.append((ch, v))
    return sorted(res)


def read_cmd(s):
    """independent reader of a whole command"""
    sub = None
    t = s[0].upper()
    if t in 'UL':
        parts = s.split(' && ', 1)
        if len(parts) > 1:
            s, sub = parts
        w = s.split()
        d = {'type': t, 'opts': read_opts(w[0][1:]), 'id': w[1], 'ip': w[2], 'port': w[3], 'from': w[4], 'to': None, 'ns': None, 'nt': None, 'sub': sub}
        r = w[5:]
        if len(r) in (1, 3):
            d['to'] = r.pop(0)
        if r:
            d['ns'], d['nt'] = r
        return d
    return {'type': t, 'rest': s[1:].split(None) if t not in 'VI' else s[1:]}


OPTS = ['6', 'e', 'i', 'w', 's', 'N', 'z20', 't8', 'c0', 'c8,101', 'R10.1.2.3', 'R[2001:db8::c1]', 'L192.0.2.9', 'L[fe80::e6]']
TAILS = ['', ' tag2', ' unix:/s.sock n%201', ' tag2 tcp:%%CC_SELF%%:22223 .s%20r']
SUBS = ['', ' && M0:0', ' && M4:1:2 && M5:1-0']


def one(ctx, txt, how):
    ctx.step(txt, txt)
    o = Rtp_proxy_cmd(txt)
    back = str(o)
    need(read_cmd(back) == read_cmd(txt), '%s: %r printed as %r', how, txt, back)
    o2 = Rtp_proxy_cmd(back)
    need(read_cmd(str(o2)) == read_cmd(txt), '%s: %r after two rounds %r', how, txt, str(o2))
    for a in ('type', 'command_opts', 'call_id', 'args'):
        need(getattr(o, a) == getattr(o2, a), '%s: %s of %r changes from %r to %r', how, a, txt, getattr(o, a), getattr(o2, a))
    return o, o2


UATTR = ('destination_ip', 'local_ip', 'codecs', 'otherparams', 'remote_ip', 'remote_port', 'from_tag', 'to_tag', 'notify_socket', 'notify_tag', 'subargs')


def updates(ch, ctx, cfg):
    """commands as they come from the other end"""
    n = cfg['n']
    seq = []
    for i in range(n):
        seq.append(OPTS[ch.choose(len(OPTS))])
    if len(set(o[0] for o in seq)) < n:
        raise Prune
    if any(b == '6' and a not in ('e', 'i', 'w', 's', 'N') for a, b in zip(seq, seq[1:])):
        raise Prune         # would be read as part of the value before it
    t = cfg['type'] + ''.join(seq)
    for tail in cfg['tails']:
        for sub in cfg['subs']:
            txt = '%s call%%20id-1 %s 4000 tag1%s%s' % (t, cfg['ip'], tail, sub)
            o, o2 = one(ctx, txt, 'update')
            want = read_cmd(txt)
            u, u2 = o.ul_opts, o2.ul_opts
            for a in UATTR:
                need(getattr(u, a) == getattr(u2, a), '%s of %r is %r, then %r', a, txt, getattr(u, a), getattr(u2, a))
            d = dict(want['opts'])
            got = {'opts': {'R': u.destination_ip, 'L': u.local_ip, 'c': ','.join(map(str, u.codecs)) if u.codecs is not None else None}, 'id': o.call_id, 'ip': u.remote_ip, 'port': u.remote_port,
                   'from': u.from_tag, 'to': u.to_tag, 'ns': u.notify_socket, 'nt': u.notify_tag, 'sub': u.subargs}
            exp = dict(want, opts={k: d.get(k) for k in 'RLc'})
            exp.pop('type')
            need(got == exp, '%r understood as %s', txt, {k: v for k, v in got.items() if v != exp[k]})
            need(sorted(u.otherparams) == sorted(''.join(k + v for k, v in want['opts'] if k not in 'RLc')), '%r: other options %r', txt, u.otherparams)
    ctx.outcome = (t, cfg['ip'])


def built(ch, ctx, cfg):
    """options put together by a program"""
    pick = lambda s: s[ch.choose(len(s))]
    dst, loc = pick([None, '10.1.2.3', '[2001:db8::c1]']), pick([None, '192.0.2.9', '[fe80::e6]'])
    cod, oth = pick([None, [0], [8, 101], [18, 0, 8]]), pick([None, '', '6', 'ew', 'z20', '6N', 'sz205'])
    u = UpdateLookupOpts(None, dst, loc, cod, oth)
    u.remote_ip, u.remote_port = cfg['ip'], '4000'
    u.from_tag, u.to_tag = 'ft', pick([None, 'tt'])
    if pick([0, 1]):
        u.notify_socket, u.notify_tag = 'unix:/x', 'nn'
    u.subargs = pick([None, 'M4:1'])
    txt = cfg['type'] + u.getstr('cid')
    want = {'type': cfg['type'], 'id': 'cid', 'ip': cfg['ip'], 'port': '4000', 'from': 'ft', 'to': u.to_tag, 'ns': u.notify_socket, 'nt': u.notify_tag, 'sub': u.subargs,
            'opts': sorted(read_opts(oth or '') + ([('R', dst)] if dst else []) + ([('L', loc)] if loc else []) + ([('c', ','.join(map(str, cod)))] if cod else []))}
    need(read_cmd(txt) == want, 'options %s printed as %r', (dst, loc, cod, oth), txt)
    o, o2 = one(ctx, txt, 'built')
    for a in UATTR:
        x, y = getattr(u, a), getattr(o.ul_opts, a)
        need((x or None) == (y or None), '%s of %r is %r after parsing', a, txt, y)
    if u.to_tag is not None:
        w = 'U' + u.getstr('cid', swaptags=True)
        need(read_cmd(w) == dict(want, **{'type': 'U', 'from': 'tt', 'to': 'ft'}), 'swapped tags in %r', w)
        w = u.getstr('cid', skipnotify=True)
        need(read_cmd('U' + w)['ns'] is None and read_cmd('U' + w)['from'] == 'ft', 'notification not left out of %r', w)
    else:
        try:
            u.getstr('cid', swaptags=True)
            need(False, 'tags swapped with no second tag')
        except Violation:
            raise
        except Exception:
            pass
    ctx.outcome = txt


OTHERS = ['D call-1 ft tt', 'D call-1 ft', 'Dw call-1 ft tt', 'P5 call-1 /snd/file 0,8 ft tt', 'P call-1 prompt session ft', 'S call-1 ft tt', 'R call-1 ft tt', 'RS call-1 ft', 'C call-1 file.rec ft tt',
          'Cp call-1 file ft', 'Q call-1 ft tt 1', 'Qv call-1 ft tt nsess', 'V', 'VF 20040107', 'I', 'Ib', 'X', 'G nsess_created total_duration', 'Gv nsess_created total_duration', 'Gv n1', 'G n1',
          'd call-1 ft tt', 'gv n1 n2', 'D call-1 ft tt && M4:0', 'D  call-1  ft   tt', 'D call-1 \u00fctag x']


def others(ch, ctx, cfg):
    txt = OTHERS[ch.choose(len(OTHERS))]
    o, o2 = one(ctx, txt, 'other')
    need(str(o)[0] == txt[0].upper(), 'type of %r', txt)
    w = txt.split()
    if txt[0] in 'DPSRCQd':
        need(o.call_id == w[1] and o.command_opts == w[0][1:] and o.args.split() == w[2:], '%r understood as %s', txt, (o.command_opts, o.call_id, o.args))
    ctx.outcome = txt


class Rtpps:
    class rtp_proxy_client:
        proxy_address = '203.0.113.1'


class Sub:
    """stands for a group of sub-commands"""
    def __init__(self, n, refuse):
        self.commands = ['M%d' % i for i in range(n)]
        self.refuse, self.got = refuse, None

    def handle_results(self, results, ur):
        self.got = list(results)
        if self.refuse:
            return RtpProxyError('refused')


ANSWERS = [('4000', (4000, None, 'IP4')), ('4000 10.9.9.9', (4000, '10.9.9.9', 'IP4')), ('4000 2001:db8::9 6', (4000, '2001:db8::9', 'IP6')), ('65535 10.9.9.9 \n', (65535, '10.9.9.9', 'IP4')),
           ('4000\r\n', (4000, None, 'IP4')), ('4000 ::1 6\n', (4000, '::1', 'IP6')), ('4000 10.9.9.9 4', (4000, '10.9.9.9', 'IP4')),
           ('E1', None), ('E71\n', None), ('E8 && 0', None), ('0', None), ('0 10.9.9.9', None), (None, None), ('what', None), ('4000x', None), ('&& 0', None), ('-1', None)]
REM = [('IP4', '10.0.0.7', False), ('IP4', '0.0.0.0', True), ('IP6', '::', True), ('IP6', '2001:db8::7', False), ('IP6', '0.0.0.0', False), ('IP4', '::', False)]
SRES = ['', ' && 0', ' && 0 && 0', ' && 1 && 2 && 3', ' && -1', ' && 0 && -1', ' && 5 && 6 && 7 && 8', '&&0&&3']
SUBSETS = [(), (1,), (2,), (1, 1), (2, 1), (1, 2)]


def answers(ch, ctx, cfg):
    a, exp = ANSWERS[ch.choose(len(ANSWERS))]
    atype, rip, hold = REM[ch.choose(len(REM))]
    groups = SUBSETS[ch.choose(len(SUBSETS))]
    sres = SRES[ch.choose(len(SRES))] if a is not None and '&&' not in a else ''
    refuse = ch.choose(len(groups) + 1) if groups else 0
    up = upd.update_params()
    up.rtpps = Rtpps()
    up.proxy_address = up.rtpps.rtp_proxy_client.proxy_address      # as noted when the command was sent
    up.atype, up.remote_ip = atype, rip
    got = []
    up.result_callback = lambda ur, rtpps, ex=None: got.append((ur, ex))
    up.subcommands = [Sub(n, refuse == i + 1) for i, n in enumerate(groups)]
    txt = a if a is None else a.rstrip('\n') + sres + ('\n' if a.endswith('\n') else '')
    ctx.step(repr(txt), (txt, atype, rip, groups, refuse))
    up.process_rtpp_result(txt)
    need(len(got) == 1, 'answer %r reported %d times', txt, len(got))
    ur, ex = got[0]
    total = sum(groups)
    res = [x.strip() for x in sres.split('&&')[1:]] if sres else []
    if exp is not None and total:
        if len(res) > total or (res and res[-1] == '-1') or refuse:
            exp = None
        else:
            full = res + ['0'] * (total - len(res))
            for s in up.subcommands:
                need(s.got == full[:len(s.commands)], 'answer %r: results %s given to %s', txt, s.got, s.commands)
                full = full[len(s.commands):]
    if exp is None:
        need(ur is None and isinstance(ex, RtpProxyError), 'answer %r taken for a success: %s', txt, ur)
    else:
        need(ur is not None and ex is None, 'answer %r taken for an error: %s', txt, ex)
        want = (exp[0], exp[1] or '203.0.113.1', exp[2], hold)
        have = (ur.rtpproxy_port, ur.rtpproxy_address, ur.family, ur.sendonly)
        need(have == want, 'answer %r read as %s instead of %s', txt, have, want)
    ctx.outcome = (txt, hold, exp is None)


def gstats(ch, ctx, cfg):
    """figures of several relays added up"""
    names = [('nsess_created', 'total_duration'), ('total_duration',), ('a', 'b', 'c'), ('x', 'total_duration', 'y')][ch.choose(4)]
    s = Rtpp_stats(names)
    tot = [0] * len(names)
    for k in range(cfg['n']):
        row = [[3, 1.5], [0, 0.0], [7, 12.25]][ch.choose(3)]
        vals = [row[1] if n == 'total_duration' else row[0] for n in names]
        how = ch.choose(2)
        if how:
            t = Rtpp_stats(names)
            t.parseAndAdd(' '.join(map(str, vals)))
            s += t
        else:
            s.parseAndAdd('  '.join(map(str, vals)) + '\n')
        tot = [x + y for x, y in zip(tot, vals)]
    for v in (False, True):
        s.verbose = v
        out = str(s).split()
        if v:
            need([x.split('=')[0] for x in out] == list(names), 'names in %r', str(s))
            out = [x.split('=')[1] for x in out]
        need([float(x) for x in out] == [float(x) for x in tot], 'sum of figures %s, expected %s', out, tot)
    ctx.step(str(tot), (names, tuple(tot)))
    ctx.outcome = (names, tuple(tot))


if __name__ == '__main__':
    def body():
        c = Check('C31', 'model_checking')
        L = [dict(n=n, type=t, ip=ip, tails=TAILS, subs=SUBS) for n in range(0, 3) for t in 'ULu' for ip in ('10.0.0.7', '2001:db8::7')]
        L += [dict(n=3, type='U', ip='10.0.0.7', tails=TAILS[2:], subs=SUBS[:2])]
        if c.thorough:
            L += [dict(n=4, type='U', ip='10.0.0.7', tails=TAILS[:2], subs=SUBS[:2])]
        c.explore('updates', updates, L)
        c.explore('built', built, [dict(type=t, ip=ip) for t in 'UL' for ip in ('10.0.0.7', '::')])
        c.explore('others', others, [{}])
        c.explore('answers', answers, [{}])
        c.explore('stats', gstats, [dict(n=n) for n in range(1, c.q(4, 5))])
        c.finish()
    main(body)
