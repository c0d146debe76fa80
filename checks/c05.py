"""C05: call events of a user agent, lockstep, every bounded stimulus sequence."""
from ua_model import *


def uac_actions(r, full=True):
    st = r.st
    a = []
    if r.inv is not None and r.txn in ('TRYING', 'PROC'):
        a += [('resp', 100), ('resp', 180), ('resp', 183, 'B'), ('resp', 200, 'C'), ('resp', 200, None), ('resp', 486), ('resp', 302)]
        if full:
            a += [('resp', 300), ('resp', 603), ('resp', 481), ('resp', 200, 'notag')]
    if st in ('TRYING', 'RINGING', 'CONNECTED', 'UPD_UAC', 'UPD_UAS'):
        a += [('own', 'Disconnect'), ('own', 'Fail')]
        if full and st != 'CONNECTED':
            a += [('own', 'Redirect')]
    if st in ('CONNECTED', 'UPD_UAC', 'UPD_UAS') or st == 'DISCONNECTED' and r.est:
        a += [('bye',)]
    if r.held:
        a += [('rel', True), ('rel', False)]
    if r.sdpmode and (r.role == 'uac' or st == 'UPD_UAC') and r.txn in ('TRYING', 'PROC'):
        a += [('resp', 183, 'X'), ('resp', 200, 'X')]
    if r.sdpmode and st == 'CONNECTED' and not r.pending and not r.wait_ack:
        a += [('reinv', 'X'), ('own', 'Update', 'X')]
    if full and st in ('CONNECTED', 'UPD_UAS') and not r.wait_ack:
        a += [('refer', 'sip:over@192.0.2.77'), ('refer', None)]
    if full and st == 'CONNECTED':
        a += [('own', 'Disconnect', 'sip:over@192.0.2.78'), ('own', 'Redirect'), ('bye', 'sip:over@192.0.2.79')]
    if st in ('CONNECTED', 'UPD_UAC', 'UPD_UAS') and not r.wait_ack:
        a += [('reinv', 'D')]
        if full:
            a += [('reinv', 'same')]
    if st == 'CONNECTED' and not r.pending:
        a += [('own', 'Update', 'F'), ('info',), ('own', 'Info')]
        if full:
            a += [('own', 'Update', 'same'), ('options',), ('reinv', None), ('own', 'Update', 'F', 5), ('own', 'Update', 'F', 0)]
    if r.pending:
        a += [('own', 'Connect', 'E')]
        if r.sdpmode:
            a += [('own', 'Connect', 'X')]
    if st == 'UPD_UAS':
        a += [('own', 'Connect', 'G'), ('own', 'Ring', 183), ('cancel',)]
        if r.sdpmode:
            a += [('own', 'Connect', 'X'), ('own', 'Ring', 183, 'X')]
    if full:
        # makes no sense here: must be ignored
        if st in ('TRYING', 'RINGING', 'CANCELLING', 'FAILED', 'DISCONNECTED') and r.role == 'uac':
            a += [('own', 'Update', 'F'), ('own', 'Connect', 'G'), ('own', 'Info'), ('own', 'Ring', 180)]
        if st in ('CANCELLING', 'FAILED', 'DISCONNECTED', 'DEAD'):
            a += [('own', 'Disconnect'), ('own', 'Fail')]
    if full and r.pcseq > 100 and (st in ('CONNECTED', 'UPD_UAC', 'UPD_UAS') or st == 'DISCONNECTED' and r.est):
        a += [('stale', 'INFO', 0), ('stale', 'BYE', 1)]
        if r.autoack and st != 'UPD_UAS' and not r.finals:
            a += [('stale', 'INVITE', 0)]
    a += [('t', 0.7), ('t', 33.0)]
    if st in ('RINGING', 'CANCELLING', 'UPD_UAS') or r.txn == 'PROC':
        a += [('t', 301.0)]
    return a


def uas_actions(r, full=True):
    st = r.st
    a = []
    if st in ('TRYING', 'RINGING'):
        a += [('own', 'Ring', None), ('own', 'Ring', 183, 'H'), ('own', 'Connect', 'G'), ('own', 'Fail'), ('own', 'Redirect'),
              ('own', 'Disconnect'), ('cancel',)]
        if r.sdpmode:
            a += [('own', 'Ring', 183, 'X'), ('own', 'Connect', 'X')]
        if full:
            a += [('own', 'Ring', 100), ('own', 'PreConnect', 'G'), ('own', 'FailN'), ('dup',)]
            if st == 'RINGING':
                a += [('bye',)]
    if r.held:
        a += [('rel', True), ('rel', False)]
    if not r.autoack and r.finals:
        a += [('ack', None)]
        if r.wait_ack:
            a += [('ack', 'H')]
    if st not in ('TRYING', 'RINGING'):
        a += [x for x in uac_actions(r, full) if x not in a]
        if st == 'FAILED' or st == 'DISCONNECTED':
            a += [('cancel',)]
    else:
        a += [('t', 0.7), ('t', 33.0), ('t', 301.0)]
        if full:
            a += [('own', 'Update', 'F'), ('own', 'Info')]
    return a


def apply(r, a):
    k = a[0]
    hr = RSN if r.cfg.get('reasons') else None
    if k == 'resp':
        code = a[1]
        if len(a) > 2 and a[2] == 'notag':
            if r.st not in ('TRYING', 'RINGING'):
                raise Prune()
            r.resp(200, 'OK', None, totag=None)
        elif code in (300, 302):
            r.resp(code, 'Moved', contacts=('sip:n1@192.0.2.81', 'sip:n2@192.0.2.82:5082'), hreason=hr)
        else:
            r.resp(code, 'Reason%d' % code, a[2] if len(a) > 2 else None, hreason=hr if code >= 300 else None)
    elif k == 'own':
        kind = a[1]
        hr = RSN2 if r.cfg.get('reasons') and kind in ('Disconnect', 'Fail', 'Redirect', 'FailN') else None
        if kind == 'Fail':
            r.owner('Fail', code=480, reason=hr)
        elif kind == 'FailN':
            r.owner('Fail', reason=hr)
        elif kind == 'Ring':
            r.owner('Ring', code=a[2], body=a[3] if len(a) > 3 else None)
        elif kind == 'Info':
            r.owner('Info', body='x')
        elif kind in ('Connect', 'PreConnect', 'Update'):
            r.owner(kind, body=a[2], mf=a[3] if len(a) > 3 else None)
        elif kind == 'Disconnect' and len(a) > 2:
            r.owner(kind, reason=hr, data=a[2])
        else:
            r.owner(kind, reason=hr)
    elif k == 'bye':
        r.bye(hr, *a[1:])
    elif k == 'refer':
        r.refer(a[1])
    elif k == 'rel':
        r.release(a[1])
    elif k == 'cancel':
        r.cancel(hr)
    elif k == 'reinv':
        r.reinvite(a[1], hr)
    elif k == 'info':
        r.info()
    elif k == 'options':
        r.options()
    elif k == 'ack':
        r.ack(a[1])
    elif k == 'chalpre':
        r.challenge(a[1], a[2])
    elif k == 'dup':
        r.dup()
    elif k == 'stale':
        r.stale(*a[1:])
    elif k == 't':
        r.advance(a[1])
    else:
        raise AssertionError(a)


def thaw(cfg):
    cfg = dict(cfg)
    for k in ('lim', 'ua'):
        if k in cfg:
            cfg[k] = dict(cfg[k])
            if 'attrs' in cfg[k]:
                cfg[k]['attrs'] = dict(cfg[k]['attrs'])
    return cfg


def scen(ch, ctx, cfg):
    cfg = thaw(cfg)
    if cfg['role'] == 'uac':
        r = UacRun(cfg, ctx)
        if not cfg.get('notry'):
            r.start(cfg.get('body', 'E'), cfg.get('mf'))
        acts = uac_actions
    else:
        r = UasRun(cfg, ctx)
        r.start(cfg.get('body', 'A'), hreason=RSN if cfg.get('reasons') else None, expires=cfg.get('expires'))
        acts = uas_actions
    for a in cfg.get('pre', ()):
        apply(r, a)
        r.advance(0.3)
    cheap = cfg.get('cheap')
    for i in range(cfg['depth']):
        opts = acts(r, cfg.get('full', True))
        if cfg.get('only'):
            opts = [a for a in opts if any(a[:len(o)] == o for o in cfg['only'])]
        if not opts:
            break
        a = opts[ch.choose(len(opts))]
        apply(r, a)
        r.advance(0.2)
        ctx.step(str(a), (cfg['name'], r.st, r.txn, tuple(sorted(r.t)), r.pending, r.wait_ack))
        if r.st == 'DEAD' and i > 0:
            break
    r.finish()


def freeze(d):
    return tuple(sorted((k, freeze(v) if isinstance(v, dict) else v) for k, v in d.items()))


def cfgs(c, sel=None):
    d = c.q(3, 4)       # every stimulus
    e = c.q(4, 5)       # the leaner set
    L = [
        dict(name='uac', role='uac', depth=d),
        dict(name='uac-late', role='uac', body=None, depth=e, full=False),
        dict(name='uac-reasons', role='uac', depth=d, full=False, reasons=True),
        dict(name='uac-conn', role='uac', depth=d, pre=(('resp', 200, 'C'),)),
        dict(name='uac-conn-deep', role='uac', depth=e, full=False, pre=(('resp', 200, 'C'),)),
        dict(name='uas', role='uas', depth=d),
        dict(name='uas-noack', role='uas', depth=e, full=False, autoack=False),
        dict(name='uas-nobody', role='uas', depth=d, full=False, body=None, autoack=False),
        dict(name='uas-reasons', role='uas', depth=d, full=False, reasons=True),
        dict(name='uas-conn', role='uas', depth=d, pre=(('own', 'Connect', 'G'),)),
        dict(name='uas-exp', role='uas', depth=d, full=False, expires=9),
        dict(name='uac-sync', role='uac', depth=d, full=False, sdp='sync', mf=33),
        dict(name='uac-async', role='uac', depth=e, full=False, sdp='async'),
        dict(name='uac-bad', role='uac', depth=1, full=False, sdp='sync', body='X'),
        dict(name='uac-late-async', role='uac', body=None, depth=e, full=False, sdp='async'),
        dict(name='uac-conn-async', role='uac', depth=e, full=False, sdp='async', pre=(('rel', True), ('resp', 200, 'C'), ('rel', True))),
        dict(name='uas-sync', role='uas', depth=d, full=False, sdp='sync'),
        dict(name='uas-bad', role='uas', depth=1, full=False, sdp='sync', body='X'),
        dict(name='uas-async', role='uas', depth=e, full=False, sdp='async', pre=(('rel', True),)),
        dict(name='uas-async0', role='uas', depth=d, full=False, sdp='async'),
        dict(name='uas-nobody-async', role='uas', depth=d, full=False, body=None, autoack=False, sdp='async'),
        dict(name='uac-stale', role='uac', depth=d, pre=(('resp', 200, 'C'), ('info',))),
        dict(name='uac-conn-also', role='uac', depth=2, ua=dict(attrs=dict(useRefer=False)), pre=(('resp', 200, 'C'),)),
        dict(name='uac-deaf', role='uac', depth=d, full=False, autook=False),
    ]
    return [freeze(x) for x in L if sel is None or x['name'] in sel]


if __name__ == '__main__':
    def body():
        c = Check('C05', 'model_checking')
        c.explore('lockstep', scen, cfgs(c))
        c.finish()
    main(body)
