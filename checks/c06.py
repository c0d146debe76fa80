"""C06: every way a call leg can end, with the peer deaf, late or crossing."""
from ua_model import *
import c05

T = (('t',),)
OUT = T + (('resp', 100), ('resp', 180), ('resp', 200, 'C'), ('resp', 486), ('resp', 302), ('own', 'Disconnect'), ('own', 'Fail'), ('bye',), ('own', 'Connect', 'E'))
IN = T + (('own', 'Ring', None), ('own', 'Connect', 'G'), ('own', 'Fail'), ('own', 'Disconnect'), ('own', 'Redirect'), ('cancel',), ('bye',), ('ack', None), ('dup',))
MID = T + (('bye',), ('own', 'Disconnect'), ('own', 'Fail'), ('own', 'Redirect'), ('refer',), ('reinv', 'D'), ('own', 'Update', 'F'), ('cancel',), ('ack', None), ('resp', 100), ('resp', 200, 'C'), ('resp', 481), ('resp', 486), ('own', 'Connect', 'G'))


def cfgs(c):
    d, e, f = c.q(4, 6), c.q(4, 5), c.q(5, 6)
    conn = (('resp', 200, 'C'),)
    uconn = (('own', 'Connect', 'G'),)
    L = [
        dict(name='out', role='uac', depth=e, only=OUT),
        dict(name='out-deaf', role='uac', depth=e, only=OUT, autook=False, full=False),
        dict(name='out-late', role='uac', depth=e, only=OUT, body=None, full=False),
        dict(name='out-lim', role='uac', depth=d - 1, only=OUT, full=False, lim=dict(noreply=0.5, noprog=0.8, expire=30)),
        dict(name='out-sdp', role='uac', depth=e, full=False, sdp='sync', only=OUT + (('resp', 200, 'X'), ('resp', 183, 'X'))),
        dict(name='in', role='uas', depth=e, only=IN),
        dict(name='in-noack', role='uas', depth=e, only=IN, autoack=False, full=False),
        dict(name='in-exp', role='uas', depth=e, only=IN, expires=9, full=False, lim=dict(noprog=0.5, expire=30)),
        dict(name='mid-out', role='uac', depth=c.q(3, 4), only=MID, pre=conn),
        dict(name='mid-out-deaf', role='uac', depth=c.q(3, 4), only=MID, pre=conn, autook=False, lim=dict(credit=33)),
        dict(name='mid-in', role='uas', depth=c.q(3, 4), only=MID, pre=uconn),
        dict(name='mid-in-noack', role='uas', depth=c.q(3, 4), only=MID, pre=uconn, autoack=False, autook=False),
        dict(name='mid-late', role='uac', depth=c.q(3, 4), only=MID + (('own', 'Connect', 'E'),), pre=conn, body=None),
        dict(name='mid-upd', role='uac', depth=c.q(3, 4), only=MID, pre=conn + (('own', 'Update', 'F'), ('resp', 100))),
        dict(name='mid-upd-in', role='uas', depth=c.q(3, 4), only=MID, pre=uconn + (('reinv', 'D'),)),
    ]
    return [c05.freeze(x) for x in L]


KA = (('t', 11.0), ('t', 33.0), ('own', 'Disconnect'), ('bye',), ('own', 'Update', 'F'), ('reinv', 'D'), ('resp', 200, 'C'), ('own', 'Connect', 'G'))


def ka(ch, ctx, cfg):
    """keepalives: a peer that has lost the call is found out and the leg released"""
    cfg = c05.thaw(cfg)
    r = (UacRun if cfg['role'] == 'uac' else UasRun)(cfg, ctx)
    r.start('A')
    for a in cfg['pre']:
        c05.apply(r, a)
        r.advance(0.3)
    for i in range(cfg['depth']):
        acts = [a for a in c05.uac_actions(r, False) if a[:3] in KA]
        if r.st == 'CONNECTED' and 'ka' in r.t:
            acts.append(('t', 11.0))
        if r.ka is not None and r.katx in ('TRYING', 'PROC') and not r.kaold:
            acts += [('ka', 200), ('ka', 481), ('ka', 180), ('ka', 486), ('ka', 500), ('ka', 408)]
        a = acts[ch.choose(len(acts))]
        if a[0] == 'ka':
            r.karesp(a[1])
        else:
            c05.apply(r, a)
        r.advance(0.2)
        ctx.step(str(a), (cfg['name'], r.st, r.kas, r.katx, tuple(sorted(r.t))))
        if r.st == 'DEAD':
            break
    r.finish()


if __name__ == '__main__':
    def body():
        c = Check('C06', 'model_checking')
        c.explore('ends', c05.scen, cfgs(c))
        d = c.q(5, 6)
        kc = [dict(name='ka-out', role='uac', depth=d, ua=dict(attrs=dict(kaInterval=10)), pre=(('resp', 200, 'C'),)),
              dict(name='ka-in', role='uas', depth=c.q(4, 5), ua=dict(attrs=dict(kaInterval=10)), pre=(('own', 'Connect', 'G'),))]
        c.explore('keepalive', ka, [c05.freeze(x) for x in kc])
        c.finish()
    main(body)
