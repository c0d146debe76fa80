"""C07: time limits of a call leg."""
from ua_model import *
import c05
from sippy.Time.MonoTime import MonoTime


def set_credit(r, k, dt):
    """the owner sets one more credit deadline, dt from now (None takes it back)"""
    r.hist.append('credit%s:%s' % (k, dt))
    r.now = sim.now()
    r.credits[k] = None if dt is None else r.now + dt
    if r.st in ('CONNECTED', 'UPD_UAC', 'UPD_UAS'):
        r.stop('credit')
        v = [x for x in list(r.credits.values()) if x is not None]
        if r.lim.get('credit') is not None and 0 not in r.credits:
            r.credits[0] = r.now + r.lim['credit']
            v.append(r.credits[0])
        if v:
            r.t['credit'] = min(v)
    r.ua.resetCreditTime(MonoTime(), {k: None if dt is None else MonoTime().getOffsetCopy(dt)})
    r.check('credit')


def actions(r):
    st = r.st
    a = []
    if r.inv is not None and r.txn in ('TRYING', 'PROC'):
        a += [('resp', 100), ('resp', 180), ('resp', 200, 'C'), ('resp', 486)]
    if st in ('TRYING', 'RINGING') and r.role == 'uas':
        a += [('own', 'Ring', None), ('own', 'Ring', 100), ('own', 'Connect', 'G'), ('own', 'Fail'), ('cancel',)]
    if r.pending:
        a += [('own', 'Connect', 'E')]
    if st in ('CONNECTED', 'UPD_UAC', 'UPD_UAS'):
        if not r.pending:
            if r.cfg.get('upd'):
                a += [('reinv', 'D')]
                if st == 'UPD_UAS':
                    a += [('own', 'Connect', 'G'), ('own', 'Fail')]
                if st == 'CONNECTED':
                    a += [('own', 'Update', 'F')]
            if r.cfg.get('crd'):
                a += [('crd', 1, 2.5), ('crd', 1, None), ('crd', 2, 9.0)]
        a += [('bye',)]
    if st not in OVER:
        a += [('own', 'Disconnect')]
    if st not in ('DEAD',):
        a += [('t', x) for x in r.cfg['dts']]
    return a


def scen(ch, ctx, cfg):
    cfg = c05.thaw(cfg)
    if cfg['role'] == 'uac':
        r = UacRun(cfg, ctx)
        r.start(cfg.get('body', 'E'))
    else:
        r = UasRun(cfg, ctx)
        r.start('A', expires=cfg.get('expires'))
    for a in cfg.get('pre', ()):
        c05.apply(r, a)
    for i in range(cfg['depth']):
        opts = actions(r)
        if not opts:
            break
        a = opts[ch.choose(len(opts))]
        if a[0] == 'crd':
            set_credit(r, a[1], a[2])
        else:
            c05.apply(r, a)
        r.advance(0.25)
        ctx.step(str(a), (cfg['name'], r.st, r.txn, tuple(sorted(r.t)), r.pending))
        if r.st == 'DEAD':
            break
    r.finish()


if __name__ == '__main__':
    def body():
        c = Check('C07', 'model_checking')
        d = c.q(3, 5)
        L = []
        vals = dict(noreply=(None, 3, 6, 40), noprog=(None, 5, 2), expire=(None, 7, 4, 5), credit=(None, 4))
        for nr in vals['noreply']:
            for np in vals['noprog']:
                for ex in vals['expire']:
                    cr = 4 if (nr, np) in ((None, None), (3, 5)) else None
                    if nr is None and np is None and ex is None:
                        continue
                    L.append(dict(role='uac', depth=c.q(2, 4) if cr is None else d, lim=dict(noreply=nr, noprog=np, expire=ex, credit=cr), dts=(1.3, 3.5, 35.0)))
        for np in vals['noprog']:
            for ex in vals['expire']:
                for cr in vals['credit']:
                    L.append(dict(role='uas', depth=d, lim=dict(noprog=np, expire=ex, credit=cr), dts=(1.3, 3.5, 35.0)))
                    if (np, ex, cr) in ((5, 7, 4), (None, 4, None)):
                        L.append(dict(role='uas', depth=d, lim=dict(noprog=np, expire=ex, credit=cr), dts=(1.3, 3.5, 35.0), expires=6))
        for role, pre in (('uac', (('resp', 200, 'C'),)), ('uas', (('own', 'Connect', 'G'),))):
            L.append(dict(role=role, depth=c.q(4, 5), lim=dict(credit=5, expire=8), dts=(1.3, 4.4, 35.0), pre=pre, upd=True))
            L.append(dict(role=role, depth=c.q(4, 5), lim=dict(credit=7), dts=(1.3, 6.0), pre=pre, crd=True))
            L.append(dict(role=role, depth=c.q(4, 5), lim=dict(), dts=(1.3, 6.0), pre=pre, crd=True))
        L.append(dict(role='uac', depth=c.q(4, 5), lim=dict(credit=5, expire=7, noprog=4), body=None, dts=(1.3, 4.4, 35.0)))
        L.append(dict(role='uac', depth=c.q(4, 5), lim=dict(credit=5), body=None, dts=(1.3, 4.4, 35.0), pre=(('resp', 200, 'C'),)))
        for i, x in enumerate(L):
            x['name'] = '%s%d' % (x['role'], i)
        c.explore('limits', scen, [c05.freeze(x) for x in L])
        c.finish()
    main(body)
