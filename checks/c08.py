"""C08: authentication challenges to INVITE, re-INVITE and keepalive."""
from ua_model import *
import c05

U = dict(username='u 1', password='p:w')


def actions(r):
    st = r.st
    a = []
    if r.inv is not None and r.txn in ('TRYING', 'PROC'):
        a += [('chal', 401, l) for l in r.cfg['labels']] + [('chal', 407, r.cfg['labels'][0]), ('chal', 407, r.cfg['labels'][-1])]
        a += [('resp', 100), ('resp', 180), ('resp', 200, 'C'), ('resp', 486)]
    if st == 'CONNECTED':
        a += [('own', 'Update', 'F')]
        if r.ka is not None and r.katx in ('TRYING', 'PROC') and not r.kaold:
            a += [('ka', 401, r.cfg['labels'][0]), ('ka', 407, r.cfg['labels'][-1]), ('ka', 200), ('ka', 180)]
        if 'ka' in r.t:
            a += [('t', 41.0)]
    if st not in OVER:
        a += [('own', 'Disconnect')]
    if st in ('TRYING', 'UPD_UAC'):
        a += [('t', 4.0), ('t', 33.0)]
    return a


def scen(ch, ctx, cfg):
    cfg = c05.thaw(cfg)
    r = UacRun(cfg, ctx)
    r.start(cfg.get('body', 'E'), cfg.get('mf'))
    for a in cfg.get('pre', ()):
        c05.apply(r, a)
    for i in range(cfg['depth']):
        opts = actions(r)
        if not opts:
            break
        a = opts[ch.choose(len(opts))]
        if a[0] == 'chal':
            r.challenge(a[1], a[2])
        elif a[0] == 'ka':
            r.karesp(a[1], a[2] if len(a) > 2 else None)
        else:
            c05.apply(r, a)
        r.advance(0.2)
        ctx.step(str(a), (cfg['name'], r.st, r.txn, r.chal, r.katx, tuple(sorted(r.t))))
    r.finish()


if __name__ == '__main__':
    def body():
        c = Check('C08', 'model_checking')
        q = c.q
        X = (('X-Foo', 'a=1; b'), ('X-Bar', 'two'))
        ALL = tuple(k for k in CHALS if k != 'other') + ('other',)
        L = [
            dict(name='all', depth=q(2, 3), labels=ALL, ua=U, xh=X, mf=17, lim=dict(expire=5)),
            dict(name='deep', depth=q(4, 5), labels=('md5', 'foo', 'int'), ua=U, xh=X),
            dict(name='late', depth=q(3, 4), labels=('both', 'int'), ua=U, body=None),
            dict(name='nocred', depth=q(3, 3), labels=('md5', 'foo', 'none', 'both'), ua={}, xh=X),
            dict(name='enalgs', depth=q(2, 3), labels=ALL, ua=dict(U, attrs=dict(auth_enalgs=('MD5', 'MD5-sess')))),
            dict(name='enalgs2', depth=q(2, 3), labels=ALL, ua=dict(U, attrs=dict(auth_enalgs=('SHA-512-256-sess', 'SHA-256', None)))),
            dict(name='pass', depth=q(2, 3), labels=ALL, ua=dict(U, attrs=dict(pass_auth=True))),
            dict(name='reinv', depth=q(3, 4), labels=('both', 'foo', 'sess'), ua=U, pre=(('resp', 200, 'C'), ('own', 'Update', 'F'))),
            dict(name='authed', depth=q(3, 4), labels=('both', 'foo', 'sess'), ua=U, xh=X, pre=(('t', 0.2), ('chalpre', 401, 'sha'), ('resp', 200, 'C'))),
            dict(name='ka', depth=q(4, 5), labels=('both', 'plain'), ua=dict(U, attrs=dict(kaInterval=40)), pre=(('resp', 200, 'C'), ('t', 41.0))),
            dict(name='ka-nocred', depth=q(3, 4), labels=('both', 'plain'), ua=dict(attrs=dict(kaInterval=40)), pre=(('resp', 200, 'C'), ('t', 41.0))),
        ]
        for x in L:
            x['role'] = 'uac'
        for lim in (dict(noreply=3), dict(noprog=5), dict(expire=9), dict(noreply=3, noprog=5, expire=9)):
            L.append(dict(name='lim' + ''.join(lim), role='uac', depth=q(3, 4), labels=('md5',), ua=U, lim=lim))
        c.explore('challenges', scen, [c05.freeze(x) for x in L])
        c.finish()
    main(body)
