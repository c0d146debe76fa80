"""C09: session changes inside an established call."""
from ua_model import *
import c05

MID = (('t',), ('bye',), ('own', 'Disconnect'), ('reinv',), ('own', 'Update', 'F'), ('own', 'Update', 'same'), ('cancel',), ('resp', 180), ('resp', 200), ('resp', 486), ('resp', 302), ('resp', 481),
       ('own', 'Connect', 'G'), ('own', 'Fail'), ('own', 'Redirect'), ('own', 'Ring', 183), ('info',), ('own', 'Info'))
CORE = (('t', 33.0), ('reinv', 'D'), ('reinv', 'same'), ('own', 'Update', 'F'), ('own', 'Update', 'same'), ('resp', 200, 'C'), ('resp', 486), ('own', 'Connect', 'G'), ('own', 'Fail'), ('own', 'Disconnect'), ('bye',), ('info',))


def cfgs(c):
    conn = (('resp', 200, 'C'),)
    uconn = (('own', 'Connect', 'G'),)
    a, b = c.q(3, 4), c.q(4, 6)
    upd = (('own', 'Update', 'F'), ('resp', 200, 'H'), ('reinv', 'D'), ('own', 'Connect', 'A'))
    L = [
        dict(name='out', role='uac', depth=a, only=MID, pre=conn),
        dict(name='in', role='uas', depth=a, only=MID, pre=uconn),
        dict(name='in-noack', role='uas', depth=a, only=MID + (('ack',),), pre=uconn, autoack=False, full=False),
        dict(name='out-core', role='uac', depth=b, only=CORE, pre=conn),
        dict(name='in-core', role='uas', depth=c.q(4, 6), only=CORE, pre=uconn),
        dict(name='out-upd', role='uac', depth=c.q(3, 5), only=CORE, pre=conn + upd),
        dict(name='out-nosdp', role='uac', depth=a, only=MID, body=None, pre=(('resp', 200, None),)),
        dict(name='in-nosdp', role='uas', depth=a, only=MID, body=None, autoack=False, pre=(('own', 'Connect', 'G'), ('ack', None))),
        dict(name='in-late', role='uas', depth=a, only=MID, body=None, autoack=False, pre=(('own', 'PreConnect', 'G'), ('ack', 'H'))),
        dict(name='in-late-none', role='uas', depth=a, only=MID, body=None, autoack=False, pre=(('own', 'PreConnect', 'G'), ('ack', None))),
        dict(name='out-late', role='uac', depth=a, only=MID + (('own', 'Connect', 'E'),), body=None, pre=(('resp', 200, 'C'),)),
        dict(name='out-late2', role='uac', depth=a, only=MID, body=None, pre=(('resp', 200, 'C'), ('own', 'Connect', 'E'))),
        dict(name='out-sync', role='uac', depth=c.q(3, 4), only=CORE + (('reinv', 'X'), ('own', 'Update', 'X'), ('resp', 200, 'X'), ('resp', 183, 'X'), ('own', 'Connect', 'X')), pre=conn, sdp='sync'),
        dict(name='out-async', role='uac', depth=c.q(4, 5), full=False, only=CORE + (('rel',),), sdp='async', pre=(('rel', True), ('resp', 200, 'C'), ('rel', True))),
        dict(name='in-async', role='uas', depth=c.q(4, 5), full=False, only=CORE + (('rel',),), sdp='async', pre=(('rel', True), ('own', 'Connect', 'G'), ('rel', True))),
        dict(name='out-reasons', role='uac', depth=a, only=MID, pre=conn, reasons=True),
        dict(name='in-reasons', role='uas', depth=a, only=MID, pre=uconn, reasons=True),
    ]
    return [c05.freeze(x) for x in L]


if __name__ == '__main__':
    def body():
        c = Check('C09', 'model_checking')
        c.explore('midcall', c05.scen, cfgs(c))
        # long dialogs: short sequences of events again and again
        conn, uconn = (('resp', 200, 'C'),), (('own', 'Connect', 'G'),)
        L = [dict(name='long %s %d' % (n, k), role=r, depth=c.q(24, 60), only=o, pre=p, cycle=k) for k in c.q((2, 3), (2, 3, 4)) for n, r, o, p in
             (('out', 'uac', MID if k < 3 else CORE, conn), ('in', 'uas', MID if k < 3 else CORE, uconn))]
        c.explore('long', c05.scen, [c05.freeze(x) for x in L])
        c.finish()
    main(body)
