"""C04: where requests inside a dialog go and what identifies them."""
from ua_model import *
import c05

ACTS = (('own', 'Update', 'F'), ('own', 'Info'), ('own', 'Disconnect'), ('own', 'Fail'), ('refer',), ('reinv', 'D'), ('own', 'Connect', 'G'), ('own', 'Ring', 183),
        ('resp', 200, 'C'), ('resp', 180), ('resp', 486), ('resp', 481), ('bye',), ('t', 0.7), ('own', 'Connect', 'E'), ('own', 'Redirect'))
RRS = [(), ('<sip:192.0.2.200:5999;lr>',), ('<sip:192.0.2.201>',), ('<sip:p1@192.0.2.202:5091;lr>', '<sip:192.0.2.203;lr;x=y>'), ('<sip:192.0.2.204;lr>', '<sip:192.0.2.205:5092>'),
       ('<sip:192.0.2.206:5093>', '<sip:192.0.2.207;lr>'), ('<sip:192.0.2.208;lr>', '<sip:192.0.2.209;lr>', '<sip:u@192.0.2.210:5094;lr>'), ('<sip:192.0.2.211>', '<sip:192.0.2.212>')]
CT = ['sip:peer@192.0.2.50:5066', 'sip:192.0.2.51', 'sip:peer@192.0.2.52;ob;x=1', 'sip:p%401@192.0.2.53:5067;transport=udp']


def cfgs(c):
    L = []
    d = c.q(2, 3)
    for i, rr in enumerate(RRS):
        for j, ct in enumerate(CT):
            for ob in (None, ('192.0.2.240', 5095)):
                k = (i + j) % 2
                a = dict(attrs=dict(outbound_proxy=ob)) if ob else {}
                base = dict(rr=rr, contact=ct, ua=a, only=ACTS, full=bool(j == 0), rrmid=bool((i + j) % 3))
                dd = d if j < 2 else 1
                L.append(dict(base, name='uac%d.%d.%s' % (i, j, bool(ob)), role='uac', depth=dd + 1, forked=bool(j == 1)))
                L.append(dict(base, name='uacc%d.%d.%s' % (i, j, bool(ob)), role='uac', depth=dd, pre=(('resp', 180), ('resp', 200, 'C')), forked=True))
                L.append(dict(base, name='uas%d.%d.%s' % (i, j, bool(ob)), role='uas', depth=dd, pre=(('own', 'Ring', 183), ('own', 'Connect', 'G'))))
    # the answer crosses the CANCEL
    for i, rr in enumerate(RRS):
        for ob in (None, ('192.0.2.240', 5095)):
            L.append(dict(name='cross%d%s' % (i, bool(ob)), role='uac', rr=rr, depth=1, only=(('resp', 200, 'C'), ('t', 0.7)), pre=(('resp', 180), ('own', 'Disconnect')), forked=True, ua=dict(attrs=dict(outbound_proxy=ob)) if ob else {}))
        L.append(dict(name='late%d' % i, role='uac', rr=rr, depth=c.q(2, 3), body=None, only=ACTS, full=False, pre=(('resp', 200, 'C'),)))
    # long dialogs: the numbers keep growing
    for role, pre in (('uac', (('resp', 200, 'C'),)), ('uas', (('own', 'Connect', 'G'),))):
        L.append(dict(name='long-' + role, role=role, rr=RRS[3], depth=c.q(4, 5), full=False, pre=pre,
                      only=(('own', 'Update', 'F'), ('own', 'Info'), ('own', 'Disconnect'), ('resp', 200, 'C'), ('resp', 486), ('reinv', 'D'), ('own', 'Connect', 'G'))))
    return [c05.freeze(x) for x in L]


if __name__ == '__main__':
    def body():
        c = Check('C04', 'model_checking')
        c.explore('routing', c05.scen, cfgs(c))
        c.finish()
    main(body)
