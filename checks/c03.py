"""C03: cancellation of INVITE transactions, client and server side."""
import cli_model, srv_model
from common import *


def body():
    c = Check('C03', 'model_checking')
    K = ['100', '180', '200', '486', '487', 'stray']
    K = ['100', '180', '200', '486', 'stray']
    D = [0.1, 1.0, 30.9, 33.0]
    d = c.q(4, 5)
    cl = [
        ('cli', ('INVITE',), None, False, 'none', (), d, K, D, True),
        ('cli-exp', ('INVITE',), 5, False, 'lr1', (), d, ['180', '200', '486'], D, True),
        ('cli-route', ('INVITE',), 60, False, 'strict2', ('<sip:192.0.2.200:5999;lr>', '<sip:192.0.2.201;lr>'), 3, K, D, True),
        ('cli-uack', ('INVITE',), None, True, 'lr1', (), 3, K, D, True),
        ('cli-two', ('INVITE', 'INVITE'), None, False, 'none', (), 3, ['180', '200', '486'], [0.1, 33.0], True),
    ]
    c.explore('client', cli_model.scen, cl, max_cost=1 if not c.thorough else 2)
    A = ['ACK', 'CANCEL']
    D = [0.1, 0.9, 8.0, 31.0]
    sv = [
        ('srv', (('plain', 'INVITE'),), None, (), 'later', c.q(5, 6), [100, 183, 200, 486], A, D),
        ('srv-exp', (('plain', 'INVITE'),), 7, (), 'later', c.q(5, 6), [180, 200, 486], A, D),
        ('srv-exp-rport', (('rport', 'INVITE'),), 20, (), 'later', c.q(4, 5), [180, 200], A, D),
        ('srv-two', (('plain', 'INVITE'), ('rport', 'INVITE')), None, (), 'later', c.q(4, 5), [200], A, [0.1, 8.0]),
        ('srv-now', (('twovia', 'INVITE'),), None, (), 180, c.q(4, 5), [180, 200, 486], A, D),
    ]
    c.explore('server', srv_model.scen, sv, max_cost=1 if not c.thorough else 2)
    # long histories: the same few events over and over
    l = [(k, x[:6] + (c.q(16, 40),) + x[7:]) for k in c.q((2, 3), (2, 3, 4)) for x in cl[:2]]
    c.explore('client long', cyclic(cli_model.scen), l, max_cost=0)
    l = [(k, x[:5] + (c.q(16, 40),) + x[6:]) for k in c.q((2, 3), (2, 3, 4)) for x in sv[:2]]
    c.explore('server long', cyclic(srv_model.scen), l, max_cost=0)
    c.finish()


main(body)
