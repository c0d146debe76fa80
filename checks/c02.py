"""C02: server transactions of the real transaction manager."""
from srv_model import *


def body():
    c = Check('C02', 'model_checking')
    D = [0.1, 0.9, 8.0, 31.0, 33.0]
    C = [100, 183, 200, 404]
    A = ['ACK', 'ACKx', 'stray']
    d = c.q(5, 6)
    cfgs = []
    for via in VIAS:
        full = via in ('plain', 'rport')
        cfgs.append(('inv-' + via, ((via, 'INVITE'),), None, ('<sip:p@192.0.2.88;lr>',) if via == 'twovia' else (), 'later', d if full else 4, C if full else [183, 200], A if full else ['ACK'], D))
        cfgs.append(('opt-' + via, ((via, 'OPTIONS'),), None, (), 'later', 4, C, A, D))
    for code in (100, 180, 200, 500):
        cfgs.append(('inv-now%d' % code, (('plain', 'INVITE'),), 60, (), code, 4, [180, 486], A, D))
    cfgs.append(('opt-now200', (('plain', 'OPTIONS'),), None, (), 200, 4, C, A, D))
    cfgs.append(('two', (('plain', 'INVITE'), ('received', 'INVITE')), None, (), 'later', c.q(5, 6), [200], ['ACK'], [0.1, 8.0]))
    cfgs.append(('two-mixed', (('plain', 'INVITE'), ('plain', 'INFO')), None, (), 'later', c.q(5, 6), [200], ['ACK'], [0.1, 8.0]))
    c.explore('lockstep', scen, cfgs, max_cost=c.q(1, 2))
    c.explore('loop', loop_scen, [('INVITE',), ('OPTIONS',)])
    M = ('many', tuple((v, m) for m in ('INVITE', 'INFO') for v in ('plain', 'received', 'rport', 'twovia')), None, (), 'later', c.q(24, 40), [200, 486], ['ACK'], [0.1, 8.0, 33.0])
    c.explore('long', cyclic(scen), [(k, M) for k in c.q((1, 2), (1, 2, 3))] + [(k, ('one', (('plain', m),), None, (), 'later', c.q(30, 60), C, A, D)) for k in (2, 3, 4) for m in ('INVITE', 'OPTIONS')])
    c.finish()


main(body)
