"""C01: client transactions of the real transaction manager, in lockstep with
an independent timed reference automaton, over every bounded sequence of
(delay, response) steps."""
from cli_model import *


def body():
    c = Check('C01', 'model_checking')
    K = ['100', '180', '183', '200', '200b', '202n', '486', '302', '699', 'stray']
    D = [0.1, 1.0, 7.9, 30.9, 33.0, 70.0]
    K2 = ['180', '200', '486']
    d = c.q(3, 4)
    cfgs = [
        ('inv', ['INVITE'], None, False, 'none', (), d, K, D),
        ('inv-exp5', ['INVITE'], 5, False, 'lr1', (), d, K, D),
        ('inv-lr2', ['INVITE'], 60, False, 'lr2', (), c.q(2, 3), K, D),
        ('inv-strict1', ['INVITE'], 60, False, 'strict1', (), c.q(2, 3), K, D),
        ('inv-strict2', ['INVITE'], 60, False, 'strict2', ('<sip:192.0.2.200:5999;lr>', '<sip:192.0.2.201;lr>'), c.q(2, 3), K, D),
        ('inv-uack', ['INVITE'], 20, True, 'lr1', (), d, K, D),
        ('inv-uack-strict', ['INVITE'], None, True, 'strict2', (), c.q(2, 3), K, D),
        ('opt', ['OPTIONS'], None, False, 'none', (), d, K, D),
        ('bye', ['BYE'], None, False, 'none', (), c.q(2, 3), K, D),
        ('two', ['INVITE', 'INVITE'], 20, False, 'none', (), c.q(3, 4), K2, [0.1, 5.0, 33.0]),
        ('two-mixed', ['INVITE', 'OPTIONS'], None, False, 'none', (), c.q(3, 4), K2, [0.1, 5.0, 33.0]),
    ]
    cfgs = [tuple(x) for x in cfgs]
    c.explore('lockstep', scen, cfgs, max_cost=lambda cfg: c.q(1 if cfg[6] > 2 else 2, 2))
    M = ('many', ['INVITE', 'OPTIONS', 'INVITE', 'INVITE'] * c.q(2, 3), 20, False, 'none', (), c.q(24, 40), K2, [0.1, 5.0, 33.0])
    c.explore('long', cyclic(scen), [(k, M) for k in c.q((1, 2), (1, 2, 3))] + [(k, ('one', ['INVITE'], None, u, 'none', (), c.q(30, 60), K, D)) for k in (2, 3) for u in (False, True)])
    c.finish()


main(body)
