import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import runner
from runner import Check, main, out, note
import sim
import minisip
from minisip import Msg
from explore import Violation, Prune


def cyclic(scen):
    """the scenario with the first n of its free choices repeated over and over (see explore.Cyclic); cfg: (n, cfg)"""
    from explore import Cyclic

    def long(ch, ctx, cfg):
        return scen(Cyclic(ch, cfg[0]), ctx, cfg[1])
    return long


def need(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)
