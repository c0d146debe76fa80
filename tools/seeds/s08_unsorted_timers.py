PROPERTY = 'C35'
NEEDS = 'more than half of the pending timers cancelled, in a pattern that leaves the heap out of shape once they are filtered out'
BREAKS = 'remaining timers run late and out of order'
EDITS = [('sippy/Core/EventDispatcher.py', '''                self.tlisteners = [x for x in self.tlisteners if x.cb_func != None]
                heapify(self.tlisteners)
''', '''                # Filtering out keeps the relative order of the rest
                self.tlisteners = [x for x in self.tlisteners if x.cb_func != None]
''')]
DEMO = '''
import itertools, sys
from sippy.Core.EventDispatcher import ED2
from sippy.Time.Timeout import Timeout
bad = 0
def run(order, keep):
    got = []
    ts = []
    for i in order:
        ts.append((i, Timeout(got.append, 0.02 + i * 0.004, 1, i)))
    for i, t in ts:
        if i not in keep:
            t.cancel()
    ED2.loop(0.09)
    assert got == sorted(keep), (order, got, sorted(keep))
    while len(ED2.tlisteners):
        ED2.tlisteners.pop()
run((7, 4, 9, 2, 0, 6, 8, 1, 3, 5, 10), (0, 5, 6, 7, 10))
run((11, 8, 3, 1, 10, 0, 7, 2, 4, 9, 6, 5), (1, 4, 5, 8, 10))
run((0, 10, 7, 1, 3, 2, 6, 5, 8, 11, 4, 9, 12), (0, 4, 5, 8, 9))
'''
NOTE = 'caught after strengthening (pruned timers)'
