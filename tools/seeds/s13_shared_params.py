PROPERTY = 'C26'
NEEDS = 'a route with a group timeout that is copied before it is customized, and used at two places of the list'
BREAKS = 'customizing the second copy changes the group of the first one'
EDITS = [('sippy/B2B/Route.py', '''            self.params = dict(cself.params)
''', '''            self.params = cself.params
''')]
DEMO = '''
from sippy.B2B.Route import B2BRoute
r = B2BRoute('5551@127.0.0.1:5061;gt=20,1')
a, b = r.getCopy(), r.getCopy()
a.customize(0, '1', '2', None, (), None)
b.customize(4, '1', '2', None, (), None)
assert a.params['group_timeout'] == (20, 1), a.params
assert b.params['group_timeout'] == (20, 5), b.params
assert 'group_timeout' not in r.params
'''
HELPERS = ()
