PROPERTY = 'C31'
NEEDS = 'a relay command that carries two or more subcommands'
BREAKS = 'the first subcommands are glued to the tags'
EDITS = [('sippy/Rtp_proxy/cmd.py', '''                    args, self.ul_opts.subargs = args.split(' && ', 1)
''', '''                    args, self.ul_opts.subargs = args.rsplit(' && ', 1)
''')]
HELPERS = ()
DEMO = '''
from sippy.Rtp_proxy.cmd import Rtp_proxy_cmd
s = 'Uc8 cid 192.0.2.1 4000 ft;1 && A1 ul && A2 xx'
c = Rtp_proxy_cmd(s)
assert str(c) == s
assert (c.ul_opts.from_tag, c.ul_opts.to_tag, c.ul_opts.subargs) == ('ft;1', None, 'A1 ul && A2 xx'), (c.ul_opts.to_tag, c.ul_opts.subargs)
'''
