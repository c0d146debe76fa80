PROPERTY = 'C33'
NEEDS = 'a shutdown while lines are still queued for the writer'
BREAKS = 'the lines that have not been written by then are lost'
EDITS = [('sippy/SipLogger.py', '''        self.master.wi.append(('shutdown', None, None))
''', '''        self.master.wi.insert(0, ('shutdown', None, None))
''')]
DEMO = '''
import os, tempfile, shutil
d = tempfile.mkdtemp()
try:
    os.environ['SIPLOG_BEND'] = 'file'
    os.environ['SIPLOG_LOGFILE_FILE'] = d + '/l'
    from sippy.SipLogger import SipLogger
    l = SipLogger('demo')
    # The writer is kept away until everything has been queued, shutdown included
    with l.wi_available:
        for i in range(400):
            l.write('line %d' % i)
        lg, j = l.logger, l.logger.join
        def join():
            l.wi_available.release()
            j(20)
            l.wi_available.acquire()
        lg.join = join
        l.shutdown()
    assert not lg.is_alive()
    n = len([l for l in open(d + '/l') if ': line ' in l])
    assert n == 400, n
finally:
    shutil.rmtree(d)
'''
HELPERS = ()
