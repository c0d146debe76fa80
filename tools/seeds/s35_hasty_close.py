PROPERTY = 'C39'
NEEDS = 'a client that closes its session by command while it has not yet read a long earlier answer'
BREAKS = 'the connection is closed once the answer under way is written: what was queued behind it never reaches the client'
EDITS = [('sippy/CLIManager.py', '''            if not self.close_pendind:
                self.wbuffer = bytes()
            else:
                self.wbuffer = None
''', '''            self.wbuffer = bytes()
'''), ('sippy/CLIManager.py', '''                if res > 0:
                    wbuffer = wbuffer[res:]
''', '''                if res > 0:
                    wbuffer = wbuffer[res:]
            if self.close_pendind:
                break
''')]
HELPERS = ()
NOTE = 'caught'
DEMO = '''
import socket, time, threading
import sippy.CLIManager as cli
calls = []
class ED:
    def callFromThread(self, f, *a):
        calls.append((f, a))
cli.ED2 = ED()
def turn(t, until):
    end = time.time() + t
    while time.time() < end and not until():
        if calls:
            f, a = calls.pop(0)
            f(*a)
        else:
            time.sleep(0.01)
a, b = socket.socketpair()
done = []
def cb(clim, cmd):
    done.append(cmd)
    if cmd == 'l':
        clim.send('x' * 3000000 + '\\n')
    elif cmd == 'd':
        clim.send('OK\\n')
    else:
        clim.close()
m = cli.CLIManager(a, cb)
b.sendall(b'l\\n')
turn(10, lambda: len(done) == 1)
time.sleep(0.5)     # the writer is now busy with the long answer
b.sendall(b'd\\nq\\n')
turn(10, lambda: len(done) == 3)
time.sleep(0.2)
got = b''
def reader():
    global got
    while True:
        d = b.recv(65536)
        if not d:
            return
        got += d
t = threading.Thread(target=reader, daemon=True)
t.start()
turn(20, lambda: not t.is_alive())
assert done == ['l', 'd', 'q'] and len(got) == 3000004 and got.endswith(b'x\\nOK\\n'), (done, len(got), got[-6:])
'''
