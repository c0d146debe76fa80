PROPERTY = 'C41'
NEEDS = 'a WebSocket client that stops reading while more than a few dozen messages are sent to it, and another client'
BREAKS = 'once the queue of the stalled connection is full nothing is sent to any connection any more'
EDITS = [('sippy/Wss_server.py', '''            await self.connections[uaddress][1].put(data)
''', '''            queue = self.connections[uaddress][1]
            while queue.qsize() >= 32:
                await sleep(0.05)
            await queue.put(data)
'''), ('sippy/Wss_server.py', '''from asyncio import get_event_loop, all_tasks''', '''from asyncio import sleep, get_event_loop, all_tasks''')]
HELPERS = ()
NOTE = 'only after the burst of messages was added'
DEMO = '''
import socket, time, threading, asyncio
import sippy.Wss_server as wss
from websockets import connect
calls = []
class ED:
    def callFromThread(self, f, *a):
        calls.append((f, a))
    def breakLoop(self, *a):
        pass
wss.ED2 = ED()
s = socket.socket()
s.bind(('127.0.0.1', 0))
port = s.getsockname()[1]
s.close()
seen = []
def cb(data, address, srv, rtime):
    seen.append((data, address.received))
srv = wss.Wss_server(None, wss.Wss_server_opts(('127.0.0.1', port), cb))
def until(f, t = 10):
    end = time.time() + t
    while time.time() < end and not f():
        if calls:
            c, a = calls.pop(0)
            c(*a)
        else:
            time.sleep(0.01)
    return f()
got = {'a': 0, 'b': []}
async def client(name):
    for i in range(50):
        try:
            ws = await connect('ws://127.0.0.1:%d' % port, subprotocols = ['sip'], ping_interval = None, compression = None)
            break
        except OSError:
            await asyncio.sleep(0.1)
    await ws.send('hello ' + name)
    if name == 'a':
        await asyncio.sleep(1000)
    while True:
        got['b'].append(await ws.recv())
def run():
    async def both():
        await asyncio.gather(client('a'), client('b'))
    asyncio.run(both())
threading.Thread(target = run, daemon = True).start()
assert until(lambda: len(seen) == 2), 'the clients are not connected'
at = dict((d[-1:] if isinstance(d, str) else d[-1:].decode(), r) for d, r in seen)
for i in range(600):
    srv.send_to('x' * 65536, (at['a'], 1))
srv.send_to('to b', (at['b'], 1))
ok = until(lambda: got['b'])
import os, sys
print('b got', got['b'])
sys.stdout.flush()
os._exit(0 if ok and len(got['b']) == 1 else 1)
'''
