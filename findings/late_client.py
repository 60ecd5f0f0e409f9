"""A client that registers after the shutdown signal must be told to disconnect; a full queue must not block the monitor."""
import queue, threading, time
from types import SimpleNamespace
from hypershell.server import HeartMonitor
from hypershell.core.heartbeat import Heartbeat, ClientState

class JQ(queue.Queue):
    pass

def beat(uuid, state=ClientState.RUNNING):
    hb = Heartbeat.new(state=state); hb.uuid = uuid
    return hb.pack()

q = SimpleNamespace(heartbeat=JQ(), scheduled=JQ())
m = HeartMonitor(queue=q, evict_after=100, in_memory=True)
t = threading.Thread(target=m.run, daemon=True); t.start()
q.heartbeat.put(beat('a')); time.sleep(1)
m.scheduler_done = True; m.should_signal = True
time.sleep(3)
first = q.scheduled.qsize()
q.heartbeat.put(beat('b')); time.sleep(4)
print('disconnects after first:', first, 'after late client:', q.scheduled.qsize())
bad = (first, q.scheduled.qsize()) != (1, 2)
# a full queue: the monitor must go on and evict the dead client
q = SimpleNamespace(heartbeat=JQ(), scheduled=JQ(maxsize=1)); q.scheduled.put([b'x'])
m = HeartMonitor(queue=q, evict_after=10, in_memory=True)
m.wait_check = m.evict_after / 100
m.evict_after = m.evict_after / 10
t = threading.Thread(target=m.run, daemon=True); t.start()
q.heartbeat.put(beat('dead')); time.sleep(0.5)
m.scheduler_done = True; m.should_signal = True
time.sleep(12)
print('monitor still stuck:', t.is_alive())
raise SystemExit(bad or t.is_alive())
