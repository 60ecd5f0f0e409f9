"""A full heartbeat queue must not end the heartbeat worker."""
import queue
from types import SimpleNamespace
from hypershell.client import ClientHeartbeat
from hypershell.core.heartbeat import ClientState
class Flaky(queue.Queue):
    refuse = 1
    def put(self, item, block=True, timeout=None):
        if self.refuse:
            self.refuse -= 1
            raise queue.Full
        super().put(item)
q = Flaky()
m = ClientHeartbeat(queue=SimpleNamespace(heartbeat=q)); m.client_state = ClientState.FINISHED; m.no_wait = True
try:
    m.run()
except queue.Full:
    print('worker died')
print(q.qsize())
raise SystemExit(q.qsize() != 1)
