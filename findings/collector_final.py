"""Finished tasks still buffered by the client when it is told to stop must be returned to the server."""
import queue
from types import SimpleNamespace
from hypershell.client import ClientCollector
from hypershell.data.model import Task

class Flaky(queue.Queue):
    refuse = 2
    def put(self, item, block=True, timeout=None):
        if self.refuse:
            self.refuse -= 1
            raise queue.Full
        super().put(list(item))

local, completed = queue.Queue(), Flaky()
for i in range(3):
    local.put(Task.new(args=f'echo {i}'))
local.put(None)
ClientCollector(queue=SimpleNamespace(completed=completed), local=local, bundlesize=10, bundlewait=60).run()
got = 0
while not completed.empty():
    got += len(completed.get())
print(got, 'of 3 tasks returned')
raise SystemExit(got != 3)
