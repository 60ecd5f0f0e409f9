"""Tasks still buffered by the live submitter at the end of its source must reach the server even if its queue is full."""
import queue
from types import SimpleNamespace
from hypershell.submit import QueueCommitter
from hypershell.data.model import Task

class Flaky(queue.Queue):
    refuse = 2
    def put(self, item, block=True, timeout=None):
        if self.refuse:
            self.refuse -= 1
            raise queue.Full
        super().put(list(item))

local, scheduled = queue.Queue(), Flaky()
for i in range(3):
    local.put(Task.new(args=f'echo {i}'))
local.put(None)
QueueCommitter(local=local, client=SimpleNamespace(scheduled=scheduled), bundlesize=10, bundlewait=60).run()
got = 0
while not scheduled.empty():
    got += len(scheduled.get())
print(got, 'of 3 tasks scheduled')
raise SystemExit(got != 3)
