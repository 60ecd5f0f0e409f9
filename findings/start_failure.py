"""A task whose process cannot be started must come back as failed and its executor must go on."""
import queue, sys
from hypershell.client import TaskExecutor
from hypershell.data.model import Task
i, o = queue.Queue(), queue.Queue()
i.put(Task.new(args='echo ' + 'x' * 200_000)); i.put(Task.new(args='true')); i.put(None)
try:
    TaskExecutor(id=1, inbound=i, outbound=o).run()
except Exception as error:
    print('executor died:', type(error).__name__)
got = [t.exit_status for t in list(o.queue)]
print('returned', got)
raise SystemExit(got != [-1, 0])
