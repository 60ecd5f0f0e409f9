"""Executors share the client's output stream: one that is done must not close it for the others."""
import queue, tempfile
from hypershell.client import TaskExecutor
from hypershell.data.model import Task
with tempfile.TemporaryFile(mode='w') as out:
    i1, i2, o = queue.Queue(), queue.Queue(), queue.Queue()
    i1.put(None)
    TaskExecutor(id=1, inbound=i1, outbound=o, redirect_output=out).run()
    i2.put(Task.new(args='echo hi')); i2.put(None)
    try:
        TaskExecutor(id=2, inbound=i2, outbound=o, redirect_output=out).run()
    except Exception as error:
        print('second executor died:', error)
    got = [t.exit_status for t in list(o.queue)]
print(got)
raise SystemExit(got != [0])
