"""A buffered task must be pushed once the waiting period has passed, even if the source stays silent."""
import queue, threading, time
from types import SimpleNamespace
from hypershell import submit
from hypershell.data.model import Task

bad = 0
saved = []
submit.Task = SimpleNamespace(add_all=lambda tasks: saved.extend(tasks))
q = queue.Queue()
m = submit.DatabaseCommitter(queue=q, bundlesize=10, bundlewait=1)
t = threading.Thread(target=m.run, daemon=True); t.start()
q.put(Task.new(args='echo'))
scheduled, local = queue.Queue(), queue.Queue()
m2 = submit.QueueCommitter(local=local, client=SimpleNamespace(scheduled=scheduled), bundlesize=10, bundlewait=1)
t2 = threading.Thread(target=m2.run, daemon=True); t2.start()
local.put(Task.new(args='echo'))
time.sleep(5)
print('database:', len(saved), 'live:', scheduled.qsize())
bad = len(saved) != 1 or scheduled.qsize() != 1
q.put(None); local.put(None)
raise SystemExit(bool(bad))
