"""The last task fails between the query for tasks and the count of unfinished ones; with attempts left it must be retried."""
import os
os.environ['HYPERSHELL_DATABASE_PROVIDER'] = 'sqlite'
os.environ['HYPERSHELL_DATABASE_FILE'] = os.path.join(os.environ['HYPERSHELL_SITE'], 'main.db')
import queue
from datetime import datetime
from types import SimpleNamespace
import hypershell.server as server
from hypershell.data import ensuredb
from hypershell.data.model import Task
server.DEFAULT_QUERY_PAUSE = 0
ensuredb()
Task.add(Task.new(args='false'))
q = SimpleNamespace(scheduled=queue.Queue())
m = server.Scheduler(queue=q, attempts=2)
real, fails = Task.next, []

def next_then_failure(*args, **kwargs):
    """What the receiver does on another thread right after the query."""
    tasks = real(*args, **kwargs)
    if not tasks and len(fails) == 0:
        fails.append(1)
        now = datetime.now().astimezone()
        for t in Task.query().filter(Task.completion_time.is_(None)).all():
            Task.update(t.id, exit_status=1, completion_time=now, start_time=now)
    return tasks

Task.next = next_then_failure
for _ in range(12):
    if m.state is m.states.HALT:
        break
    m.state = m.next()
attempts = sorted(t.attempt for t in Task.query().all())
print('attempts made:', attempts, 'scheduler', m.state)
raise SystemExit(attempts != [1, 2])
