"""The pressure that drives dynamic autoscaling must be known once tasks finished, also with SQLite."""
import os, uuid
from datetime import datetime, timedelta
os.environ['HYPERSHELL_DATABASE_FILE'] = os.path.join(os.environ['HYPERSHELL_SITE'], 'tasks.db')
from hypershell.data import initdb
from hypershell.data.model import Task, Client
from hypershell.core.logging import INSTANCE
initdb()
now = datetime.now().astimezone()
client = str(uuid.uuid4())
Client.add(Client(id=client, host='h', server_id=INSTANCE, server_host='h', connected_at=now, disconnected_at=None, evicted=False))
tasks = [Task.new(args=f'echo {i}') for i in range(10)]
for i, task in enumerate(tasks[:5]):
    task.schedule_time, task.server_id, task.client_id = now, INSTANCE, client
    task.start_time, task.completion_time = now + timedelta(seconds=10 * i), now + timedelta(seconds=10 * i + 10)
    task.exit_status, task.duration = 0, 10
Task.add_all(tasks)
assert abs(Task.effective_rate() - 0.1) < 1e-6, Task.effective_rate()
assert abs(Task.task_pressure(2) - 2.5) < 1e-6, Task.task_pressure(2)
