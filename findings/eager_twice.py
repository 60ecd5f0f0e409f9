"""One selection returns each task once."""
import os
os.environ['HYPERSHELL_DATABASE_PROVIDER'] = 'sqlite'
os.environ['HYPERSHELL_DATABASE_FILE'] = os.path.join(os.environ['HYPERSHELL_SITE'], 'main.db')
from datetime import datetime
from hypershell.data import ensuredb
from hypershell.data.model import Task
ensuredb()
now = datetime.now().astimezone()
Task.add_all([Task.new(args='false', schedule_time=now, completion_time=now, exit_status=1)])
tasks = Task.next(limit=10, attempts=2, eager=True)
print([t.args for t in tasks])
assert len(tasks) == 1, 'the retried task is returned twice'
