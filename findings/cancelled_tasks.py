"""A cancelled task must not be scheduled again, retried or waited for."""
import os
os.environ['HYPERSHELL_DATABASE_PROVIDER'] = 'sqlite'
os.environ['HYPERSHELL_DATABASE_FILE'] = os.path.join(os.environ['HYPERSHELL_SITE'], 'main.db')
from hypershell.data import ensuredb
from hypershell.data.model import Task
ensuredb()
Task.add_all([Task.new(args='echo cancelled')])
[task] = Task.query().all()
Task.cancel(task.id)
print('remaining', Task.count_remaining(), 'interrupted', Task.count_interrupted())
assert Task.next(limit=10, attempts=2) == [], 'cancelled task is retried'
Task.revert_interrupted()
assert Task.next(limit=10) == [], 'cancelled task is scheduled'
assert Task.count_remaining() == 0, 'cancelled task is waited for'
