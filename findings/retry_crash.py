"""A server that dies while it retries a failed task can be started again."""
import os
os.environ['HYPERSHELL_DATABASE_PROVIDER'] = 'sqlite'
os.environ['HYPERSHELL_DATABASE_FILE'] = os.path.join(os.environ['HYPERSHELL_SITE'], 'main.db')
from datetime import datetime
from hypershell.data import ensuredb
from hypershell.data.core import Session, engine
from hypershell.data.model import Task
ensuredb()
now = datetime.now().astimezone()
Task.add_all([Task.new(args='false', schedule_time=now, completion_time=now, exit_status=1)])
Session.remove(); engine.dispose()
commits = 0
if (pid := os.fork()) == 0:
    commit = Session.commit
    def dying():
        commit()
        os._exit(1)          # the process dies after its first commit
    Session.commit = dying
    Task.next(limit=10, attempts=2)
    os._exit(0)
os.waitpid(pid, 0)
Task.revert_interrupted()
tasks = Task.next(limit=10, attempts=2)
print([(t.args, t.attempt) for t in tasks])
assert len(tasks) == 1
