"""All changes of an update are made to the same tasks."""
import os
os.environ["HYPERSHELL_DATABASE_PROVIDER"] = "sqlite"
os.environ["HYPERSHELL_DATABASE_FILE"] = os.path.join(os.environ["HYPERSHELL_SITE"], "main.db")
import sys, io, contextlib
from datetime import datetime
from hypershell.data import ensuredb
from hypershell.data.model import Task
from hypershell.task import TaskSearchApp, TaskUpdateApp
ensuredb()

def search(*args):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        status = TaskSearchApp.main([*args])
    assert status == 0, f"search {args} exits with {status}"
    return sorted(out.getvalue().split())

def update(*args):
    status = TaskUpdateApp.main([*args, "--no-confirm"])
    assert status == 0, f"update {args} exits with {status}"

now = datetime.now().astimezone()
for limit in ((), ('--limit', '1')):
    Task.query().delete()
    Task.add_all([Task.new(args=f'task-{n}', submit_time=None) if 0 else Task.new(args=f'task-{n}') for n in range(2 if limit else 1)])
    update('--remaining', '--cancel', 'reason:late', *limit)
    assert Task.query().filter(Task.exit_status == -1).count() == 1
    tags = {t.args: (t.exit_status, t.tag) for t in Task.query(caching=False).all()}
    assert all((code == -1) == (tag == {'reason': 'late'}) for code, tag in tags.values()), tags
