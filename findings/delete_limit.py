"""A limited number of tasks can be deleted."""
import os
os.environ["HYPERSHELL_DATABASE_PROVIDER"] = "sqlite"
os.environ["HYPERSHELL_DATABASE_FILE"] = os.path.join(os.environ["HYPERSHELL_SITE"], "main.db")
import sys, io, contextlib
from datetime import datetime
from hypershell.data import ensuredb
from hypershell.data.model import Task
from hypershell.task import TaskSearchApp, TaskUpdateApp
ensuredb()

def search(*args):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        status = TaskSearchApp.main([*args])
    assert status == 0, f"search {args} exits with {status}"
    return sorted(out.getvalue().split())

def update(*args):
    status = TaskUpdateApp.main([*args, "--no-confirm"])
    assert status == 0, f"update {args} exits with {status}"

Task.add_all([Task.new(args=f'task-{n}') for n in range(3)])
update('--delete', '--limit', '1', '--order-by', 'args')
assert search('args') == ['task-1', 'task-2'], search('args')
