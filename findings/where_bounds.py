"""Conditions with >= and <= include the bound."""
import os
os.environ["HYPERSHELL_DATABASE_PROVIDER"] = "sqlite"
os.environ["HYPERSHELL_DATABASE_FILE"] = os.path.join(os.environ["HYPERSHELL_SITE"], "main.db")
import sys, io, contextlib
from datetime import datetime
from hypershell.data import ensuredb
from hypershell.data.model import Task
from hypershell.task import TaskSearchApp, TaskUpdateApp
ensuredb()

def search(*args):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        status = TaskSearchApp.main([*args])
    assert status == 0, f"search {args} exits with {status}"
    return sorted(out.getvalue().split())

def update(*args):
    status = TaskUpdateApp.main([*args, "--no-confirm"])
    assert status == 0, f"update {args} exits with {status}"

now = datetime.now().astimezone()
Task.add_all([Task.new(args=f'task-{n}', schedule_time=now, completion_time=now, exit_status=n) for n in (1, 2, 3)])
assert search('args', '-w', 'exit_status >= 2') == ['task-2', 'task-3'], search('args', '-w', 'exit_status >= 2')
assert search('args', '-w', 'exit_status <= 2') == ['task-1', 'task-2'], search('args', '-w', 'exit_status <= 2')
