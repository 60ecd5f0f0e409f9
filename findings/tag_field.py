"""The tag field cannot be overwritten with a text, which would make the task unreadable."""
import os
os.environ["HYPERSHELL_DATABASE_PROVIDER"] = "sqlite"
os.environ["HYPERSHELL_DATABASE_FILE"] = os.path.join(os.environ["HYPERSHELL_SITE"], "main.db")
import sys, io, contextlib
from hypershell.data import ensuredb
from hypershell.data.model import Task
from hypershell.task import TaskUpdateApp, TaskInfoApp
ensuredb()
task = Task.new(args='x', tag={'a': 1})
Task.add(task)
status = TaskUpdateApp.main(['tag=foo', '--no-confirm'])
out = io.StringIO()
with contextlib.redirect_stdout(out):
    shown = TaskInfoApp.main([task.id])
assert shown == 0, f"task cannot be shown any more (status {shown})"
assert status == 2, f"assigning the tag field is not refused (status {status})"
