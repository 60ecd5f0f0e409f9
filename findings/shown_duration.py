"""A task that took no time has a duration of zero, not none."""
import os
os.environ["HYPERSHELL_DATABASE_PROVIDER"] = "sqlite"
os.environ["HYPERSHELL_DATABASE_FILE"] = os.path.join(os.environ["HYPERSHELL_SITE"], "main.db")
import sys, io, contextlib
from hypershell.data import ensuredb
from hypershell.data.model import Task
from hypershell.task import TaskInfoApp
ensuredb()
task = Task.new(args='x', waited=0, duration=0, exit_status=0)
Task.add(task)
out = io.StringIO()
with contextlib.redirect_stdout(out):
    TaskInfoApp.main([task.id])
assert '(waited: 0:00:00)' in out.getvalue() and '(duration: 0:00:00)' in out.getvalue(), out.getvalue()
