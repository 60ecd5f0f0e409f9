"""Tags are shown with their value, also when it is zero or false."""
import os
os.environ["HYPERSHELL_DATABASE_PROVIDER"] = "sqlite"
os.environ["HYPERSHELL_DATABASE_FILE"] = os.path.join(os.environ["HYPERSHELL_SITE"], "main.db")
import sys, io, contextlib
from hypershell.data import ensuredb
from hypershell.data.model import Task
from hypershell.task import TaskInfoApp
ensuredb()
task = Task.new(args='x', tag={'a': 0, 'b': False, 'c': '', 'd': 'x'})
Task.add(task)
out = io.StringIO()
with contextlib.redirect_stdout(out):
    TaskInfoApp.main([task.id, '-x', 'tag'])
assert out.getvalue() == 'a:0, b:False, c, d:x\n', out.getvalue()
