"""Tag names with dots and dashes can be updated and removed."""
import os
os.environ["HYPERSHELL_DATABASE_PROVIDER"] = "sqlite"
os.environ["HYPERSHELL_DATABASE_FILE"] = os.path.join(os.environ["HYPERSHELL_SITE"], "main.db")
import sys, io, contextlib
from datetime import datetime
from hypershell.data import ensuredb
from hypershell.data.model import Task
from hypershell.task import TaskSearchApp, TaskUpdateApp
ensuredb()

def search(*args):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        status = TaskSearchApp.main([*args])
    assert status == 0, f"search {args} exits with {status}"
    return sorted(out.getvalue().split())

def update(*args):
    status = TaskUpdateApp.main([*args, "--no-confirm"])
    assert status == 0, f"update {args} exits with {status}"

Task.add_all([Task.new(args='task', tag={'a.b': 1})])
update('x.y:2')
tag = Task.query(caching=False).one().tag
assert tag == {'a.b': 1, 'x.y': 2}, tag
update('--remove-tag', 'a.b')
tag = Task.query(caching=False).one().tag
assert tag == {'x.y': 2}, tag
