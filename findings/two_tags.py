"""Several tags without value all have to be there."""
import os
os.environ["HYPERSHELL_DATABASE_PROVIDER"] = "sqlite"
os.environ["HYPERSHELL_DATABASE_FILE"] = os.path.join(os.environ["HYPERSHELL_SITE"], "main.db")
import sys, io, contextlib
from datetime import datetime
from hypershell.data import ensuredb
from hypershell.data.model import Task
from hypershell.task import TaskSearchApp, TaskUpdateApp
ensuredb()

def search(*args):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        status = TaskSearchApp.main([*args])
    assert status == 0, f"search {args} exits with {status}"
    return sorted(out.getvalue().split())

def update(*args):
    status = TaskUpdateApp.main([*args, "--no-confirm"])
    assert status == 0, f"update {args} exits with {status}"

Task.add_all([Task.new(args='both', tag={'a': '', 'b': ''}), Task.new(args='one', tag={'a': ''}), Task.new(args='other', tag={'b': ''})])
for names in (('a', 'b'), ('b', 'a')):
    assert search('args', '-t', *names) == ['both'], (names, search('args', '-t', *names))
