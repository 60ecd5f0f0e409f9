"""Tags with the value null are told from tags that are not there."""
import os
os.environ["HYPERSHELL_DATABASE_PROVIDER"] = "sqlite"
os.environ["HYPERSHELL_DATABASE_FILE"] = os.path.join(os.environ["HYPERSHELL_SITE"], "main.db")
import sys, io, contextlib
from datetime import datetime
from hypershell.data import ensuredb
from hypershell.data.model import Task
from hypershell.task import TaskSearchApp, TaskUpdateApp
ensuredb()

def search(*args):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        status = TaskSearchApp.main([*args])
    assert status == 0, f"search {args} exits with {status}"
    return sorted(out.getvalue().split())

def update(*args):
    status = TaskUpdateApp.main([*args, "--no-confirm"])
    assert status == 0, f"update {args} exits with {status}"

Task.add_all([Task.new(args='one', tag={'v': 1.0}), Task.new(args='zero', tag={'v': 0.0}), Task.new(args='other', tag={'v': 2.5}),
              Task.new(args='true', tag={'w': True}), Task.new(args='int', tag={'u': 1}), Task.new(args='null', tag={'n': None})])
for given, want in (('n:null', ['null']), ('n', ['null']), ('w', ['true']), ('x:null', []), ('x', [])):
    assert search('args', '-t', given) == want, (given, search('args', '-t', given))
update('-t', 'n:null', '--cancel')
assert search('args', '-w', 'exit_status == -1') == ['null'], search('args', '-w', 'exit_status == -1')
