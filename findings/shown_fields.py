"""Fields of tasks are shown as they are recorded."""
import os
os.environ["HYPERSHELL_DATABASE_PROVIDER"] = "sqlite"
os.environ["HYPERSHELL_DATABASE_FILE"] = os.path.join(os.environ["HYPERSHELL_SITE"], "main.db")
import sys, io, contextlib
from hypershell.data import ensuredb
from hypershell.data.model import Task
from hypershell.task import TaskSearchApp, TaskInfoApp
ensuredb()

def run(app, *args):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        status = app.main([*args])
    assert status == 0, f"{args} exits with {status}"
    return out.getvalue()

for args in ('echo "é"', r"awk '{print \"\t\"}'", 'x[bold]y'):
    task = Task.new(args=args)
    Task.add(task)
    given = args
    assert run(TaskInfoApp, task.id, '-x', 'args') == args + '\n', run(TaskInfoApp, task.id, '-x', 'args')
    assert args in run(TaskSearchApp, 'args').split('\n'), run(TaskSearchApp, 'args')
    assert args in run(TaskSearchApp, 'args', '-f', 'table'), run(TaskSearchApp, 'args', '-f', 'table')
    assert f'args: {args}\n' in run(TaskInfoApp, task.id), run(TaskInfoApp, task.id)
