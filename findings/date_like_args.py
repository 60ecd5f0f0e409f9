"""A task whose command line looks like a date arrives as it was submitted."""
import os
os.environ['HYPERSHELL_DATABASE_PROVIDER'] = 'sqlite'
os.environ['HYPERSHELL_DATABASE_FILE'] = os.path.join(os.environ['HYPERSHELL_SITE'], 'main.db')
from hypershell.data.model import Task
for line in ('2024-01-01', '20240101', '2024-01-01 10:00:00'):
    task = Task.new(args=line)
    back = Task.unpack(task.pack())
    print(repr(back.args))
    assert back.args == line, 'the command line is no longer what was submitted'
    assert back.submit_time == task.submit_time and back.to_dict() == task.to_dict()
