"""After a failed update the session is still usable."""
import os
os.environ['HYPERSHELL_DATABASE_PROVIDER'] = 'sqlite'
os.environ['HYPERSHELL_DATABASE_FILE'] = os.path.join(os.environ['HYPERSHELL_SITE'], 'main.db')
from hypershell.data import ensuredb
from hypershell.data.model import Task
ensuredb()
Task.add_all([Task.new(args='a', next_id='x'), Task.new(args='b')])
a, b = [t.id for t in Task.query().order_by(Task.submit_time).all()]
try:
    Task.update(b, next_id='x')
except Exception as e:
    print(type(e).__name__)
print(Task.count())
