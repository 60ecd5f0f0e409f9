"""A server fed by a slow source must schedule every task, also those read after everything before them had completed."""
import os, sys, time
os.environ['HYPERSHELL_DATABASE_PROVIDER'] = 'sqlite'
os.environ['HYPERSHELL_DATABASE_FILE'] = os.path.join(os.environ['HYPERSHELL_SITE'], 'main.db')
import hypershell.server as server
from hypershell.data import ensuredb
from hypershell.data.model import Task
from hypershell.server import ServerThread
from hypershell.client import ClientThread
server.DEFAULT_QUERY_PAUSE = 0.2
ensuredb()

def slow():
    yield 'true 1'
    time.sleep(12)
    yield 'true 2'

srv = ServerThread.new(source=slow(), bundlewait=1, address=('localhost', 50991), auth='x' * 16)
time.sleep(2)
cli = ClientThread.new(num_tasks=1, bundlewait=1, heartrate=1, address=('localhost', 50991), auth='x' * 16)
srv.join(timeout=45)
done = [t.args for t in Task.query().filter(Task.completion_time.isnot(None)).all()]
every = [t.args for t in Task.query().all()]
print('server ended:', not srv.is_alive(), 'submitted', every, 'completed', done)
raise SystemExit(sorted(done) != sorted(every) or len(every) != 2)
