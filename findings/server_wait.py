"""The configured `server.wait` must be the scheduler's polling interval."""
import os
os.environ['HYPERSHELL_SERVER_WAIT'] = '17'
os.environ['HYPERSHELL_DATABASE_PROVIDER'] = 'sqlite'
os.environ['HYPERSHELL_DATABASE_FILE'] = os.path.join(os.environ['HYPERSHELL_SITE'], 'main.db')
from hypershell.data import ensuredb
from hypershell import server
ensuredb()
thread = server.ServerThread(source=None, forever_mode=True)
slept = []
server.time.sleep = slept.append
machine = thread.scheduler.machine
machine.load_bundle()
assert slept == [17], slept
