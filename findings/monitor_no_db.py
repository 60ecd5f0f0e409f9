"""A server that disabled its database by itself must not record clients in one."""
import os
os.environ['HYPERSHELL_DATABASE_FILE'] = ''
from hypershell import server
thread = server.ServerThread(source=None)
assert thread.in_memory and thread.receiver.machine.in_memory
assert thread.heartmonitor.machine.in_memory, 'the heartbeat monitor still uses the database'
