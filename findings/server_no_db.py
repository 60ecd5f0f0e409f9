"""`hs server --no-db` must not ask for a database, `--initdb` must initialise one."""
import os
os.environ['HYPERSHELL_DATABASE_FILE'] = ''
from hypershell import server
got = {}
server.serve_from = lambda **kw: got.update(kw)
with server.ServerApp.from_cmdline(['-', '--no-db']) as app:
    app.run()
assert got['in_memory'] is True
calls = []
server.ensuredb = lambda *args, **kw: calls.append((args, kw))
with server.ServerApp.from_cmdline(['-', '--initdb']) as app:
    app.run()
assert calls in ([((), {'auto_init': True})], [((True,), {})]), calls
