"""`hs server --eager` must schedule eagerly."""
import os
os.environ['HYPERSHELL_DATABASE_PROVIDER'] = 'sqlite'
os.environ['HYPERSHELL_DATABASE_FILE'] = os.path.join(os.environ['HYPERSHELL_SITE'], 'main.db')
from hypershell import server
got = {}
server.serve_forever = lambda **kw: got.update(kw)
with server.ServerApp.from_cmdline(['--forever', '--eager']) as app:
    app.run()
assert got['eager'] is True, got['eager']
