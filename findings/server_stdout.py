"""`hs server --print` must leave standard output open."""
import os, sys
os.environ['HYPERSHELL_DATABASE_PROVIDER'] = 'sqlite'
os.environ['HYPERSHELL_DATABASE_FILE'] = os.path.join(os.environ['HYPERSHELL_SITE'], 'main.db')
from hypershell import server
server.serve_from = lambda **kw: None
with server.ServerApp.from_cmdline(['-', '--print']) as app:
    app.run()
closed = sys.stdout.closed
sys.stdout = os.fdopen(os.dup(2), 'w')
assert not closed, 'standard output is closed'
