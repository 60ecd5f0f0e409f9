"""`hs cluster --no-db` must not touch the configured database."""
import os
os.environ['HYPERSHELL_DATABASE_PROVIDER'] = 'sqlite'
os.environ['HYPERSHELL_DATABASE_FILE'] = os.path.join(os.environ['HYPERSHELL_SITE'], 'main.db')
from hypershell import cluster
cluster.run_local = lambda **kw: None
with cluster.ClusterApp.from_cmdline(['-', '--no-db']) as app:
    app.run()
assert not os.path.exists(os.environ['HYPERSHELL_DATABASE_FILE']), 'a database file was made'
