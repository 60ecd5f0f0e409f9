"""`hs cluster --eager` must schedule eagerly in every launch mode."""
import os
os.environ['HYPERSHELL_DATABASE_PROVIDER'] = 'sqlite'
os.environ['HYPERSHELL_DATABASE_FILE'] = os.path.join(os.environ['HYPERSHELL_SITE'], 'main.db')
from hypershell import cluster
got = {}
cluster.run_local = lambda **kw: got.update(kw)
with cluster.ClusterApp.from_cmdline(['-', '-r1', '--eager']) as app:
    app.run()
assert got.get('eager') is True, got.get('eager')
