"""`hs cluster --port NUM` must use that port, also with a local client."""
import os
os.environ['HYPERSHELL_DATABASE_PROVIDER'] = 'sqlite'
os.environ['HYPERSHELL_DATABASE_FILE'] = os.path.join(os.environ['HYPERSHELL_SITE'], 'main.db')
from hypershell import cluster
from hypershell.cluster import local
made = []
local.LocalCluster.new = classmethod(lambda cls, **kw: made.append(cls(**kw)) or type('T', (), {'join': lambda self: None})())
with cluster.ClusterApp.from_cmdline(['-', '--port', '54321']) as app:
    app.run()
assert made[0].server.queue.config.port == 54321, made[0].server.queue.config.port
assert made[0].client.client.config.port == 54321, made[0].client.client.config.port
