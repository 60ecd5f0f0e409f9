"""The configured client bundle size and wait must be the client's defaults."""
import os
os.environ.update(HYPERSHELL_CLIENT_BUNDLESIZE='7', HYPERSHELL_CLIENT_BUNDLEWAIT='9')
from hypershell import client
got = {}
client.run_client = lambda **kw: got.update(kw)
with client.ClientApp.from_cmdline([]) as app:
    app.run()
assert (got['bundlesize'], got['bundlewait']) == (7, 9), (got['bundlesize'], got['bundlewait'])
