"""`hs client --signalwait SEC` is documented and must be accepted."""
from hypershell import client
got = {}
client.run_client = lambda **kw: got.update(kw)
with client.ClientApp.from_cmdline(['--signalwait', '7']) as app:
    app.run()
assert got['task_signalwait'] == 7
