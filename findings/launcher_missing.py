"""A launcher that cannot be started must be reported as such, and the server stopped."""
from hypershell.cluster import remote
remote.time.sleep = lambda seconds: None
calls = []
class Server:
    def __init__(self, **kw): pass
    def start(self): calls.append('start')
    def stop(self, **kw): calls.append('stop')
remote.ServerThread = Server
try:
    remote.run_cluster(source=['echo 1'], launcher='/nonexistent/launcher')
except FileNotFoundError:
    pass
assert calls == ['start', 'stop'], calls
