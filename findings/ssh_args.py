"""hs cluster --ssh uses the configured connection arguments ([ssh] args) when --ssh-args is not given."""
import os
os.environ['HYPERSHELL_SSH_ARGS'] = '-i /some.key'
from hypershell.cluster import ClusterApp, ssh

class Stop(Exception):
    pass

class Server:
    def __init__(self, *args, **kwargs):
        pass

ssh.ServerThread = Server
def start(self):
    raise Stop(self.client_argv)
ssh.SSHCluster.start = start

for given, want in ((['--ssh', 'host1'], ['-i', '/some.key']), (['--ssh', 'host1', '--ssh-args', ' -p 22'], ['-p', '22'])):
    app = ClusterApp.from_cmdline(given)
    app.filepath = '-'
    try:
        app.run()
    except Stop as stop:
        argv = stop.args[0][0]
    assert argv[:4] == ['ssh', *want, 'host1'], argv[:5]
print('ok')
