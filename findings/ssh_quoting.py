"""The remote client gets the template and the exported environment as they are, whatever characters they contain."""
import os, subprocess, sys
os.environ['HYPERSHELL_TASK_CWD'] = '/some dir/with "quotes"'
from hypershell.cluster import ssh

class Server:
    def __init__(self, *args, **kwargs):
        pass

ssh.ServerThread = Server
TEMPLATE = "awk '{print $1}' {}"
show = os.path.join(os.getcwd(), 'show.py')
with open(show, 'w') as out:
    out.write('import os, sys; print(sys.argv[sys.argv.index("-t") + 1]); print(os.getenv("HYPERSHELL_TASK_CWD"))')
for export in (False, True):
    env = {k: v for k, v in os.environ.items() if k != 'HYPERSHELL_TASK_CWD'}
    cluster = ssh.SSHCluster(source=[], nodelist=['host'], template=TEMPLATE, export_env=export, remote_exe=f'{sys.executable} {show}')
    argv, = cluster.client_argv
    assert argv[:2] == ['ssh', 'host']
    # ssh joins its arguments with spaces and has the remote shell run them
    out = subprocess.run(['sh', '-c', ' '.join(argv[2:])], env=env, capture_output=True, text=True)
    got = out.stdout.splitlines()
    assert got == [TEMPLATE, os.environ['HYPERSHELL_TASK_CWD'] if export else 'None'], (got, out.stderr)
print('ok')
