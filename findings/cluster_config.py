"""A cluster must honour the configured attempts, eager mode, port, eviction period and heart rate like the server and client do."""
import os
os.environ['HYPERSHELL_DATABASE_PROVIDER'] = 'sqlite'
os.environ['HYPERSHELL_DATABASE_FILE'] = os.path.join(os.environ['HYPERSHELL_SITE'], 'main.db')
os.environ.update(HYPERSHELL_SERVER_ATTEMPTS='3', HYPERSHELL_SERVER_EAGER='true', HYPERSHELL_SERVER_PORT='54321',
                  HYPERSHELL_SERVER_EVICT='77', HYPERSHELL_CLIENT_HEARTRATE='33')
from hypershell import cluster
from hypershell.cluster import local, remote, ssh
made = []
for module, name in ((local, 'LocalCluster'), (remote, 'RemoteCluster'), (remote, 'AutoScalingCluster'), (ssh, 'SSHCluster')):
    getattr(module, name).new = classmethod(lambda cls, **kw: made.append(cls(**kw)) or type('T', (), {'join': lambda self: None})())
for argv in ([], ['--mpi'], ['--launcher', 'srun'], ['--ssh', 'a01'], ['-A', 'fixed', '-T60']):
    with cluster.ClusterApp.from_cmdline(['-', *argv]) as app:
        app.run()
    server = made[-1].server
    scheduler, monitor = server.scheduler.machine, server.heartmonitor.machine
    got = (scheduler.attempts, scheduler.eager, server.queue.config.port, monitor.evict_after.total_seconds())
    assert got == (3, True, 54321, 77), (argv, got)
assert made[0].client.client.config.port == 54321
assert made[0].client.heartbeat.machine.heartrate.total_seconds() == 33
