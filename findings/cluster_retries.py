"""A cluster started from the library without options must not retry failed tasks, like a server (default attempts is one)."""
import os
os.environ['HYPERSHELL_DATABASE_PROVIDER'] = 'sqlite'
os.environ['HYPERSHELL_DATABASE_FILE'] = os.path.join(os.environ['HYPERSHELL_SITE'], 'main.db')
from hypershell.cluster import LocalCluster, RemoteCluster, SSHCluster, AutoScalingCluster
from hypershell.server import DEFAULT_ATTEMPTS
for cluster in (LocalCluster([]), RemoteCluster([]), SSHCluster([], nodelist=['a01']), AutoScalingCluster([])):
    assert cluster.server.scheduler.machine.attempts == DEFAULT_ATTEMPTS, (type(cluster), cluster.server.scheduler.machine.attempts)
