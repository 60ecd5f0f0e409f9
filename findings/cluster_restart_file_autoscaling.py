"""`hs cluster FILE --restart --autoscaling` ends with a traceback of an AttributeError instead of running."""
import os, sys, tempfile
site = tempfile.mkdtemp() if not os.environ.get('HYPERSHELL_SITE') else os.environ['HYPERSHELL_SITE']
os.environ['HYPERSHELL_SITE'] = site
os.environ['HYPERSHELL_DATABASE_FILE'] = os.path.join(site, 'main.db')
os.environ['HYPERSHELL_LOGGING_LEVEL'] = 'ERROR'
with open(os.path.join(site, 'tasks'), 'w') as out:
    out.write('true\n')
from hypershell.cluster import ClusterApp
app = ClusterApp.from_cmdline([os.path.join(site, 'tasks'), '--restart', '--autoscaling', 'fixed'])
app.check_arguments()
print('ok')
