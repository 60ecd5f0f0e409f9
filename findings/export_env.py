"""Variables defined with HYPERSHELL_EXPORT_ reach tasks as they are (007 became 7, 1.10 became 1.1, empty became null, FOO vanished if FOO_BAR was given)."""
import os
import sys
GIVEN = {'FOO': '007', 'FOO_BAR': 'x', 'V': '1.10', 'E': '', 'T': 'True', 'NAME': 'abc'}
os.environ.update({f'HYPERSHELL_EXPORT_{k}': v for k, v in GIVEN.items()})
from hypershell.client import task_env
from hypershell.data.model import Task
env = task_env(Task.new(args='echo'))
wrong = {k: env.get(k) for k, v in GIVEN.items() if env.get(k) != v}
print(wrong or 'as given')
sys.exit(bool(wrong))
