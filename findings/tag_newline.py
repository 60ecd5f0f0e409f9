"""A tag value with a line break at its end is refused like any other blank."""
import os
os.environ["HYPERSHELL_DATABASE_PROVIDER"] = "sqlite"
os.environ["HYPERSHELL_DATABASE_FILE"] = os.path.join(os.environ["HYPERSHELL_SITE"], "main.db")
from hypershell.data.model import Task
for value in ('a b', 'ab\n'):
    try:
        Task.new('true', tag={'key': value})
    except ValueError as error:
        print(repr(value), 'refused')
    else:
        raise SystemExit(f'{value!r} accepted')
