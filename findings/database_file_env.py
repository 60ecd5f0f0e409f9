"""A database file given by way of an environment variable (`file_env`) is a database: tasks must not be kept in memory only."""
import os, pathlib, subprocess, sys
site = pathlib.Path(os.environ['HYPERSHELL_SITE'])
(site / 'config.toml').write_text('[database]\nprovider = "sqlite"\nfile_env = "MY_TASKS"\n')
env = {**os.environ, 'MY_TASKS': str(site / 'tasks.db')}

prog = 'from hypershell.data import DATABASE_ENABLED as x; print(x)'
got = subprocess.run([sys.executable, '-c', prog], env=env, capture_output=True, text=True)
assert got.stdout.strip() == 'True', (got.stdout, got.stderr)
hs = [sys.executable, '-c', 'import sys; from hypershell import main; sys.exit(main())']
got = subprocess.run([*hs, 'submit', '-'], input='echo hello\n', env=env, capture_output=True, text=True)
assert got.returncode == 0, (got.stdout, got.stderr)
got = subprocess.run([*hs, 'task', 'search', '--count'], env=env, capture_output=True, text=True)
assert got.returncode == 0 and got.stdout.strip() == '1', (got.stdout, got.stderr)
