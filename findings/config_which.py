"""`hs config which` of a variable that does not exist reports that and then exits with status 0."""
import os, subprocess, sys, tempfile

with tempfile.TemporaryDirectory() as site:
    env = {**os.environ, 'HYPERSHELL_SITE': site, 'HYPERSHELL_LOGGING_LEVEL': 'ERROR'}
    run = lambda *a: subprocess.run([sys.executable, '-c', 'import sys; from hypershell import main; sys.exit(main())', *a], env=env,
                                    cwd=site, capture_output=True, text=True)
    got = run('config', 'which', 'server.nope')
    print(got.returncode, got.stdout.strip(), got.stderr.strip())
    assert 'nope' in got.stderr
    assert got.returncode != 0, 'a variable that does not exist, and status 0'
    assert run('config', 'which', 'server.port').returncode == 0
