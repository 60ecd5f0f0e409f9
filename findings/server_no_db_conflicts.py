"""`hs server --no-db` with --forever or --restart is accepted although there is then nothing to schedule (documented to conflict)."""
import os, subprocess, sys, tempfile

with tempfile.TemporaryDirectory() as site:
    env = {**os.environ, 'HYPERSHELL_SITE': site, 'HYPERSHELL_LOGGING_LEVEL': 'ERROR', 'HYPERSHELL_DATABASE_FILE': os.path.join(site, 'main.db')}
    bad = 0
    for extra in ('--forever', '--restart'):
        try:
            got = subprocess.run([sys.executable, '-c', 'import sys; from hypershell import main; sys.exit(main())', 'server', '--no-db', extra, '-p', '50881'],
                                 env=env, cwd=site, capture_output=True, text=True, timeout=8, stdin=subprocess.DEVNULL)
            print(extra, got.returncode, got.stderr.strip()[:100])
            bad += got.returncode != 2
        except subprocess.TimeoutExpired:
            print(extra, 'accepted')
            bad += 1
    assert not bad
