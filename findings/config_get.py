"""`hs config get` must print settings as they are: `hs config which` must know every source."""
import os, subprocess, sys, tempfile, shutil
hs = os.path.join(os.path.dirname(sys.executable), 'hs')
home = tempfile.mkdtemp()
env = {**os.environ, 'HOME': home, 'HYPERSHELL_SITE': home}


def run(*args, **extra):
    p = subprocess.run([hs, 'config', *args], env={**env, **extra}, capture_output=True, text=True, cwd=home)
    return p.returncode, p.stdout.strip('\n')


bad = []
for what, got, want in (('section', run('get', 'console'), (0, '[console]\ntheme = "monokai"')),
                        ('value', run('get', 'export.x', HYPERSHELL_EXPORT_X='say "hi"'), (0, 'say "hi"')),
                        ('source', run('which', 'logging.format', '--site'), (0, 'preload')),
                        ('origin', (run('which', 'logging.format')[0],), (0,))):
    if got != want:
        bad.append(what)
        print(f'{what}: {got} instead of {want}')
shutil.rmtree(home)
sys.exit(bool(bad))
