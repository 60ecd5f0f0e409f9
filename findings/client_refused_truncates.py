"""`hs client --capture -o FILE` is refused; FILE, with the results of an earlier run, must stay as it was."""
import os
from hypershell import client
path = os.path.join(os.environ['HYPERSHELL_SITE'], 'results.txt')
with open(path, 'w') as stream:
    stream.write('results of an earlier run\n')
status = client.ClientApp.main(['--capture', '-o', path])
assert status == 2, status
with open(path) as stream:
    text = stream.read()
assert text == 'results of an earlier run\n', f'the file was emptied: {text!r}'
