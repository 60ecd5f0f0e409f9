"""Documented template notations: negative indices, and expressions or commands that contain the closing sign."""
from hypershell.core.template import Template
cases = [('{[-1]}', 'a b c', 'c'), ('{[-2:]}', 'a b c', 'b c'), ('{[::-1]}', 'a b c', 'c b a'),
         ('{= x == 2 =}', '3', 'False'), ('{= 1 if x >= 2 else 0 =}', '3', '1'), ('{= x.split(sep=",")[1] =}', 'a,b', 'b'),
         ('{% printf "%s-%s" @ 1 %}', 'a', 'a-1')]
bad = 0
for template, args, want in cases:
    try:
        got = Template(template).expand(args)
    except Exception as error:
        got = f'{type(error).__name__}: {error}'
    print(template, args, '->', got)
    bad += got != want
raise SystemExit(bad)
