"""A user and password with characters that are special in a URL must reach the database as they are."""
from sqlalchemy.engine import make_url
from hypershell.data.core import DatabaseURL
for user, password in [('me', 'p@ss'), ('me', 'p%41ss'), ('me@org', 'a/b:c?d#e'), ('a:b', 'x y+z'), ('me', 'plain')]:
    given = DatabaseURL(provider='postgresql', database='mine', user=user, password=password, host='db.host', port=5433)
    url = make_url(given.encode())
    assert (url.username, url.password, url.host, url.port, url.database) == (user, password, 'db.host', 5433, 'mine'), (given.encode(), url)
