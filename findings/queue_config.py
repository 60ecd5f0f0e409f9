"""Loading the connection details from the configuration must work."""
from hypershell.core.queue import QueueConfig
from hypershell.core.config import config
loaded = QueueConfig.load()
assert (loaded.host, loaded.port, loaded.auth) == (config.server.bind, config.server.port, config.server.auth)
