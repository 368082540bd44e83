from . import textmap  # noqa
