import contextvars


class Context(dict):
    pass


_current = contextvars.ContextVar("ctx", default=Context())


def get_current():
    return _current.get()
