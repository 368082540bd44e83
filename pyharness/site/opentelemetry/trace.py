import enum
import os
from contextlib import contextmanager

from . import context as _c


class SpanKind(enum.Enum):
    INTERNAL = 0
    SERVER = 1
    CLIENT = 2
    PRODUCER = 3
    CONSUMER = 4


class Span:
    def set_attribute(self, key, value):
        pass


class _Tracer:
    @contextmanager
    def start_as_current_span(self, name, context=None, kind=None, **kw):
        base = _c.get_current() if context is None else context
        ctx = _c.Context(base)
        trace_id = base.get("trace_id") or os.urandom(16).hex()
        ctx["trace_id"] = trace_id
        ctx["span_id"] = os.urandom(8).hex()
        token = _c._current.set(ctx)
        try:
            yield Span()
        finally:
            _c._current.reset(token)


def get_tracer(name):
    return _Tracer()
