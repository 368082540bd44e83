from . import context as _c
from .propagators.textmap import TextMapPropagator


class _W3C(TextMapPropagator):
    def inject(self, carrier):
        ctx = _c.get_current()
        if "trace_id" in ctx:
            carrier["traceparent"] = f"00-{ctx['trace_id']}-{ctx['span_id']}-01"

    def extract(self, carrier):
        ctx = _c.Context()
        parts = carrier.get("traceparent", "").split("-")
        if len(parts) == 4:
            ctx["trace_id"], ctx["span_id"] = parts[1], parts[2]
        return ctx


def get_global_textmap():
    return _W3C()
