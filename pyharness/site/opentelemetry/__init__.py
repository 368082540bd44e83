"""Stand-in for the opentelemetry packages (not installed here): carries `traceparent` along."""
from . import trace, baggage, context, propagate, propagators, util  # noqa
