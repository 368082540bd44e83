class TextMapPropagator:
    pass
