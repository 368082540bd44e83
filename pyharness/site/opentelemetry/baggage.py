def get_all(ctx=None):
    return {}
