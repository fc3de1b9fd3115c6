def extend(r, prog, f):
    pass
