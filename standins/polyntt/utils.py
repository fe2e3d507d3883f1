def inv_mod(elt, q):
    return pow(elt, -1, q)
