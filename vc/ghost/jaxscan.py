"""Ghost code: the meaning of jax.lax.scan (final carry and the outputs in input order)."""


def scan(fn, init, xs):
    carry = init
    ys = []
    for x in xs:
        carry, y = fn(carry, x)
        ys.append(y)
    return carry, ys
