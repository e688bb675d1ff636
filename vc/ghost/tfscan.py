"""Ghost code: the meaning of tf.scan (outputs are the carries in input order)."""


def fwd(fn, elems, carry):
    out = []
    for x in elems:
        carry = fn(carry, x)
        out.append(carry)
    return out


def bwd(fn, elems, carry):
    n = len(elems)
    out = []
    for j in range(n):
        carry = fn(carry, elems[n - 1 - j])
        out.append(carry)
    out.reverse()
    return out


def total(acc, elems):
    for x in elems:
        acc = acc + x
    return acc


def vmap(fn, elems):
    out = []
    for x in elems:
        out.append(fn(x))
    return out
