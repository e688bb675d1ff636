"""Ghost code: the meaning of an associative scan (left/right fold).  Used as the contract of
my_assoc_scan and tfp.math.scan_associative at their call sites."""


def prefix(op, elems):
    acc = elems[0]
    out = [acc]
    for j in range(len(elems) - 1):
        acc = op(acc, elems[j + 1])
        out.append(acc)
    return out


def suffix(op, elems):
    n = len(elems)
    acc = elems[n - 1]
    out = [acc]
    for j in range(n - 1):
        acc = op(elems[n - 2 - j], acc)
        out.append(acc)
    out.reverse()
    return out
