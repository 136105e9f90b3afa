"""operation instances of a dense-tensor object (shared by contract and replay; plain data)"""


def names(order):
    r = [('vectorize',), ('get_shape',), ('eval',), ('add', 'D'), ('add', 't'), ('add', 's'), ('hadamard', 'D'),
         ('hadamard', 't'), ('hadamard', 's'), ('sub', 'D'), ('sub', 't'), ('sub', 's'), ('getitem',),
         ('add', 'n'), ('hadamard', 'n'), ('sub', 'n')]
    for m in range(order):
        r.append(('unfold', m))
        r.append(('t2mat', m, -1))
        r.append(('fold', m))
        r.append(('mul', m, 0))
    r += [('mul', 0, 1), ('mul', 'default'), ('unfold', 'default')]
    if order >= 2:
        r.append(('getitem', 'column'))
        r += [('t2mat', (1, 0), -1), ('mul', (0, 1), (1, 0))]
    if order == 3:
        r += [('t2mat', 1, (2, 0)), ('t2mat', (0, 2), -1)]
    if order == 2:
        r += [('kron', 'D'), ('kron', 't'), ('khatri', 'D'), ('khatri', 't')]
    return r
