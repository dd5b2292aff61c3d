"""How a world is divided among two programs: interleaved, and in reverse order of rank."""


def members(sizes):
    """World ranks of each group, in the order of the ranks of its communicator."""
    left = list(sizes)
    sets = [[] for _ in sizes]
    for r in range(sum(sizes)):
        g = max(range(len(sizes)), key=lambda i: (left[i] / sizes[i] if sizes[i] else -1, -i))
        left[g] -= 1
        sets[g].append(r)
    return [s[::-1] for s in sets]


def split(comm, sets):
    """This process's communicator and group."""
    if len(sets) == 1:
        return comm, 0
    me = comm.Get_rank()
    g = next(i for i, s in enumerate(sets) if me in s)
    return comm.Split(color=g, key=-me), g
