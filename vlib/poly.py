"""Independent reference for clusters on the square lattice: plain sets of cells."""
import functools
import itertools

NB = ((1, 0), (-1, 0), (0, 1), (0, -1))


def norm(cells):
    mx = min(c[0] for c in cells)
    my = min(c[1] for c in cells)
    return tuple(sorted((x - mx, y - my) for x, y in cells))


def images(cells):
    out = set()
    cur = list(cells)
    for _ in range(4):
        cur = [(-y, x) for x, y in cur]
        out.add(norm(cur))
        out.add(norm([(-x, y) for x, y in cur]))
    return out


def canon(cells, sym):
    return min(images(cells)) if sym else norm(cells)


def grow(shapes, sym, dirs=NB):
    out = set()
    for s in shapes:
        for x, y in s:
            for dx, dy in dirs:
                c = (x + dx, y + dy)
                if c not in s:
                    out.add(canon(list(s) + [c], sym))
    return out


@functools.lru_cache(None)
def all_of(n, sym, dirs=NB):
    if n == 1:
        return frozenset([((0, 0),)])
    return frozenset(grow(all_of(n - 1, sym, dirs), sym, dirs))


def connected_subsets(cells):
    """all connected subsets, as frozensets of cells"""
    cells = list(cells)
    seen = set(frozenset([c]) for c in cells)
    todo = list(seen)
    S = set(cells)
    while todo:
        s = todo.pop()
        for x, y in s:
            for dx, dy in NB:
                c = (x + dx, y + dy)
                if c in S and c not in s:
                    t = s | {c}
                    if t not in seen:
                        seen.add(t)
                        todo.append(t)
    return seen


def cells_of(g):
    """integer cells of a library geometry"""
    return [(int(round(float(x))), int(round(float(y)))) for x, y in zip(g.xlocs, g.ylocs)]


def sub_counts(cells, sym):
    """class -> number of proper connected subsets in that class"""
    out = {}
    for s in connected_subsets(cells):
        if len(s) < len(cells):
            k = canon(s, sym)
            out[k] = out.get(k, 0) + 1
    return out
