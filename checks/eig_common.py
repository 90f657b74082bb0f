"""operators with known spectra"""
import random


def diagonal(lams):
    n = len(lams)
    eye = lambda v: [[v[i] if i == j else 0 for j in range(n)] for i in range(n)]
    return {"A": eye(lams), "s": 1, "D": list(lams), "Q": eye([1] * n)}


def blocks(rng, sizes, lam):
    """orthogonal blocks of sizes 1, 2 and 4 in permuted coordinates; s = 4"""
    n = sum(sizes)
    place = list(range(n))
    rng.shuffle(place)
    lams = [lam() for _ in range(n)]
    Q = [[0] * n for _ in range(n)]
    at = 0
    for b in sizes:
        q = {1: [[1]], 2: [[1, 1], [1, -1]],
             4: [[1 if i == j else -1 for j in range(4)] for i in range(4)]}[b]
        for i in range(b):
            for j in range(b):
                Q[place[at + i]][at + j] = q[i][j]
        at += b
    A = [[0] * n for _ in range(n)]
    for j in range(n):
        w = 4 // sum(Q[i][j] ** 2 for i in range(n))
        for r in range(n):
            if Q[r][j]:
                for c in range(n):
                    A[r][c] += lams[j] * w * Q[r][j] * Q[c][j]
    return {"A": A, "s": 4, "D": [4 * x for x in lams], "Q": Q}


def some(rng, n, lo, hi):
    lam = lambda: rng.randint(lo, hi)
    if rng.random() < 0.4 or n < 2:
        return diagonal([lam() for _ in range(n)])
    sizes = []
    while sum(sizes) < n:
        sizes.append(rng.choice([b for b in (1, 2, 4) if b <= n - sum(sizes)]))
    return blocks(rng, sizes, lam)


def reached(sp, x):
    n = len(x)
    return sorted({sp["D"][j] for j in range(n)
                   if sum(sp["Q"][i][j] * x[i] for i in range(n))})


def coordinates_apart(sp, x):
    """the coordinates used by x are not coupled with the others"""
    n = len(x)
    return all(len({x[i] != 0 for i in range(n) if sp["Q"][i][j]}) <= 1 for j in range(n))
