"""Meshes and distributions explored by the mesh checks (on the stand-in of DOLFINx)."""
import itertools

import numpy as np

import fakedlf


def rev(n):
    return list(reversed(range(n)))


def rot(n):
    return [(i + 1) % n for i in range(n)] if n else []


def mix(n):
    """A permutation without structure: stride coprime with n."""
    if n < 3:
        return rev(n)
    s = next(k for k in range(n // 2, n + 2) if np.gcd(k, n) == 1 and k > 1) if n > 3 else 2
    return [(1 + i * s) % n for i in range(n)]


PERMS = {"id": None, "rev": rev, "rot": rot, "mix": mix}


def perm_worlds(names=("id", "rev", "mix")):
    """Renumberings of cells, nodes and facets in a single process."""
    for c, n, f in itertools.product(names, repeat=3):
        yield f"{c}/{n}/{f}", dict(cell_perm=PERMS[c], node_perm=PERMS[n], facet_perm=PERMS[f])


def part_worlds(n_cells, max_cells=4, ghosts=True):
    """Every owned subset of the cells (with and without the rest as ghosts)."""
    for k in range(0, n_cells + 1):
        for own in itertools.combinations(range(n_cells), k):
            rest = tuple(i for i in range(n_cells) if i not in own)
            for gh in ((), rest) if ghosts and rest else ((),):
                for c in ("id", "rev"):
                    yield (f"own{own}gh{gh}{c}", dict(
                        cell_perm=PERMS[c], facet_perm=PERMS["mix"], node_perm=PERMS[c], owned=own,
                        ghosts=gh, offset=n_cells if own and own[0] else 0,
                        facet_offset=3 if own and own[0] else 0))


def use(kw):
    fakedlf.world[0] = fakedlf.World(**kw)
