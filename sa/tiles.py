"""Collapsing sums over the tiles of a row range: sum over i of F(X[lo(i):hi(i)]) = F(X[A:E]) for row-additive F, when the
tiles [lo(i), hi(i)) partition [A, E)."""
import terms as t


def collapse(x):
    return x
