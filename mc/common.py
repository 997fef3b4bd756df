"""shared oracles"""
from __future__ import annotations


def order_insensitive(c):
    """canonical form with mapping keys sorted"""
    if c[0] == "D":
        return ("D",) + tuple(sorted((k, order_insensitive(v)) for k, v in c[1:]))
    if c[0] == "L":
        return ("L",) + tuple(order_insensitive(v) for v in c[1:])
    return c
