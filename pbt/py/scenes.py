"""Scenes for the Python checks: islands of one grid cell each (so they are simple and apart), as Hypothesis strategies, and
exact brute-force visibility between points in whole microdegrees, written from its definition."""
import math

import hypothesis.strategies as st

PERIOD = 360000001
STEP = 15625  # microdegrees in 1/64 degree, a whole number of degrees in binary


def cross(a, b, c):
    return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])


def sign(v):
    return (v > 0) - (v < 0)


def on_segment(a, b, p):
    return cross(a, b, p) == 0 and min(a[0], b[0]) <= p[0] <= max(a[0], b[0]) and min(a[1], b[1]) <= p[1] <= max(a[1], b[1])


def proper(a, b, c, d):
    return sign(cross(a, b, c)) * sign(cross(a, b, d)) < 0 and sign(cross(c, d, a)) * sign(cross(c, d, b)) < 0


def touch(a, b, c, d):
    return proper(a, b, c, d) or on_segment(a, b, c) or on_segment(a, b, d) or on_segment(c, d, a) or on_segment(c, d, b)


def area2(r):
    return sum(r[i - 1][0] * r[i][1] - r[i - 1][1] * r[i][0] for i in range(len(r)))


def simple(r):
    n = len(r)
    if n < 3 or len(set(r)) < n:
        return False
    for i in range(n):
        a, b, c = r[i - 1], r[i], r[(i + 1) % n]
        if cross(a, b, c) == 0:
            return False
        for j in range(i + 1, n):
            if (j + 1) % n == i or (i + 1) % n == j:
                continue
            if touch(r[i], r[(i + 1) % n], r[j], r[(j + 1) % n]):
                return False
    return True


def inside(r, p):
    """1 inside, 0 on the outline, -1 outside"""
    res = False
    for i in range(len(r)):
        a, b = r[i - 1], r[i]
        if on_segment(a, b, p):
            return 0
        if (a[1] > p[1]) != (b[1] > p[1]):
            if (cross(a, b, p) > 0) == (b[1] > a[1]):
                res = not res
    return 1 if res else -1


CLEAR, UNSURE, BLOCKED = "clear", "unsure", "blocked"


def sight(rings, p, q):
    """CLEAR: the open segment touches no land. BLOCKED: it passes through the inside of some. UNSURE: it only touches land."""
    if p == q:
        return CLEAR
    res = CLEAR
    length = math.hypot(q[0] - p[0], q[1] - p[1])
    for r in rings:
        cuts, marginal = [p, q], False
        for i in range(len(r)):
            a, b = r[i - 1], r[i]
            if proper(p, q, a, b):
                d1, d2 = cross(a, b, p), cross(a, b, q)
                t = d1 / (d1 - d2)
                if min(t, 1 - t) * length <= 3 or min(abs(cross(p, q, a)), abs(cross(p, q, b))) < 1e-3 * length:
                    marginal = True
                else:
                    return BLOCKED
            if a != p and a != q and on_segment(p, q, a):
                cuts.append(a)
        if len(cuts) > 2 or marginal:
            res = UNSURE
        if marginal:
            continue
        cuts.sort(key=lambda v: (v[0] - p[0]) * (q[0] - p[0]) + (v[1] - p[1]) * (q[1] - p[1]))
        double = [(2 * x, 2 * y) for x, y in r]
        for u, v in zip(cuts, cuts[1:]):
            if inside(double, (u[0] + v[0], u[1] + v[1])) > 0:
                if math.hypot(v[0] - u[0], v[1] - u[1]) <= 3:
                    res = UNSURE
                else:
                    return BLOCKED
    return res


def periodic(rings):
    return [[(x + k * PERIOD, y) for x, y in r] for k in (-1, 0, 1) for r in rings]


def sight_around(land, p, q):
    """(directly, over the antimeridian); `land` with its copies"""
    d = sight(land, p, q)
    ways = [sight(land, p, (q[0] + k * PERIOD, q[1])) for k in (1, -1)]
    over = CLEAR if CLEAR in ways else UNSURE if UNSURE in ways else BLOCKED
    return d, over


def _outline(kind, pts):
    """An outline in the lattice 1..7 x 1..7 of a cell"""
    x0, x1 = sorted((pts[0][0], pts[1][0]))
    y0, y1 = sorted((pts[0][1], pts[1][1]))
    x0, y0 = min(x0, 6), min(y0, 6)
    x1, y1 = max(x1, x0 + 1), max(y1, y0 + 1)
    if kind == "star":
        cx, cy = sum(p[0] for p in pts) / len(pts), sum(p[1] for p in pts) / len(pts)
        r = sorted(set(map(tuple, pts)), key=lambda p: (math.atan2(p[1] - cy, p[0] - cx), p))
        r = [r[i] for i in range(len(r)) if cross(r[i - 1], r[i], r[(i + 1) % len(r)]) != 0]
        if simple(r):
            return r
    if kind == "ell" and x1 - x0 >= 2 and y1 - y0 >= 2:
        return [(x0, y0), (x1, y0), (x1, y0 + 1), (x0 + 1, y0 + 1), (x0 + 1, y1), (x0, y1)]
    if kind == "triangle":
        return [(x0, y0), (x1, y0), (x0, y1)]
    return [(x0, y0), (x1, y0), (x1, y1), (x0, y1)]


def some(elements, most, least=0):
    """A list whose length is drawn evenly; those of st.lists are mostly short."""
    return st.integers(least, most).flatmap(lambda n: st.lists(elements, min_size=n, max_size=n))


def around_round_number(most):
    """Where counts are split, buffered or numbered something may happen at a round number."""
    round_ones = sorted({m * k for m in (8, 10, 16, 20, 25, 32, 50, 64, 100, 128, 256, 1000) for k in (1, 2, 3, 5) if m * k < most})
    return st.tuples(st.sampled_from(round_ones), st.integers(-1, 1)).map(sum)


lattice = st.tuples(st.integers(1, 7), st.integers(1, 7)).map(list)
island = st.tuples(st.sampled_from(["star", "star", "ell", "triangle", "box"]), st.lists(lattice, min_size=2, max_size=8), st.booleans(), st.integers(0, 7)).map(list)


@st.composite
def scene(draw, max_islands=5, min_islands=0):
    """{unit, x, y (of the south-west corner, in steps of 1/64 degree), cells: [[column, row, island]]}"""
    w = draw(st.integers(2 if min_islands > 2 else 1, 4))
    h = draw(st.integers(2 if min_islands > 1 else 1, 3))
    places = [(i, j) for i in range(w) for j in range(h)]
    n = draw(st.integers(min(min_islands, len(places)), min(max_islands, len(places))))
    order = draw(st.permutations(places))[:n]
    unit = draw(st.sampled_from([1, 2, 5, 16, 64]))
    half = 11520
    x = draw(st.one_of(st.integers(-half, half - 8 * unit * w), st.sampled_from([-half, half - 8 * unit * w, 0, -4 * unit * w])))
    y = draw(st.one_of(st.integers(-5000, 5000 - 8 * unit * h), st.sampled_from([0, -4 * unit * h])))
    around = draw(st.sampled_from([False, False, True])) and w > 1  # the last column at the other side of the antimeridian
    return {"unit": unit, "x": half - 8 * unit * (w - 1) if around else x, "y": y, "w": w, "h": h, "around": around,
            "cells": [[i, j, draw(island)] for i, j in order]}


def place(sc, px, py):
    """The point at lattice position px, py of the whole grid, in steps of 1/64 degree"""
    x = sc["x"] + px * sc["unit"]
    if sc["around"] and px >= 8 * (sc["w"] - 1):
        x -= 2 * 11520
    return x, sc["y"] + py * sc["unit"]


def outlines(sc):
    """As they are written into the shapefile: [(x, y)] in steps, in either direction, from any corner"""
    res = []
    for i, j, (kind, pts, reverse, start) in sc["cells"]:
        r = _outline(kind, pts)
        r = r[start % len(r):] + r[:start % len(r)]
        if reverse:
            r = r[::-1]
        res.append([place(sc, 8 * i + x, 8 * j + y) for x, y in r])
    return res


def degrees(r):
    return [(x / 64, y / 64) for x, y in r]


def micro(r):
    return [(x * STEP, y * STEP) for x, y in r]


def canonical(r):
    """Counter-clockwise, from its smallest corner"""
    if area2(r) < 0:
        r = r[::-1]
    k = r.index(min(r))
    return r[k:] + r[:k]


@st.composite
def query_point(draw, sc):
    """Inside or around the grid, in steps; mostly in the cells"""
    if sc["cells"] and draw(st.booleans()):
        i, j, _ = draw(st.sampled_from(sc["cells"]))
        px, py = 8 * i + draw(st.integers(0, 8)), 8 * j + draw(st.integers(0, 8))
    else:
        px, py = draw(st.integers(-3, 8 * sc["w"] + 3)), draw(st.integers(-3, 8 * sc["h"] + 3))
    x, y = place(sc, px, py)
    return [max(-11520, min(11520, x)), y]
