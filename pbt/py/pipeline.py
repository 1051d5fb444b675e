"""Shared by the checks of the pipeline: scenes as shapefiles and as polygons of the extension module."""
import os

import shapefile

from capi.src.implementation.visibility_graphs import VisGraphCoord, VisGraphPolygon


def write_shapefile(base, rings, extra=()):
    """One record per ring; `extra` are (index, kind) of null records, too short rings and inner rings that come in between."""
    with shapefile.Writer(base, shapeType=shapefile.POLYGON) as w:
        w.field("name", "C")
        extra = sorted(map(tuple, extra))
        for k in range(len(rings) + 1):
            for i, kind in extra:
                if i == k and kind == "null":
                    w.null()
                    w.record("null")
                elif i == k and kind == "short":
                    w.poly([[(1.0, 1.0), (2.0, 2.0), (1.0, 1.0)]])
                    w.record("short")
            if k < len(rings):
                parts = [list(rings[k]) + [rings[k][0]]]
                if (k, "inner") in extra:
                    xs, ys = [p[0] for p in rings[k]], [p[1] for p in rings[k]]
                    parts.append([(min(xs), min(ys)), (max(xs), min(ys)), (max(xs), max(ys)), (min(xs), min(ys))])
                w.poly(parts)
                w.record("r%d" % k)
    return base + ".shp"


def polygons(rings):
    return [VisGraphPolygon([VisGraphCoord(float(x), float(y)) for x, y in r]) for r in rings]


def micro(coord):
    return round(coord.longitude * 1e6), round(coord.latitude * 1e6)


def edges(graph):
    """{(x, y): set of (x, y)}"""
    return {micro(v): {micro(n) for n in graph.get_neighbors(v)} for v in graph.vertices}


def snapshot(folder):
    res = {}
    for d, _, files in os.walk(folder):
        res[os.path.relpath(d, folder)] = None
        for f in files:
            with open(os.path.join(d, f), "rb") as fh:
                res[os.path.relpath(os.path.join(d, f), folder)] = fh.read()
    return res
