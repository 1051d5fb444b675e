# C24: shapefile polygons are read as they were written.
import os
import pathlib
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "pbt", "py"))
import hypothesis.strategies as st
import pbtpy
import scenes
import shapefile
from pbtpy import check

from capi.src.implementation.datastructures.polygon import Polygon
from capi.src.implementation.dtos.coordinate import Coordinate, construct_coord_in_lat_lon_range
from capi.src.implementation.shapefiles.shapefile_reader import ShapefileReader



def some(elements, most, least=0):
    return st.integers(least, most).flatmap(lambda n: st.lists(elements, min_size=n, max_size=n))


number = st.one_of(st.integers(-180, 180).map(float), st.floats(-180, 180), st.floats(-1e7, 1e7), st.sampled_from([0.0, -0.0, 180.0, -180.0, 90.0, 1e-300, 5e-324]))
point = st.tuples(number, st.one_of(st.floats(-90, 90), number)).map(list)
few = st.lists(point, min_size=1, max_size=3).flatmap(lambda ps: st.lists(st.sampled_from(ps), min_size=1, max_size=8))  # many repeated points
ring = st.one_of(st.lists(point, min_size=1, max_size=4), st.lists(point, min_size=3, max_size=12), few)
record = st.one_of(st.just([]), st.lists(ring, min_size=1, max_size=1), some(ring, 4, 1))
KINDS = {"polygon": shapefile.POLYGON, "polygonz": shapefile.POLYGONZ, "polygonm": shapefile.POLYGONM, "polyline": shapefile.POLYLINE, "multipoint": shapefile.MULTIPOINT, "point": shapefile.POINT}
case = st.fixed_dictionaries({
    "kind": st.sampled_from(["polygon"] * 7 + sorted(KINDS)),
    "records": some(record, 12),
    "large": st.sampled_from([None] * 60 + ["many records", "many records", "long rings"]),
    "count": scenes.around_round_number(1030),
    "path": st.sampled_from(["suffix", "none", "pathlib"]),
    "wrap": st.lists(st.tuples(st.floats(-900, 900), st.floats(-1900, 1900)).map(list), max_size=3),
    "mutate": st.booleans(),
})


def write(path, kind, records):
    with shapefile.Writer(path, shapeType=KINDS[kind]) as w:
        w.field("name", "C")
        for k, rings in enumerate(records):
            if not rings:
                w.null()
            elif kind == "point":
                w.point(*rings[0][0])
            elif kind == "multipoint":
                w.multipoint(rings[0])
            elif kind == "polyline":
                w.line([r + [r[0]] for r in rings])
            else:
                {"polygon": w.poly, "polygonz": w.polyz, "polygonm": w.polym}[kind]([r + [r[0]] for r in rings])
            w.record("r%d" % k)


def pairs(polygon):
    return [(v.longitude, v.latitude) for v in polygon.vertices]


def body(c, ctx):
    base = os.path.join(ctx.folder(), "land")
    records = c["records"]
    if c["large"] == "many records":
        records = (records * (c["count"] // (len(records) or 1) + 1))[:c["count"]]
        ctx.label("many records")
    elif c["large"] == "long rings":
        records = [[r + [[x + k / 128, y] for k in range(1, 1500 // len(r)) for x, y in r] for r in rings] for rings in records[:4]]
        ctx.label("rings of thousands of points")
    write(base, c["kind"], records)
    path = {"suffix": base + ".shp", "none": base, "pathlib": pathlib.Path(base + ".shp")}[c["path"]]
    want = [[tuple(p) for p in rings[0]] for rings in records if c["kind"] == "polygon" and rings and len(rings[0]) >= 3]
    got = ShapefileReader().read(path)
    check([pairs(p) for p in got] == want, "polygons", "read %s, but written was %s", [pairs(p) for p in got], want)
    for p in got:
        check(all(type(v.latitude) is float and type(v.longitude) is float for v in p.vertices), "types", "a coordinate is no float")
    check(ShapefileReader().read(path) == got, "again", "a second reading gives something else")
    # polygons keep what they are given, refuse fewer than three points, and compare by their points
    for rings in records:
        for r in rings:
            vs = [Coordinate(latitude=y, longitude=x) for x, y in r]
            if len(vs) < 3:
                try:
                    Polygon(vs)
                except ValueError:
                    continue
                check(False, "short", "a polygon of %d points was made", len(vs))
            p = Polygon(vs)
            check(list(p.vertices) == vs, "vertices", "the polygon of %s has %s", vs, p.vertices)
            check(p == Polygon(tuple(vs)) and p == p and p != vs and not p == "polygon", "equality", "the polygon of %s is not equal to its like, or is equal to something else", vs)
            for other in (vs[1:] + vs[:1], vs[::-1], vs + vs[:1], [Coordinate(latitude=v.latitude, longitude=v.longitude + 1) for v in vs], [Coordinate(latitude=v.longitude, longitude=v.latitude) for v in vs]):
                check((p == Polygon(other)) == (vs == other), "equality", "polygons of %s and %s compare wrongly", vs, other)
            if c["mutate"]:
                keep = list(vs)
                vs.append(vs[0])
                check(list(p.vertices) == keep, "alias", "a polygon changed with the list it was made from")
    for lat, lon in c["wrap"]:
        w = construct_coord_in_lat_lon_range(lat, lon)
        check(-90 <= w.latitude <= 90 and -180 <= w.longitude <= 180, "range", "%r,%r is brought to %r", lat, lon, w)
        a, b = (lat - w.latitude) / 180, (lon - w.longitude) / 360
        check(abs(a - round(a)) < 1e-9 and abs(b - round(b)) < 1e-9, "range", "%r,%r is brought to %r, which is another place", lat, lon, w)
        if -90 <= lat < 90 and -180 <= lon < 180:
            check(abs(w.latitude - lat) < 1e-9 and abs(w.longitude - lon) < 1e-9, "range", "%r,%r is in range, but is brought to %r", lat, lon, w)
    ctx.label("kind: " + c["kind"])
    if c["kind"] == "polygon":
        if any(not r for r in records):
            ctx.label("null record")
        if any(len(r) > 1 for r in records):
            ctx.label("record of several rings")
        if any(r and len(r[0]) < 3 for r in records):
            ctx.label("ring with too few corners")
        if any(r and r[0][0] in r[0][1:] for r in records):
            ctx.label("ring that returns to its start early")
    ctx.nontrivial(len(want) >= 2 and any(len(r) > 1 for r in records))


PROP = pbtpy.Prop(
    "C24",
    "A shapefile of up to 12 records (null, one ring, up to four rings of 1 to 12 points, repeated points; also of other kinds), written with pyshp and read back by path with or without suffix; "
    "then polygons of the same points, and coordinates brought into range. Non-trivial: two or more polygons to be read, and a record of several rings.",
    case, body, quick=6000, thorough=300000, assumptions=["pyshp writes what it is told"])
if __name__ == "__main__":
    sys.exit(pbtpy.main(PROP))
