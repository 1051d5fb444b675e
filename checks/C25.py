# C25: from shapefile to route, the stages agree.
import math
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "pbt", "py"))
import hypothesis.strategies as st
import pbtpy
import pipeline
import scenes
from pbtpy import check

from capi.src.implementation.datastructures.graph_file_paths import GraphFilePaths
from capi.src.implementation.dtos.coordinate import Coordinate
from capi.src.implementation.graph_generator import GraphGenerator
from capi.src.implementation.graph_merger import GraphMerger
from capi.src.implementation.path_interpolator import PathInterpolator
from capi.src.implementation.visibility_graphs import VisGraphCoord, VisGraphShortestPathComputer, generate_visgraph, load_graph_from_file


@st.composite
def cases(draw):
    sc = draw(scenes.scene(max_islands=draw(st.sampled_from([4, 5, 8])), min_islands=draw(st.sampled_from([0, 2, 3, 4]))))
    n = len(sc["cells"])
    return {"scene": sc,
            # points on straight coast lines (by lattice point) and corners repeated, which the land does not consist of
            "on_coasts": draw(st.one_of(st.just([]), st.lists(st.integers(0, 10**6), min_size=1, max_size=24))),
            "folders": draw(st.booleans()),  # parts in folders of their own, all under the same name
            "jitter": draw(st.one_of(st.just(0), st.floats(-0.001, 0.001))),  # in degrees, all land is moved by it
            "extra": draw(st.lists(st.tuples(st.integers(0, n), st.sampled_from(["null", "short", "inner"])).map(list), max_size=3)),
            "splits": draw(st.one_of(st.integers(2, 6), st.integers(2, 6), st.integers(1, 40))),
            "seed": draw(st.one_of(st.integers(0, 100), st.integers(0, 2**31 - 1))),
            "order": draw(st.integers(0, 10**6)), "repeat": draw(st.booleans()), "nest": draw(st.booleans()),
            "existing": draw(st.sampled_from(["no", "no", "empty", "files", "file"])),
            "queries": draw(scenes.some(st.tuples(scenes.query_point(sc), scenes.query_point(sc), st.sampled_from([None, None, 0.0, 1.0, 7.5, 400.0]), st.booleans(), st.sampled_from([None, 0.0, 1.0, 1.5, 20.0])).map(list), 5))}


def as_drawn(rings, choices):
    """The rings with more points on their straight sides, and with corners repeated: the same land."""
    res = []
    for r in rings:
        ring = []
        for k, p in enumerate(r):
            ring.append(p)
            q = r[(k + 1) % len(r)]
            dx, dy = (q[0] - p[0]) * 64, (q[1] - p[1]) * 64
            for i, c in enumerate(choices):
                if c % (len(r) + 3) != k:
                    continue
                g = math.gcd(int(dx), int(dy))
                if c % 5 == 0:
                    ring.append(ring[-1])
                elif g > 1:
                    t = sorted({1 + (c // 7) % (g - 1), 1 + (c // 11) % (g - 1)})
                    ring += [(p[0] + dx // g * j / 64, p[1] + dy // g * j / 64) for j in t]
                    break
        res.append(ring)
    return res


def length(path):
    """None where a leg may be one over the antimeridian, or one that could lead there but does not"""
    legs = [(p.longitude - q.longitude, p.latitude - q.latitude) for p, q in zip(path, path[1:])]
    return None if any(abs(dx) > 179 for dx, _ in legs) else sum(math.hypot(*leg) for leg in legs)


def refused(what, path, call):
    before = pipeline.snapshot(path) if os.path.isdir(path) else open(path, "rb").read()
    try:
        call()
    except FileExistsError:
        pass
    else:
        check(False, "overwritten", "%s into an existing path did not fail", what)
    after = pipeline.snapshot(path) if os.path.isdir(path) else open(path, "rb").read()
    check(before == after, "overwritten", "%s into an existing path failed, but changed what was there", what)


def body(c, ctx):
    d = ctx.folder()
    sc = c["scene"]
    rings = [[(x + c["jitter"], y + c["jitter"]) for x, y in scenes.degrees(r)] for r in scenes.outlines(sc)]
    if any(abs(x) > 180 for r in rings for x, _ in r):
        rings = [scenes.degrees(r) for r in scenes.outlines(sc)]
    elif c["jitter"]:
        ctx.label("coordinates that are no whole microdegrees")
    written = rings
    if c["on_coasts"] and (c["jitter"] == 0 or rings == [scenes.degrees(r) for r in scenes.outlines(sc)]):
        written = as_drawn(rings, c["on_coasts"])
        if written != rings:
            ctx.label("points on straight coast lines")
    shp = pipeline.write_shapefile(os.path.join(d, "land"), written, c["extra"])
    whole = generate_visgraph(pipeline.polygons(rings))
    num = len(whole.vertices)

    # the stored graph is that of the land
    out = os.path.join(d, "graph")
    gen = GraphGenerator()
    gen.generate(shp, out)
    stored = load_graph_from_file(GraphFilePaths(out).default_graph_path)
    check(stored == whole, "stored", "the stored graph is not that of the land:\n%s\n%s", stored, whole)
    check(stored.polygons == pipeline.polygons(rings), "polygons", "the stored polygons are %s", stored.polygons)
    check(pipeline.edges(stored) == pipeline.edges(whole), "stored", "the stored graph has other edges")
    if c["jitter"] == 0:  # the graph of the land by definition
        exact = [scenes.micro(r) for r in scenes.outlines(sc)]
        got = pipeline.edges(stored)
        vs = [v for r in exact for v in r]
        check(set(got) == set(vs), "vertices", "the vertices of the graph are %s", sorted(got))
        land = scenes.periodic(exact)
        for i, a in enumerate(vs):
            for b in vs[:i]:
                direct, over = scenes.sight_around(land, a, b)
                if scenes.CLEAR in (direct, over):
                    check(b in got[a] and a in got[b], "missing", "%s and %s see each other, but are not joined in the stored graph", a, b)
                elif direct == over == scenes.BLOCKED:
                    check(b not in got[a] and a not in got[b], "wrong", "%s and %s do not see each other, but are joined in the stored graph", a, b)

    # existing output is refused and kept
    if c["existing"] != "no":
        there = os.path.join(d, "there")
        if c["existing"] == "file":
            with open(there, "w") as f:
                f.write("content")
        else:
            os.mkdir(there)
            if c["existing"] == "files":
                for n in ("default", "other"):
                    with open(os.path.join(there, n), "w") as f:
                        f.write("content of " + n)
        refused("generating", there, lambda: gen.generate(shp, there))
        refused("generating a part", there, lambda: gen.generate_for_vertex_range(shp, there, 0, 2, c["seed"]))
        refused("merging", there, lambda: GraphMerger().merge([out], there))
        refused("generating", out, lambda: gen.generate(shp, out))
        ctx.label("existing output: " + c["existing"])

    # the parts of a split merge to the whole, in any order
    parts = []
    for k in range(c["splits"]):
        part = os.path.join(d, "part%d" % k)
        if c["folders"]:
            os.mkdir(part)
            part = os.path.join(part, "graph")
        gen.generate_for_vertex_range(shp, part, k, c["splits"], c["seed"])
        parts.append(part)
        g = load_graph_from_file(GraphFilePaths(part).default_graph_path)
        mine, all_edges = pipeline.edges(g), pipeline.edges(whole)
        check(set(mine) == set(all_edges) and all(mine[v] <= all_edges[v] for v in mine), "part", "part %d of %d has edges which the whole has not", k, c["splits"])
        check(g.polygons == whole.polygons, "part", "part %d of %d has other polygons", k, c["splits"])
    x = c["order"]
    order = list(parts)
    for i in range(len(order) - 1, 0, -1):
        x = (x * 1103515245 + 12345) % 2**31
        j = x % (i + 1)
        order[i], order[j] = order[j], order[i]
    if c["repeat"]:
        order.append(order[0])
    if c["nest"] and len(order) > 2:
        first = os.path.join(d, "first")
        GraphMerger().merge(order[:2], first)
        order = [first] + order[2:]
    keep = [pipeline.snapshot(p) for p in order]
    merged = os.path.join(d, "merged")
    GraphMerger().merge(order, merged)
    check([pipeline.snapshot(p) for p in order] == keep, "inputs", "merging changed its input files")
    back = load_graph_from_file(GraphFilePaths(merged).default_graph_path)
    check(back == whole, "merged", "the merged %d parts (seed %d) are not the whole graph:\n%s\n%s", c["splits"], c["seed"], back, whole)
    if c["splits"] > num:
        ctx.label("more parts than corners")

    # routes from the stored graph are those in memory
    # (of equally long ones, which one it is may depend on the order of the polygons, which a merge does not keep)
    interpolator, computer = PathInterpolator(merged if c["repeat"] else out), VisGraphShortestPathComputer(back if c["repeat"] else whole)
    before_merge = VisGraphShortestPathComputer(whole) if c["repeat"] else None
    over_corners = 0
    for (ax, ay), (bx, by), limit, correct, weight in c["queries"]:
        a, b = (ax / 64, ay / 64), (bx / 64, by / 64)
        options, named = {}, {"correct_vertices_on_land": correct}
        if limit is not None:
            options["search_distance_from_source_limit"] = limit
            named["maximum_distance_to_search_from_source"] = limit
        if correct:
            options["correct_vertices_on_land"] = True
        if weight is not None:
            options["a_star_greediness_weighting"] = named["a_star_greediness_weighting"] = weight
        try:
            want = computer.shortest_path(VisGraphCoord(*a), VisGraphCoord(*b), **named)
        except RuntimeError as e:
            want = str(e)
        if before_merge and (weight is None or weight <= 1):
            try:
                first = before_merge.shortest_path(VisGraphCoord(*a), VisGraphCoord(*b), **named)
            except RuntimeError as e:
                first = str(e)
            check(isinstance(first, str) == isinstance(want, str) and (isinstance(first, str) or None in (length(first), length(want)) or abs(length(first) - length(want)) < 1e-9), "merged-route", "from %s to %s with %s: %s on the merged graph, but %s on the whole one", a, b, named, want, first)
        try:
            got = interpolator.interpolate(Coordinate(longitude=a[0], latitude=a[1]), Coordinate(longitude=b[0], latitude=b[1]), **options)
        except RuntimeError as e:
            got = str(e)
        if isinstance(want, str) or isinstance(got, str):
            check(got == want, "route", "from %s to %s with %s: %s, but in memory %s", a, b, options, got, want)
            ctx.label("query that fails")
            continue
        check(all(isinstance(p, Coordinate) for p in got), "route", "a route is not of coordinates")
        check([(p.longitude, p.latitude) for p in got] == [(p.longitude, p.latitude) for p in want], "route", "from %s to %s with %s: %s, but in memory %s", a, b, options, got, want)
        if not correct:
            check((got[0].longitude, got[0].latitude, got[-1].longitude, got[-1].latitude) == a + b, "ends", "the route from %s to %s goes from %s to %s", a, b, got[0], got[-1])
        over_corners += len(got) > 2
        ctx.label("route over corners" if len(got) > 2 else "direct route")
    if sc["around"]:
        ctx.label("land on both sides of the antimeridian")
    ctx.nontrivial(len(rings) >= 2 and c["splits"] >= 2 and num > c["splits"] and over_corners)


PROP = pbtpy.Prop(
    "C25",
    "Up to 8 islands on a lattice of 1/64 degree or a multiple, anywhere up to 78 degrees north or south and on both sides of the antimeridian, also moved by a fraction of a microdegree, written as a shapefile with null records, too short and inner rings; "
    "the graph is generated whole and in 1 to 60 parts, merged in any order and grouping, with outputs that exist already, and asked for up to four routes with options. "
    "Non-trivial: two or more islands, two or more parts with corners each, and a route over corners.",
    cases(), body, quick=2400, thorough=60000, assumptions=["the graph in memory is decided by C01 to C03, routes by C04 to C08"])
if __name__ == "__main__":
    sys.exit(pbtpy.main(PROP))
