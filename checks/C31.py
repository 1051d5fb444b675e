# C31: the extension module does in Python what its classes promise.
import gc
import heapq
import itertools
import math
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "pbt", "py"))
import hypothesis.strategies as st
import pbtpy
import pipeline
import scenes
from pbtpy import check

from capi.src.implementation.visibility_graphs import (
    VisGraph, VisGraphCoord, VisGraphPolygon, VisGraphShortestPathComputer, VistreeGenerator, generate_visgraph, generate_visgraph_with_shuffled_range,
    load_graph_from_file, merge_graphs, save_graph_to_file)

STEP = scenes.STEP
step_point = st.tuples(st.integers(-11520, 11520), st.integers(-5760, 5760)).map(list)


@st.composite
def cases(draw):
    sc = draw(scenes.scene(max_islands=draw(st.sampled_from([3, 5, 7])), min_islands=draw(st.sampled_from([0, 2, 3]))))
    n = sum(len(r) for r in scenes.outlines(sc))
    vertex = st.integers(0, n - 1) if n else st.nothing()
    return {"scene": sc,
            "vectors": draw(st.lists(st.tuples(step_point, step_point, st.one_of(st.sampled_from([2.0, 0.5, -1.0, 3.0, 1.0, 0.25]), st.floats(-20, 20).filter(lambda f: abs(f) > 0.05))).map(list), max_size=3)),
            "ops": draw(scenes.some(st.tuples(vertex, vertex, st.booleans()).map(list), 12)) if n else [],
            "cut": draw(st.integers(0, 100)), "seed": draw(st.integers(0, 2**32 - 1)),
            "observers": draw(scenes.some(scenes.query_point(sc), 3)), "half": draw(st.booleans()),
            "queries": draw(scenes.some(st.tuples(scenes.query_point(sc), scenes.query_point(sc)).map(list), 3)), "limit": draw(st.floats(0, 1.5)), "positional": draw(st.booleans())}


def vc(p):
    return VisGraphCoord(p[0] * STEP / 1e6, p[1] * STEP / 1e6)


def raises(call):
    try:
        call()
    except RuntimeError as e:
        return len(str(e)) > 0
    return False


def vectors(c, ctx):
    for a, b, f in c["vectors"]:
        u, v = vc(a), vc(b)
        (ax, ay), (bx, by) = (a[0] / 64, a[1] / 64), (b[0] / 64, b[1] / 64)
        check((u.longitude, u.latitude) == (ax, ay), "coord", "the coordinate at %s has longitude %r and latitude %r", a, u.longitude, u.latitude)
        check((u == v) == (a == b) and (u != v) == (a != b) and u == vc(a), "coord", "%s and %s compare wrongly", u, v)
        check((repr(u) == repr(v)) == (a == b), "coord", "%s and %s print wrongly", u, v)
        for got, want, what in ((u - v, (ax - bx, ay - by), "difference"), (u + v, (ax + bx, ay + by), "sum"), (-u, (-ax, -ay), "negation"), (u * f, (ax * f, ay * f), "product"), (u / f, (ax / f, ay / f), "quotient")):
            if max(map(abs, want)) < 2000:
                check(abs(got.longitude - want[0]) <= 1.01e-6 and abs(got.latitude - want[1]) <= 1.01e-6, "vector", "the %s of %s, %s and %s is %s", what, u, v, f, got)
        for got, want, what in ((u.dot_product(v), ax * bx + ay * by, "dot product"), (u.cross_product_magnitude(v), ax * by - ay * bx, "cross product"),
                                (u.magnitude_squared(), ax * ax + ay * ay, "squared length"), (u.magnitude(), math.hypot(ax, ay), "length")):
            check(abs(got - want) <= 1e-9 * (1 + abs(want)), "vector", "the %s of %s and %s is %r, not %r", what, u, v, got, want)


def graphs(c, ctx, exact, ps, d):
    vs = [v for r in exact for v in r]
    coords = [VisGraphCoord(x / 1e6, y / 1e6) for x, y in vs]
    g = VisGraph(ps)
    model = {v: set() for v in vs}
    flags = {}
    for i, j, over in c["ops"]:
        g.add_edge(coords[i], coords[j], over)
        if i != j:
            model[vs[i]].add(vs[j])
            model[vs[j]].add(vs[i])
            k = frozenset((i, j))
            flags[k] = flags.get(k, True) and over
    check(pipeline.edges(g) == model, "graph", "after adding %s the graph has the edges %s", c["ops"], pipeline.edges(g))
    for i, j in itertools.islice(itertools.product(range(len(vs)), repeat=2), 200):
        check(g.has_edge(coords[i], coords[j]) == (vs[j] in model[vs[i]]), "graph", "the edge from %s to %s is answered wrongly", vs[i], vs[j])
    check(sorted(map(pipeline.micro, g.vertices)) == sorted(vs) and g.polygons == ps, "graph", "the vertices or polygons are others")
    away = VisGraphCoord(0.0, 89.0)
    check(not g.has_vertex(away) and all(g.has_vertex(k) for k in coords), "graph", "has_vertex answers wrongly")
    before = repr(g)
    check(raises(lambda: g.get_neighbors(away)) and (not coords or raises(lambda: g.has_edge(away, coords[0])) and raises(lambda: g.add_edge(coords[0], away, False))), "unknown", "an unknown vertex raises no error")
    check(repr(g) == before, "unknown", "a failed operation changed the graph")
    for got in (g.vertices, g.polygons) + ((g.get_neighbors(coords[0]),) if coords else ()):
        got.clear()  # what is handed out is a copy
    check(repr(g) == before and pipeline.edges(g) == model, "alias", "clearing what the graph has handed out changed it")
    # equality, and the way through a file
    twin = VisGraph(ps)
    for i, j, over in reversed(c["ops"]):
        twin.add_edge(coords[j], coords[i], over)
    check(g == twin and not g != twin and repr(g) == repr(twin), "equality", "the same edges in another order make another graph")
    path = os.path.join(d, "graph")
    save_graph_to_file(g, path)
    back = load_graph_from_file(path)
    check(back == g and back.polygons == ps and pipeline.edges(back) == model, "file", "the graph comes back from its file as %s, saved was %s", back, g)
    if len(coords) > 1:
        k = next(((i, j) for i in range(len(vs)) for j in range(i) if frozenset((i, j)) not in flags), None)
        if k:
            twin.add_edge(coords[k[0]], coords[k[1]], True)
            check(twin != g and not twin == g, "equality", "graphs with different edges are equal")
            both = merge_graphs([g, twin])
            check(both == twin and merge_graphs([twin, g, g]) == twin and merge_graphs([g]) == g, "merge", "the merge of a graph with a larger one is not the larger one")
            m = pipeline.edges(both)
            check(m == pipeline.edges(twin), "merge", "the merged graph has the edges %s", m)
    check(raises(lambda: load_graph_from_file(os.path.join(d, "none"))) and raises(lambda: save_graph_to_file(g, os.path.join(d, "none", "graph"))), "no-file", "a path that does not exist raises no error")


def observers(c, ctx, exact, ps, land):
    gen = VistreeGenerator(pipeline.polygons([[(x / 1e6, y / 1e6) for x, y in r] for r in exact]))
    flat = [v for r in exact for v in r]
    for px, py in c["observers"]:
        o = (px * STEP, py * STEP)
        if any(scenes.inside(r, o) == 1 for r in exact):
            continue
        seen = {pipeline.micro(v.coord): v.is_visible_across_meridian for v in gen.get_visible_vertices(vc((px, py)), c["half"])}
        check(not any(seen.values()), "visible", "%s sees %s over the antimeridian, though only the land as it is was given", o, seen)
        for v in flat:
            if c["half"] and v[1] < o[1]:
                check(v not in seen, "visible", "a half scan from %s sees %s to its south", o, v)
                continue
            s = scenes.sight(exact, o, v)
            if v != o and s != scenes.UNSURE and not (c["half"] and v[1] == o[1]):
                check((v in seen) == (s == scenes.CLEAR), "visible", "%s is %s from %s, but%s seen", v, s, o, "" if v in seen else " not")
                ctx.label("corner in sight" if s == scenes.CLEAR else "corner out of sight")


def routes(c, ctx, exact, ps, land):
    vs = [v for r in exact for v in r]
    span = 8 * c["scene"]["unit"] * max(c["scene"]["w"], c["scene"]["h"]) / 64
    graph = generate_visgraph(ps)
    computer = VisGraphShortestPathComputer(graph)
    del graph
    gc.collect()  # the computer keeps what it needs

    def length(a, b):
        d, over = scenes.sight_around(land, a, b)
        plain = math.hypot(a[0] - b[0], a[1] - b[1])
        around = math.hypot(scenes.PERIOD - abs(a[0] - b[0]), a[1] - b[1])
        best = min([plain] * (d == scenes.CLEAR) + [around] * (over == scenes.CLEAR), default=None)
        possible = min([plain] * (d != scenes.BLOCKED) + [around] * (over != scenes.BLOCKED), default=None)
        return best, possible

    for p, q in c["queries"]:
        a, b = (p[0] * STEP, p[1] * STEP), (q[0] * STEP, q[1] * STEP)
        on_land = any(scenes.inside(r, x) >= 0 for r in land for x in (a, b))
        if on_land or a == b:
            continue
        try:
            route = [pipeline.micro(x) for x in computer.shortest_path(vc(p), vc(q))]
        except RuntimeError:
            route = None
        nodes = [a, b] + vs
        # the best route over clear legs, and whether any is possible
        dist, queue = {a: 0.0}, [(0.0, a)]
        legs = {}
        while queue:
            dd, u = heapq.heappop(queue)
            if dd > dist[u]:
                continue
            for v in nodes:
                if v == u or v == a or (u == a and v == b):  # (the straight way is taken exactly where the arc is free)
                    continue
                k = (u, v) if u < v else (v, u)
                if k not in legs:
                    legs[k] = length(*k)
                if legs[k][0] is not None and dd + legs[k][0] < dist.get(v, math.inf):
                    dist[v] = dd + legs[k][0]
                    heapq.heappush(queue, (dist[v], v))
        if route is None:
            check(b not in dist, "no-route", "no route from %s to %s is found, though there is one of %s microdegrees", a, b, dist.get(b))
            ctx.label("no route")
            continue
        check(route[0] == a and route[-1] == b, "ends", "the route from %s to %s is %s", a, b, route)
        if len(route) == 2:
            ctx.label("direct route")
            continue
        total = 0.0
        for u, v in zip(route, route[1:]):
            k = length(u, v)[1]
            check(k is not None, "leg", "the leg from %s to %s of %s crosses land", u, v, route)
            total += k
        for u in route[1:-1]:
            check(u in set(vs), "leg", "the route %s goes over %s, which is no corner", route, u)
        # the graph has the direct edge only where there are both (a known finding of C05), so nearness over the antimeridian is left to it
        if b in dist and not c["scene"]["around"]:
            check(total <= dist[b] + 10, "length", "the route %s is %s microdegrees long, the shortest %s", route, total, dist[b])
        ctx.label("route over corners")
        ctx.nontrivial()
        # a batch without options is a single query without options
        for r in computer.shortest_paths([(vc(p), vc(q))]) + computer.shortest_paths(source_dest_pairs=[(vc(p), vc(q))]):
            check(r.error_msg is None and [pipeline.micro(x) for x in r.path] == route, "options", "without options the route is %s, but in a batch %s", route, r.path)
        # a limit decides to the microdegree
        reach = lambda r: max(min(math.hypot(abs(x - a[0]), y - a[1]), math.hypot(scenes.PERIOD - abs(x - a[0]), y - a[1])) for x, y in r)
        far = reach(route)
        for call in (lambda limit: computer.shortest_path(vc(p), vc(q), limit), lambda limit: computer.shortest_path(source=vc(p), destination=vc(q), maximum_distance_to_search_from_source=limit),
                     lambda limit: computer.shortest_paths([(vc(p), vc(q))], limit)[0].path):
            got = call((far + 0.9) / 1e6)
            check(got is not None and reach([pipeline.micro(x) for x in got]) <= far + 1, "limit", "the route %s goes %.3f microdegrees far; limited to 0.9 more it is %s", route, far, got)
            try:
                got = call((far - 0.9) / 1e6)
            except RuntimeError:
                got = None
            check(got is None or reach([pipeline.micro(x) for x in got]) <= far - 0.8, "limit", "the route from %s to %s is limited to %.3f microdegrees, but is %s", p, q, far - 0.9, got)
        # options by name and by position mean the same, a batch the same as single queries, a limit what it says
        limit = c["limit"] * span
        for correct in (False, True):
            for w in (0.0, 1.0, 3.0):
                res = []
                for call in (lambda: computer.shortest_path(vc(p), vc(q), limit, correct, w),
                             lambda: computer.shortest_path(source=vc(p), destination=vc(q), a_star_greediness_weighting=w, correct_vertices_on_land=correct, maximum_distance_to_search_from_source=limit)):
                    try:
                        res.append([pipeline.micro(x) for x in call()])
                    except RuntimeError as e:
                        res.append(str(e))
                batch = computer.shortest_paths([(vc(p), vc(q)), (vc(p), vc(q))], limit, correct, w)
                res += [[pipeline.micro(x) for x in r.path] if r.error_msg is None else r.error_msg for r in batch]
                check(all(r == res[0] for r in res), "options", "the same options give %s", res)
                if isinstance(res[0], list):
                    far = max(min(math.hypot(abs(x - a[0]), y - a[1]), math.hypot(scenes.PERIOD - abs(x - a[0]), y - a[1])) for x, y in res[0])
                    check(far <= limit * 1e6 + 5, "limit", "the route %s goes %s microdegrees far, the limit is %s", res[0], far, limit)
                else:
                    ctx.label("limit too small")
        # ends on land: the first corner's inside
    for r in exact[:1]:
        mid = next(((x, y) for x in range(min(v[0] for v in r) + STEP // 5, max(v[0] for v in r), STEP) for y in range(min(v[1] for v in r) + STEP // 5, max(v[1] for v in r), STEP) if scenes.inside(r, (x, y)) == 1), None)
        if mid and c["queries"] and c["scene"]["unit"] <= 5 and abs(mid[1]) < 60_000_000:
            # an arc bulges from the straight line by less than a thousandth of a degree at these sizes: the point is well inside
            deep = min(abs(scenes.cross(r[i - 1], r[i], mid)) / math.hypot(r[i][0] - r[i - 1][0], r[i][1] - r[i - 1][1]) for i in range(len(r)))
            if deep > 2000:
                m = VisGraphCoord(mid[0] / 1e6, mid[1] / 1e6)
                p = c["queries"][0][0]
                if not any(scenes.inside(ring, (p[0] * STEP, p[1] * STEP)) >= 0 for ring in land):
                    check(computer.shortest_paths([(vc(p), m)])[0].path is None, "on-land", "%s is on land, but a batch gives a route to it", mid)
                    check(raises(lambda: computer.shortest_path(vc(p), m)) and raises(lambda: computer.shortest_path(m, vc(p))), "on-land", "%s is on land, but a route to it is given", mid)
                    try:
                        got = computer.shortest_path(vc(p), m, correct_vertices_on_land=True)
                    except RuntimeError:
                        got = None  # closed in by land
                    check(got is None or scenes.inside(r, pipeline.micro(got[-1])) < 1 or min(abs(scenes.cross(r[i - 1], r[i], pipeline.micro(got[-1]))) / math.hypot(r[i][0] - r[i - 1][0], r[i][1] - r[i - 1][1]) for i in range(len(r))) < 2000,
                          "on-land", "%s is on land, and is moved to %s", mid, got)
                    ctx.label("end on land")


def body(c, ctx):
    d = ctx.folder()
    vectors(c, ctx)
    written = [scenes.micro(r) for r in scenes.outlines(c["scene"])]
    ps = pipeline.polygons([[(x / 1e6, y / 1e6) for x, y in r] for r in written])
    for p, r in zip(ps, written):
        got = [pipeline.micro(v) for v in p.vertices]
        check(scenes.canonical(got) == scenes.canonical(r) and scenes.area2(got) > 0, "polygon", "the polygon of %s has the corners %s", r, got)
        check(p == VisGraphPolygon(p.vertices) and not p != VisGraphPolygon(list(p.vertices)), "polygon", "a polygon is not equal to that of its corners")
        for q, s in zip(ps, written):
            check((p == q) == (r == s) and (p != q) == (r != s) and (repr(p) == repr(q)) == (r == s), "polygon", "%s and %s compare wrongly", p, q)
    land = scenes.periodic(written)
    graphs(c, ctx, written, ps, d)
    observers(c, ctx, written, ps, land)
    routes(c, ctx, written, ps, land)
    # parts of the range
    whole = generate_visgraph(ps)
    n = len(whole.vertices)
    cut = c["cut"] * n // 100
    parts = [generate_visgraph_with_shuffled_range(ps, 0, cut, c["seed"]), generate_visgraph_with_shuffled_range(ps, cut, n, c["seed"])]
    check(merge_graphs(parts) == whole and merge_graphs(parts[::-1]) == whole, "parts", "the parts cut at %d of %d do not merge to the whole", cut, n)
    if ps:
        check(raises(lambda: generate_visgraph_with_shuffled_range(ps, 0, n + 1, c["seed"])) and (cut == 0 or raises(lambda: generate_visgraph_with_shuffled_range(ps, cut, cut - 1, c["seed"]))), "range", "a wrong range is accepted")


PROP = pbtpy.Prop(
    "C31",
    "Up to 7 islands as for C25, with vectors, a history of added edges, observers and route queries; everything is asked through the Python classes of the extension module and compared with Python integers: "
    "vectors, polygons, graphs through files and merges, visibility by brute force, routes by Dijkstra, options by name and position. Non-trivial: a route over corners.",
    cases(), body, quick=4200, thorough=150000)
if __name__ == "__main__":
    sys.exit(pbtpy.main(PROP))
