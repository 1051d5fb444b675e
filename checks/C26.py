# C26: interpolated batches mark failures and keep the rest.
import math
import os
import sys
import warnings

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "pbt", "py"))
import hypothesis.strategies as st
import pbtpy
import pipeline
import scenes
from pbtpy import check

from capi.src.implementation.dtos.coordinate import Coordinate
from capi.src.implementation.path_interpolator import PathInterpolator
from capi.src.implementation.visibility_graphs import generate_visgraph, save_graph_to_file


@st.composite
def cases(draw):
    sc = draw(scenes.scene(max_islands=draw(st.sampled_from([4, 8])), min_islands=draw(st.sampled_from([0, 2, 3]))))
    span = 8 * sc["unit"] * max(sc["w"], sc["h"]) / 64  # degrees
    asked = st.fixed_dictionaries({
        "limit": st.one_of(st.none(), st.none(), st.just("inf"), st.just(0.0), st.floats(0, 2 * span)),
        "correct": st.sampled_from([None, False, True]),
        "weight": st.one_of(st.none(), st.sampled_from([0.0, 1.0, 1.5, 30.0])),
        "named": st.booleans()})
    distinct = draw(scenes.some(st.tuples(scenes.query_point(sc), scenes.query_point(sc)).map(list), 8))
    return {"scene": sc,
            "pairs": draw(st.one_of(st.just(distinct), st.lists(st.sampled_from(distinct), max_size=12) if distinct else st.just([]))),
            "length": draw(st.one_of(*[st.none()] * 24, scenes.around_round_number(520))),
            **draw(asked),
            # the same interpolator is asked again, with other options and the same or a changed list
            "again": draw(st.one_of(st.just([]), st.lists(st.fixed_dictionaries({"change": st.sampled_from(["none", "none", "reverse", "turn", "shorten", "repeat"]), "options": asked}), min_size=1, max_size=2)))}


def coord(p):
    return Coordinate(longitude=p[0] / 64, latitude=p[1] / 64)


def body(c, ctx):
    d = os.path.join(ctx.folder(), "graph")
    os.mkdir(d)
    rings = [scenes.degrees(r) for r in scenes.outlines(c["scene"])]
    save_graph_to_file(generate_visgraph(pipeline.polygons(rings)), os.path.join(d, "default"))
    interpolator = PathInterpolator(d)
    drawn = c["pairs"]
    if c["length"] and drawn:
        drawn = (drawn * (c["length"] // len(drawn) + 1))[:c["length"]]
    pairs = [(coord(a), coord(b)) for a, b in drawn]
    ask(c, c, interpolator, drawn, pairs, len(c["pairs"]), ctx)
    for more in c["again"] if len(pairs) <= 50 else []:
        changes = {"none": lambda v: v, "reverse": lambda v: v[::-1], "turn": lambda v: [(b, a) for a, b in v], "shorten": lambda v: v[:-1], "repeat": lambda v: v + v[:1]}
        pairs[:] = changes[more["change"]](pairs)
        drawn = changes[more["change"]](drawn)
        ask(c, more["options"], interpolator, drawn, pairs, len(pairs), ctx)
        ctx.label("asked again")


def ask(scene, c, interpolator, drawn, pairs, distinct, ctx):
    options = {}
    limit = math.inf if c["limit"] == "inf" else c["limit"]
    if limit is not None:
        options["search_distance_from_source_limit"] = limit
    if c["correct"] is not None:
        options["correct_vertices_on_land"] = c["correct"]
    if c["weight"] is not None:
        options["a_star_greediness_weighting"] = c["weight"]
    full = (math.inf if limit is None else limit, bool(c["correct"]), 1.0 if c["weight"] is None else c["weight"])

    single, errors, errors_of = [], [], []
    for k, (a, b) in enumerate(pairs):
        if k >= 2 * distinct:  # the next ones are asked for in the batch only
            single.append(single[k % distinct])
            errors += [e for e in errors_of[k % distinct]]
            continue
        before = len(errors)
        with warnings.catch_warnings(record=True) as seen:
            warnings.simplefilter("always")
            try:
                single.append(interpolator.interpolate(a, b, *full) if c["named"] else interpolator.interpolate(a, b, **options))
            except RuntimeError as e:
                single.append(None)
                errors.append(str(e))
        errors_of.append(errors[before:])
        check(not seen, "single-warning", "a single pair warns instead of raising: %s", seen)
    with warnings.catch_warnings(record=True) as seen:
        warnings.simplefilter("always")
        batch = interpolator.batch_interpolate(pairs, **options) if c["named"] else interpolator.batch_interpolate(pairs, *full)
    batch, single = [[e if e is None else list(e) for e in es] for es in (batch, single)]
    check(len(batch) == len(pairs), "count", "%d pairs give %d entries", len(pairs), len(batch))
    for k, (got, want) in enumerate(zip(batch, single)):
        check((got is None) == (want is None), "failure", "pair %d of the batch, %s, gives %s, but alone %s (options %s)", k, pairs[k], got, want, full)
        if got is not None:
            check(list(got) == list(want), "path", "pair %d of the batch, %s, gives %s, but alone %s (options %s)", k, pairs[k], got, want, full)
            check(all(isinstance(p, Coordinate) for p in got), "path", "a path is not of coordinates: %s", got)
    texts = [str(w.message) for w in seen]
    check(len(texts) == len(errors), "warnings", "%d failures, but the warnings are %s", len(errors), texts)
    for text, error in zip(texts, errors):
        check(error and error in text, "warnings", "the warning for '%s' is '%s'", error, text)

    # what the options mean, checked on the points themselves
    exact = [scenes.micro(r) for r in scenes.outlines(scene["scene"])]
    land = scenes.periodic(exact)
    for (a, b), (p, q), got in zip(pairs, drawn, batch):
        p, q = (p[0] * scenes.STEP, p[1] * scenes.STEP), (q[0] * scenes.STEP, q[1] * scenes.STEP)
        deep = any(scenes.inside(r, p) == 1 or scenes.inside(r, q) == 1 for r in land)
        if got is None:
            continue
        if not c["correct"]:
            check(got[0] == a and got[-1] == b, "ends", "the path from %s to %s is %s", a, b, got)
        if len(got) > 2 and full[0] < math.inf:
            # measured on the plane, the shorter way around; moved ends are not asked for
            for r in got[1:-1] + ([] if c["correct"] else [got[-1]]):
                dx = abs(r.longitude - got[0].longitude)
                dist = math.hypot(min(dx, 360.000001 - dx), r.latitude - got[0].latitude)
                check(dist <= full[0] + 1e-5, "limit", "the path from %s to %s visits %s, which is %s degrees away, the limit is %s", a, b, r, dist, full[0])
        for r in got[1:-1]:
            check(any(abs(round(r.longitude * 1e6) - x) <= 1 and abs(round(r.latitude * 1e6) - y) <= 1 for ring in exact for x, y in ring), "corner", "the path from %s to %s visits %s, which is no corner", a, b, r)
        if deep:
            ctx.label("end on land")
    if len(pairs) > 100:
        ctx.label("batch of hundreds")
    if errors:
        ctx.label("failing pair")
    if any(e is None for e in batch) and any(e is not None for e in batch):
        ctx.label("failing and succeeding pairs")
    if len({str(p) for p in pairs}) < len(pairs):
        ctx.label("repeated pairs")
    long = any(e is not None and len(e) > 2 for e in batch)
    if long:
        ctx.label("path over corners")
    if c["correct"]:
        ctx.label("land correction")
    if full[0] < math.inf:
        ctx.label("limit")
    ctx.nontrivial(long and any(e is None for e in batch))


PROP = pbtpy.Prop(
    "C26",
    "A stored graph of up to 8 islands as for C25 and a batch of up to 12 pairs (rarely repeated to numbers around round ones, up to 520), on land, at corners or at sea, with or without limit, land correction and weighting, given by name or by position; "
    "compared with the same pairs one by one, warnings included; often the same interpolator is asked again with other options, and the list changed in place. Non-trivial: the batch has a path over corners and a pair that fails.",
    cases(), body, quick=9000, thorough=250000, assumptions=["single paths are decided by C04 to C08"])
if __name__ == "__main__":
    sys.exit(pbtpy.main(PROP))
