"""C28: vector alignment and plane projection do what they promise."""
import math
from hypothesis import strategies as st
from euclid3 import Vector3
from vlib.runner import Test, Property
from vlib.sut import U, G
from vlib import gens, ref

comp = st.one_of(st.integers(-3, 3).map(lambda n: n * 1000), st.integers(-99999, 99999), st.integers(-3, 3))
vec = st.lists(comp, min_size=3, max_size=3).filter(any)
scale = st.sampled_from([1.0, 1.0, 0.01, 1000.0, 2.5, 1e-7, 1e7])
few_scales = st.sampled_from([1.0, 1.0, 0.01, 1000.0, 2.5])


def V(v, s=1.0):
    return Vector3(*[x / 1000.0 * s for x in v])


def unit(v):
    l = math.sqrt(v.x ** 2 + v.y ** 2 + v.z ** 2)
    return Vector3(v.x / l, v.y / l, v.z / l)


def dist(a, b):
    return math.sqrt(sum((x - y) ** 2 for (x, y) in zip(a.xyz, b.xyz)))


def cross(a, b):
    return Vector3(a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x)


def dot(a, b):
    return a.x * b.x + a.y * b.y + a.z * b.z


def length(a):
    return math.sqrt(dot(a, a))


def same(ctx, got, want, what, eps=1e-6):
    ctx.check(dist(got, want) <= eps * max(1.0, length(want)), "%s: %r, expected %r", what, got, want)


def run_align(c, ctx):
    (a, b, sa, sb, rel, w, normalize) = c
    va = V(a, sa)
    vb = {0: V(b, sb), 1: V(a, sb), 2: V(a, -sb), 3: V(a, sb) + V(b, 1e-9), 4: V(a, -sb) + V(b, 1e-9)}[rel]
    if not any(vb.xyz):
        ctx.trivial = True
        return
    ctx.label(['any', 'parallel', 'opposite', 'nearly parallel', 'nearly opposite'][rel])
    (ca, cb) = (va.copy(), vb.copy())
    what = "aligning %r with %r" % (va, vb)
    if normalize:
        q = U.quat2align(va, vb)
    else:
        q = U.quat2align(unit(va), unit(vb), normalize=False)
    same(ctx, unit(q * va), unit(vb), what)
    ctx.check(abs(length(q * V(w)) - length(V(w))) <= 1e-6 * (1 + length(V(w))), "%s: length of %r changes", what, w)
    same(ctx, va, ca, "argument", 0)
    same(ctx, vb, cb, "argument", 0)


def run_opposite(c, ctx):
    (a, b, s) = c
    va = V(a)
    p = cross(unit(va), V(b))
    if length(p) < 1e-6:
        ctx.trivial = True
        return
    q = U.quat2align(va, V(a, -s), opposite_axis=p)
    same(ctx, unit(q * va), unit(V(a, -1)), "aligning %r with its opposite about %r" % (va, p))
    same(ctx, unit(q * p), unit(p), "the axis %r, aligning %r with its opposite about it" % (p, va))


def pair(a, b, s, t):
    va = unit(V(a))
    vb = cross(va, V(b))
    if length(vb) < 1e-3:
        return None
    return (va * s, unit(vb) * t)


def run_coords(c, ctx):
    (a, b, d, e, s, rel, w) = c
    o = pair(a, b, s[0], s[1])
    t = pair(d, e, s[2], s[3])
    if rel and o:
        t = {1: o, 2: (o[0] * -1, o[1]), 3: (o[0], o[1] * -1), 4: (o[0] * -1, o[1] * -1), 5: (o[1], o[0]), 6: (o[1], o[0] * -1)}[rel]
    if not o or not t:
        ctx.trivial = True
        return
    ctx.label(['any', 'same', 'first opposite', 'second opposite', 'both opposite', 'swapped', 'turned'][rel])
    q = U.quat2coord_system(o[0], o[1], t[0], t[1])
    what = "from %r to %r" % (o, t)
    same(ctx, unit(q * o[0]), unit(t[0]), what + ": first axis")
    same(ctx, unit(q * o[1]), unit(t[1]), what + ": second axis")
    same(ctx, unit(q * cross(unit(o[0]), unit(o[1]))), cross(unit(t[0]), unit(t[1])), what + ": third axis")
    ctx.check(abs(length(q * V(w)) - length(V(w))) <= 1e-6 * (1 + length(V(w))), "%s: length of %r changes", what, w)


def run_project(c, ctx):
    (v, n, s, k) = c
    (vv, vn) = (V(v, s), V(n))
    (cv, cn) = (vv.copy(), vn.copy())
    p = U.plane_projection(vv, vn)
    big = 1 + length(vv)
    what = "projection of %r on the plane of %r" % (vv, vn)
    ctx.check(abs(dot(p, unit(vn))) <= 1e-9 * big, "%s: %r is not perpendicular to the normal", what, p)
    # what is taken away is along the normal
    ctx.check(length(cross(vv - p, unit(vn))) <= 1e-9 * big, "%s: %r moves across the normal", what, p)
    same(ctx, U.plane_projection(p, vn), p, what + ", again", 1e-9 * big)
    for f in (k, -k, 1000.0, 0.001):
        same(ctx, U.plane_projection(vv, vn * f), p, what + ", normal times %r" % f, 1e-9 * big)
    inplane = cross(vn, vv)
    same(ctx, U.plane_projection(inplane, vn), inplane, "projection of %r, which is in the plane of %r" % (inplane, vn), 1e-9 * (1 + length(inplane)))
    same(ctx, U.plane_projection(vn, vn), Vector3(0, 0, 0), "projection of the normal", 1e-9 * (1 + length(vn)))
    same(ctx, vv, cv, "argument", 0)
    same(ctx, vn, cn, "argument", 0)


PLANES = {'G17': G.GCodeSelectXYPlane, 'G18': G.GCodeSelectZXPlane, 'G19': G.GCodeSelectYZPlane}


def run_planes(c, ctx):
    (name, v) = c
    cls = PLANES[name]
    axes = ref.PLANES[name]
    ctx.label(name)
    loc = V(v)
    want = dict(zip(axes, loc.xyz))
    for plane in (cls, cls()):
        got = plane.quat * loc
        same(ctx, got, Vector3(want['X'], want['Y'], want['Z']), "%s: local %r" % (name, loc))
        same(ctx, plane.quat.conjugated() * got, loc, "%s: there and back" % name)
        n = dict(zip(axes, (0., 0., 1.)))
        same(ctx, plane.normal, Vector3(n['X'], n['Y'], n['Z']), "%s: normal" % name, 1e-12)
        same(ctx, plane.quat * Vector3(0., 0., 1.), plane.normal, "%s: image of Z" % name)
        ctx.eq(plane.normal_axis, axes[2], "normal axis of " + name)
        ctx.eq(set(plane.plane_axes), set(axes[:2]), "axes of " + name)
        p = U.plane_projection(got, plane.normal)
        back = plane.quat.conjugated() * p
        same(ctx, back, Vector3(loc.x, loc.y, 0.), "%s: projection of local %r" % (name, loc))


PROPERTY = Property(
    'C28', "Random vectors (small integers, parallel, opposite and nearly so, of many lengths), perpendicular pairs, normals; results judged by "
    "plain vector algebra. Non-trivial: no degenerate pair.",
    [Test('align', st.tuples(vec, vec, scale, scale, st.integers(0, 4), vec, st.booleans()).map(list), run_align, quick=6000),
     Test('opposite', st.tuples(vec, vec, scale).map(list), run_opposite, quick=1500),
     Test('coords', st.tuples(vec, vec, vec, vec, st.lists(scale, min_size=4, max_size=4), st.integers(0, 6), vec).map(list), run_coords, quick=5000),
     Test('project', st.tuples(vec, vec, few_scales, st.integers(1, 9999).map(lambda n: n / 100.0)).map(list), run_project, quick=4000),
     Test('planes', st.tuples(st.sampled_from(['G17', 'G18', 'G19']), vec).map(list), run_planes, quick=1500)],
    ["coordinate systems are given by perpendicular axes"],
)
