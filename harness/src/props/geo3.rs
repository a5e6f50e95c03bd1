//! Points, vectors and triangles; what can be done to outlines
use super::geo::*;
use crate::core::*;
use crate::ensure;
use geometry::{Loop3D, Point3D, PointInTriangle, Polygon3D, Ray3D, Segment3D, Triangle3D, Vector3D};

type V = [f64; 3];
fn pt(v: V) -> Point3D {
    Point3D::new(v[0], v[1], v[2])
}
fn vc(v: V) -> Vector3D {
    Vector3D::new(v[0], v[1], v[2])
}
fn a3(p: Point3D) -> V {
    [p.x, p.y, p.z]
}
fn av(p: Vector3D) -> V {
    [p.x, p.y, p.z]
}
fn z(a: V, b: V, f: impl Fn(f64, f64) -> f64) -> V {
    [f(a[0], b[0]), f(a[1], b[1]), f(a[2], b[2])]
}
fn near(what: &str, got: V, want: V, tol: f64) -> R {
    let ok = (0..3).all(|k| (got[k] - want[k]).abs() <= tol);
    ensure!(ok, "{} is {:?}, not {:?}", what, got, want);
    Ok(())
}
fn close(what: &str, got: f64, want: f64, tol: f64) -> R {
    ensure!((got - want).abs() <= tol, "{} is {}, not {}", what, got, want);
    Ok(())
}
fn rnd_v(r: &mut Rng) -> V {
    let s = *r.pick(&[1e-3, 1., 1., 10., 1e3]);
    let mut v = [r.normal() * s, r.normal() * s, r.normal() * s];
    for x in v.iter_mut() {
        if r.chance(0.12) {
            *x = 0.;
        } else if r.chance(0.05) {
            *x *= 1e-9;
        }
    }
    v
}
fn vectors(c: &mut Case) -> R {
    let mut own = c.rng.clone();
    let r = &mut own;
    let (a, b) = (rnd_v(r), rnd_v(r));
    let s = if r.chance(0.5) { r.range(-4., 4.) } else { r.logu(1e-3, 1e3) };
    c.desc(format!("{:?} {:?} {}", a, b, s));
    let m = a.iter().chain(b.iter()).fold(1e-9f64, |x, y| x.max(y.abs()));
    let t1 = 1e-13 * m * (1. + s.abs() + 1. / s.abs());
    let t2 = 1e-12 * m * m;
    let dot = a[0] * b[0] + a[1] * b[1] + a[2] * b[2];
    let (va, vb, pa, pb) = (vc(a), vc(b), pt(a), pt(b));
    let sum = z(a, b, |x, y| x + y);
    let dif = z(a, b, |x, y| x - y);
    let tim = a.map(|x| x * s);
    let div = a.map(|x| x / s);
    near("v + v", av(va + vb), sum, t1)?;
    near("p + v", a3(pa + vb), sum, t1)?;
    near("p + p", a3(pa + pb), sum, t1)?;
    near("v - v", av(va - vb), dif, t1)?;
    near("p - p", av(pa - pb), dif, t1)?;
    near("p - v", a3(pa - vb), dif, t1)?;
    near("-v", av(-va), a.map(|x| -x), 0.)?;
    near("v * s", av(va * s), tim, t1)?;
    near("p * s", a3(pa * s), tim, t1)?;
    near("v / s", av(va / s), div, t1)?;
    near("p / s", a3(pa / s), div, t1)?;
    let mut v = va;
    v += vb;
    near("v += v", av(v), sum, t1)?;
    v = va;
    v -= vb;
    near("v -= v", av(v), dif, t1)?;
    v = va;
    v *= s;
    near("v *= s", av(v), tim, t1)?;
    v = va;
    v /= s;
    near("v /= s", av(v), div, t1)?;
    let mut p = pa;
    p += vb;
    near("p += v", a3(p), sum, t1)?;
    p = pa;
    p += pb;
    near("p += p", a3(p), sum, t1)?;
    p = pa;
    p -= vb;
    near("p -= v", a3(p), dif, t1)?;
    p = pa;
    p *= s;
    near("p *= s", a3(p), tim, t1)?;
    p = pa;
    p /= s;
    near("p /= s", a3(p), div, t1)?;
    for (w, x) in [("v * v", va * vb), ("v * p", va * pb), ("p * v", pa * vb), ("p * p", pa * pb)] {
        close(w, x, dot, t2)?;
    }
    let cr = [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]];
    near("cross", av(va.cross(vb)), cr, t2)?;
    near("abs", av(va.abs()), a.map(f64::abs), 0.)?;
    let k = [r.normal(), r.normal(), r.normal()];
    let sc = z(a, k, |x, y| x * y);
    near("scaled vector", av(va.scale_components(k[0], k[1], k[2])), sc, t1 * 10.)?;
    near("scaled point", a3(pa.scale_components(k[0], k[1], k[2])), sc, t1 * 10.)?;
    near("vector of a point", av(Vector3D::from(pa)), a, 0.)?;
    near("point of a vector", a3(Point3D::from(va)), a, 0.)?;
    near("point of a vector", a3(va.as_point3d()), a, 0.)?;
    near("axes", [Vector3D::x().x, Vector3D::y().y, Vector3D::z().z], [1., 1., 1.], 0.)?;
    ensure!(Vector3D::x() * Vector3D::y() == 0. && Vector3D::x().cross(Vector3D::y()) == Vector3D::z(), "axes");
    let l = (a[0] * a[0] + a[1] * a[1] + a[2] * a[2]).sqrt();
    close("length", va.length(), l, t1)?;
    close("squared length", va.length_squared(), l * l, t2)?;
    let d = dif.iter().map(|x| x * x).sum::<f64>().sqrt();
    close("distance", pa.distance(pb), d, t1)?;
    close("squared distance", pa.squared_distance(pb), d * d, t2)?;
    ensure!(pa == pa && (pa == pb) == (a == b), "equality of points");
    let ray = Ray3D { origin: pa, direction: vb };
    let go = z(a, b, |x, y| x + s * y);
    let t3 = 1e-12 * m * (1. + s.abs());
    near("a ray projected", a3(ray.project(s)), go, t3)?;
    let mut r2 = ray;
    r2.advance(s);
    near("a ray that advanced", a3(r2.origin), go, t3)?;
    near("its direction", av(r2.direction), b, 0.)?;
    ensure!(va.is_zero() == (l == 0.) || l < 1e-12, "is_zero of {:?} is {}", a, va.is_zero());
    ensure!(pa.is_zero() == va.is_zero(), "is_zero of points and vectors");
    if l > 1e-9 {
        let n = va.get_normalized();
        near("normalized", av(n), a.map(|x| x / l), 1e-12)?;
        let mut v = va;
        v.normalize();
        near("normalized in place", av(v), av(n), 0.)?;
    }
    match va.get_perpendicular() {
        Ok(p) => {
            ensure!(l > 0., "there is a perpendicular to nothing");
            close("the length of the perpendicular", p.length(), 1., 1e-9)?;
            close("the perpendicular, times the vector", (p * va) / l, 0., 1e-9)?;
            c.event("perpendicular", 1);
        }
        Err(e) => ensure!(l < 1e-12, "there is no perpendicular to {:?}: {}", a, e),
    }
    // nearness
    let eps = r.logu(1e-4, 10.);
    let dir = rnd_dir(r);
    let (inside, outside) = (pa + dir * (eps * r.range(0., 0.99)), pa + dir * (eps * r.range(1.01, 3.)));
    ensure!(pa.compare_by(inside, eps) && !pa.compare_by(outside, eps), "nearness by {}", eps);
    ensure!(pa.compare(pa + dir * 9.5e-4) && !pa.compare(pa + dir * 1.05e-3), "points are the same within a millimetre");
    let off = [r.range(-0.9e-5, 0.9e-5), r.range(-0.9e-5, 0.9e-5), r.range(-0.9e-5, 0.9e-5)];
    ensure!(va.compare(va + vc(off)), "vectors are the same within 1e-5: {:?}", off);
    let mut far = off;
    far[r.below(3)] = if r.chance(0.5) { 1.1e-5 } else { -r.logu(1.1e-5, 10.) };
    ensure!(!va.compare(va + vc(far)), "vectors {:?} apart are the same", far);
    // directions
    let (u, w) = rnd_axes(r);
    let (la, lb) = (r.range(0.5, 30.), r.range(0.5, 30.));
    let ang = *r.pick(&[0., std::f64::consts::PI, 1., 2., 3.]) + if r.chance(0.5) { 0. } else { r.range(0.02, 0.1) };
    let dir2 = u * ang.cos() + w * ang.sin();
    let par = ang == 0. || ang == std::f64::consts::PI;
    ensure!((u * la).is_parallel(dir2 * lb) == par, "vectors at {} rad are parallel: {}", ang, !par);
    ensure!((u * la).is_same_direction(dir2 * lb) == (ang == 0.), "vectors at {} rad have the same direction: {}", ang, ang != 0.);
    c.event(if par { "parallel" } else { "not parallel" }, 1);
    // planes and lines
    let n = u.cross(w);
    let (h, x, y) = (r.normal() * 5., r.normal() * 5., r.normal() * 5.);
    let q = pa + n * h + u * x + w * y;
    let tol = 1e-10 * (1. + m);
    close("distance to a plane", q.distance_to_plane(pa, n), h, tol)?;
    near("projection on a plane", a3(q.project_into_plane(pa, n)), a3(pa + u * x + w * y), tol)?;
    if (x * x + y * y).sqrt() > 0.1 && m < 100. {
        let g = u * x + w * y;
        let k = r.range(-2., 3.);
        let q = pa + g * k + n * h;
        close("distance to a line", q.distance_to_line(pa, pa + g), h.abs(), 1e-7)?;
        close("squared distance to a line", q.squared_distance_to_line(pa, pa + g), h * h, 1e-7)?;
        // collinear
        let e = |x: Result<bool, String>| x.map_err(Fail::Bad);
        let b2 = pa + g;
        let c2 = pa + g * k;
        ensure!(e(pa.is_collinear(b2, c2))?, "three points in a line are not collinear");
        let hh = n * (if r.chance(0.5) { -1. } else { 1. } * r.range(0.02, 3.));
        let c3 = c2 + hh;
        ensure!(!e(pa.is_collinear(b2, c3))?, "three points out of a line are collinear");
        ensure!(!e(c3.is_collinear(b2, pa))? && !e(b2.is_collinear(c3, pa))?, "three points out of a line are collinear, in other order");
        ensure!(e(pa.is_collinear(pa, c3))? && e(pa.is_collinear(c3, pa))? && e(c3.is_collinear(pa, pa))?, "two points are always collinear");
        ensure!(pa.is_collinear(pa, pa).is_err(), "one point is no line");
        c.event("lines", 1);
    }
    c.seen(&format!("{:?} {:?} {:.0}", a.map(|x| x > 0.), b.map(|x| x > 0.), m.log10()));
    Ok(())
}
fn triangles(c: &mut Case) -> R {
    let mut own = c.rng.clone();
    let r = &mut own;
    let f = Frame::random(r);
    let s = *r.pick(&[0.3, 1., 10.]);
    let tri = |r: &mut Rng| loop {
        let p: Vec<P2> = (0..3).map(|_| (r.range(-2., 2.) * s, r.range(-2., 2.) * s)).collect();
        if area2(&p).abs() > 0.05 * s * s && min_edge(&p) > 0.1 * s {
            return p;
        }
    };
    let p = tri(r);
    let q: Vec<Point3D> = p.iter().map(|x| f.at(*x)).collect();
    c.desc(format!("{:?} {:?}", f, p));
    let mut t = Triangle3D::new(q[0], q[1], q[2])?;
    let tol = 1e-8 * s * s * (1. + Vector3D::from(f.o).length());
    let facts = |t: &Triangle3D, p: &[P2]| -> R {
        let a = area2(p);
        close("area", t.area(), a.abs(), tol)?;
        near("normal", av(t.normal()), av(f.n() * a.signum()), 1e-7)?;
        let l: Vec<f64> = (0..3).map(|i| dist(p[i], p[(i + 1) % 3])).collect();
        let cr = l[0] * l[1] * l[2] / (4. * a.abs());
        close("circumradius", t.circumradius(), cr, tol * 10. * (1. + cr * cr / s / s))?;
        close("aspect ratio", t.aspect_ratio(), cr / l.iter().fold(f64::MAX, |a, b| a.min(*b)), 1e-5 * (1. + cr * cr / s / s))?;
        let cc = t.circumcenter();
        for x in p {
            close("distance from a corner to the circumcentre", cc.distance(f.at(*x)), cr, tol * 10. * (1. + cr * cr / s / s))?;
        }
        close("the circumcentre, out of the plane", f.off(cc), 0., tol * 10. * (1. + cr))?;
        let m = ((p[0].0 + p[1].0 + p[2].0) / 3., (p[0].1 + p[1].1 + p[2].1) / 3.);
        near("centroid", a3(t.centroid()), a3(f.at(m)), tol)?;
        let corners = [t.a(), t.b(), t.c()];
        let sides = [t.ab(), t.bc(), t.ca()];
        for i in 0..3 {
            let (x, y) = (f.at(p[i]), f.at(p[(i + 1) % 3]));
            near("corner", a3(corners[i]), a3(x), 0.)?;
            near("vertex", a3(t.vertex(i)?), a3(x), 0.)?;
            for e in [sides[i], t.segment(i)?] {
                near("side", a3(e.start()), a3(x), 0.)?;
                near("side", a3(e.end()), a3(y), 0.)?;
                close("length of a side", e.length(), l[i], tol)?;
                near("side, as a vector", av(e.as_vector3d()), av(y - x), 0.)?;
                near("side, as a vector, reversed", av(e.as_reversed_vector3d()), av(x - y), 0.)?;
                ensure!(t.get_edge_index_from_segment(&e) == Some(i), "the index of side {} is {:?}", i, t.get_edge_index_from_segment(&e));
            }
            ensure!(t.get_edge_index_from_points(y, x) == Some(i), "the index of side {} reversed is {:?}", i, t.get_edge_index_from_points(y, x));
            ensure!(t.has_vertex(x), "corner {} is not a corner", i);
            let o = f.at(((p[i].0 + p[(i + 1) % 3].0) / 2., (p[i].1 + p[(i + 1) % 3].1) / 2.));
            ensure!(!t.has_vertex(o) && t.get_edge_index_from_points(x, o).is_none(), "the middle of a side is a corner");
        }
        ensure!(t.vertex(3).is_err() && t.segment(3).is_err() && t.vertex(usize::MAX).is_err(), "there is a fourth corner");
        let b = t.bounds();
        for k in 0..3 {
            let x: Vec<f64> = p.iter().map(|x| a3(f.at(*x))[k]).collect();
            let (lo, hi) = (x.iter().fold(f64::MAX, |a, b| a.min(*b)), x.iter().fold(f64::MIN, |a, b| a.max(*b)));
            for b in [b, t.world_bounds()] {
                ensure!(a3(b.min)[k] == lo && a3(b.max)[k] == hi, "bounds {:?}", b);
            }
        }
        Ok(())
    };
    facts(&t, &p)?;
    // any order is the same triangle
    let order = *r.pick(&[[0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]]);
    let o = Triangle3D::new(q[order[0]], q[order[1]], q[order[2]])?;
    ensure!(t.compare(&o) && o.compare(&t), "the same triangle in another order is different");
    let k = r.below(3);
    let mut q2 = q.clone();
    q2[k] = q2[k] + rnd_dir(r) * (0.05 * s);
    if let Ok(o) = Triangle3D::new(q2[0], q2[1], q2[2]) {
        ensure!(!t.compare(&o) && !o.compare(&t), "triangles that share two corners are the same");
    }
    // points in it
    for _ in 0..12 {
        use PointInTriangle::*;
        let (a, b) = (r.f(), r.f());
        let (mut u, mut v) = if a + b > 1. { (1. - a, 1. - b) } else { (a, b) };
        let at = |u: f64, v: f64| q[0] + (q[1] - q[0]) * u + (q[2] - q[0]) * v;
        let out = r.chance(0.4);
        if out {
            match r.below(3) {
                0 => u = -r.logu(1e-6, 2.),
                1 => v = -r.logu(1e-6, 2.),
                _ => u = 1. - v + r.logu(1e-6, 2.),
            }
        }
        if !out && u.min(v).min(1. - u - v) < 1e-6 {
            continue;
        }
        let got = t.test_point(at(u, v));
        let want = if out { Outside } else { Inside };
        ensure!(got == want, "the point at ({}, {}) is {:?}", u, v, got);
        ensure!(!got.is_vertex() && !got.is_edge(), "{:?} is a corner or an edge", got);
        c.event(if out { "outside" } else { "inside" }, 1);
    }
    if f.kind == "xy0" {
        // exactly at the corners and sides
        use PointInTriangle::*;
        let g = |r: &mut Rng| (r.below(9) as f64 - 4.) * 2.;
        let w: Vec<P2> = (0..3).map(|_| (g(r), g(r))).collect();
        if area2(&w).abs() > 3. {
            let q: Vec<Point3D> = w.iter().map(|x| Point3D::new(x.0, x.1, 0.)).collect();
            let t = Triangle3D::new(q[0], q[1], q[2])?;
            for (i, (a, b)) in [(VertexA, EdgeAB), (VertexB, EdgeBC), (VertexC, EdgeAC)].into_iter().enumerate() {
                let m = (q[i] + q[(i + 1) % 3]) * 0.5;
                let (x, y) = (t.test_point(q[i]), t.test_point(m));
                ensure!(x == a && x.is_vertex() && !x.is_edge(), "corner {} is {:?}", i, x);
                ensure!(y == b && y.is_edge() && !y.is_vertex(), "the middle of side {} is {:?}", i, y);
            }
            c.event("corners", 1);
        }
    }
    // it changes as a whole
    let p2 = tri(r);
    let mut now = p.clone();
    for i in 0..3 {
        let k = (i + k) % 3;
        let mut next = now.clone();
        next[k] = p2[k];
        if area2(&next).abs() < 0.05 * s * s || min_edge(&next) < 0.1 * s {
            continue;
        }
        match k {
            0 => t.set_a(f.at(p2[0])),
            1 => t.set_b(f.at(p2[1])),
            _ => t.set_c(f.at(p2[2])),
        }
        now = next;
        facts(&t, &now)?;
        c.event("changed", 1);
    }
    // not triangles
    let m = q[0] + (q[1] - q[0]) * r.range(-2., 3.);
    ensure!(Triangle3D::new(q[0], q[1], m).is_err(), "there is a triangle in a line");
    ensure!(Triangle3D::new(q[0], q[1], q[0]).is_err() && Triangle3D::new(q[1], q[1], q[0]).is_err() && Triangle3D::new(q[1], q[0], q[0]).is_err(), "there is a triangle of two corners");
    c.seen(&format!("{} {:.1} {:?}", f.kind, area2(&p), order));
    Ok(())
}
fn er<T>(x: Result<T, String>) -> Result<T, Fail> {
    x.map_err(Fail::Bad)
}
/// fractions along a and b at which two segments cross
fn cross2(a: P2, b: P2, c: P2, d: P2) -> Option<(f64, f64)> {
    let (u, v) = ((b.0 - a.0, b.1 - a.1), (d.0 - c.0, d.1 - c.1));
    let det = u.0 * v.1 - u.1 * v.0;
    if det.abs() < 1e-3 * dist(a, b) * dist(c, d) {
        return None;
    }
    let w = (c.0 - a.0, c.1 - a.1);
    Some(((w.0 * v.1 - w.1 * v.0) / det, (w.0 * u.1 - w.1 * u.0) / det))
}
fn outlines(c: &mut Case) -> R {
    let mut own = c.rng.clone();
    let r = &mut own;
    let (p, kind) = good_poly(r);
    let n = p.len();
    let f = Frame::random(r);
    c.desc(format!("{} {:?} {:?}", kind, f, p));
    let l = er(loop_from(&f, &p))?;
    if l.len() != n {
        return Ok(());
    }
    let sc = scale_of(&f, &p);
    let q: Vec<Point3D> = p.iter().map(|x| f.at(*x)).collect();
    // its corners, in order
    let v = l.vertices().to_vec();
    for i in 0..n {
        ensure!(l[i] == v[i], "index {}", i);
    }
    let collected: Vec<Point3D> = l.clone().into_iter().collect();
    ensure!(collected == v && l.segments().len() == n, "iterating");
    for (i, s) in l.segments().iter().enumerate() {
        ensure!(s.start() == v[i] && s.end() == v[(i + 1) % n], "side {}", i);
        ensure!(l.contains_segment(s) && l.contains_segment(&Segment3D::new(s.end(), s.start())), "side {} is not a side", i);
        let d = Segment3D::new(v[i], v[(i + 2) % n]);
        ensure!(n == 3 || !l.contains_segment(&d), "a diagonal is a side");
    }
    // box and centroid
    let b = er(l.bbox())?;
    for k in 0..3 {
        let x: Vec<f64> = q.iter().map(|x| a3(*x)[k]).collect();
        let (lo, hi) = (x.iter().fold(f64::MAX, |a, b| a.min(*b)), x.iter().fold(f64::MIN, |a, b| a.max(*b)));
        ensure!(a3(b.min)[k] == lo && a3(b.max)[k] == hi, "the box is {:?}, not {}..{} in {}", b, lo, hi, k);
    }
    ensure!(Loop3D::new().bbox().is_err() && Loop3D::default().is_empty(), "an empty outline has a box");
    let m = p.iter().fold((0., 0.), |a, b| (a.0 + b.0 / n as f64, a.1 + b.1 / n as f64));
    near("centroid", a3(er(l.centroid())?), a3(f.at(m)), 1e-10 * sc)?;
    // equal whichever the first corner and the direction
    let rot = r.below(n);
    let mut q2: Vec<P2> = (0..n).map(|i| p[(i + rot) % n]).collect();
    if r.chance(0.5) {
        q2.reverse();
        c.event("reversed", 1);
    }
    let other = er(loop_from(&f, &q2))?;
    if other.len() == n {
        ensure!(er(l.is_equal(&other, 1e-4))? && er(other.is_equal(&l, 1e-4))?, "the same outline is different");
        let k = r.below(n);
        let mut q3 = q2.clone();
        let a = r.range(0., 6.28);
        q3[k] = (q3[k].0 + 0.02 * a.cos(), q3[k].1 + 0.02 * a.sin());
        if let Ok(x) = loop_from(&f, &q3) {
            ensure!(!er(l.is_equal(&x, 1e-3))? && !er(x.is_equal(&l, 1e-3))?, "an outline with another corner is the same");
            c.event("different", 1);
        }
    }
    let mut open = l.clone();
    open.open();
    ensure!(open.is_equal(&l, 0.1).is_err() && l.is_equal(&open, 0.1).is_err(), "open outlines are compared");
    ensure!(open.centroid().is_err() && open.area().is_err() && open.perimeter().is_err(), "open outlines have measures");
    ensure!(!open.is_closed(), "open");
    // reversed
    let rev = l.get_reversed();
    ensure!((rev.normal() + l.normal()).length() < 1e-12 && rev.vertices().iter().rev().copied().collect::<Vec<_>>() == v, "reversing");
    check_loop(&rev, area2(&p).abs(), perim2(&p), -l.normal(), sc, "reversed")?;
    // corners and sides
    let k = r.below(n);
    let e = r.logu(1e-4, 0.02);
    ensure!(l.contains_vertex(v[k] + rnd_dir(r) * (e * 0.95), e), "a corner is not found");
    ensure!(!l.contains_vertex(v[k] + rnd_dir(r) * (e * 1.05), e), "a corner is found {} away", e);
    let t = r.range(0.05, 0.95);
    let (i, j) = (k, (k + 1) % n);
    let on = v[i] + (v[j] - v[i]) * t;
    ensure!(l.containing_segment(on) == Some(k), "a point of side {} is in {:?}", k, l.containing_segment(on));
    let away = (r.range(-4., 4.), r.range(-4., 4.));
    if edge_dist(away, &p) > 0.05 {
        ensure!(l.containing_segment(f.at(away)).is_none(), "a point out of the sides is in {:?}", l.containing_segment(f.at(away)));
        c.event("sides", 1);
    }
    // where a segment crosses
    for _ in 0..4 {
        let s = (r.range(-3., 3.) * sc.min(9.) / 3., r.range(-3., 3.) * sc.min(9.) / 3.);
        let g = (r.range(-3., 3.) * sc.min(9.) / 3., r.range(-3., 3.) * sc.min(9.) / 3.);
        if dist(s, g) < 0.1 {
            continue;
        }
        let mut want: Vec<(usize, P2)> = vec![];
        let mut doubt = false;
        for i in 0..n {
            let (a, b) = (p[i], p[(i + 1) % n]);
            match cross2(a, b, s, g) {
                Some((x, y)) => {
                    let m = 1e-2;
                    let inn = |x: f64| x > m && x < 1. - m;
                    let out = |x: f64| x < -m || x > 1. + m;
                    if inn(x) && inn(y) {
                        want.push((i, (a.0 + (b.0 - a.0) * x, a.1 + (b.1 - a.1) * x)));
                    } else if !out(x) && !out(y) {
                        doubt = true;
                    }
                }
                None => doubt = true,
            }
        }
        for i in 0..want.len() {
            for j in 0..i {
                doubt |= dist(want[i].1, want[j].1) < 0.01;
            }
        }
        if doubt {
            continue;
        }
        let got = l.intersect(&Segment3D::new(f.at(s), f.at(g)));
        ensure!(
            got.len() == want.len() && got.iter().zip(want.iter()).all(|(a, b)| a.0 == b.0 && a.1.distance(f.at(b.1)) < 1e-6 * sc),
            "a segment from {:?} to {:?} crosses at {:?}, not {:?}",
            s,
            g,
            got,
            want
        );
        c.event("crossings", want.len() as u64);
    }
    // diagonals
    if n > 3 {
        let i = r.below(n);
        let j = (i + 2 + r.below(n - 3)) % n;
        let mut doubt = false;
        let mut blocked = false;
        for k in 0..n {
            if k != i && k != j && seg_dist(p[k], p[i], p[j]) < 0.02 {
                doubt = true;
            }
            let k2 = (k + 1) % n;
            if k != i && k != j && k2 != i && k2 != j {
                if let Some((x, y)) = cross2(p[k], p[k2], p[i], p[j]) {
                    blocked |= x > 0. && x < 1. && y > 0. && y < 1.;
                }
            }
        }
        let mid = ((p[i].0 + p[j].0) / 2., (p[i].1 + p[j].1) / 2.);
        doubt |= edge_dist(mid, &p) < 0.01;
        if !doubt {
            let want = !blocked && inside(mid, &p);
            let got = er(l.is_diagonal(Segment3D::new(q[i], q[j])))?;
            ensure!(got == want, "from corner {} to {} there is a diagonal: {}", i, j, got);
            let s = er(l.is_diagonal(Segment3D::new(q[i], q[(i + 1) % n])))?;
            ensure!(!s, "a side is a diagonal");
            c.event(if want { "diagonals" } else { "not diagonals" }, 1);
        }
    }
    // points in the sides are left out when cleaning
    let mut raw = Loop3D::with_capacity(2 * n);
    let mut extra = 0;
    for i in 0..n {
        er(raw.push_collinear(v[i], false))?;
        if r.chance(0.3) && i + 1 < n {
            er(raw.push_collinear(v[i] + (v[(i + 1) % n] - v[i]) * r.range(0.2, 0.8), false))?;
            extra += 1;
        }
    }
    er(raw.close())?;
    let clean = er(raw.clone().sanitize())?;
    check_loop(&clean, area2(&p).abs(), perim2(&p), l.normal(), sc, "cleaned")?;
    ensure!(clean.len() == n, "cleaned: {} corners of {} (with {} more)", clean.len(), n, extra);
    c.event("cleaned", extra);
    c.seen(&format!("{} {} {}", kind, n, f.kind));
    Ok(())
}
fn moved(c: &mut Case) -> R {
    let mut own = c.rng.clone();
    let r = &mut own;
    let (p, kind) = good_poly(r);
    let n = p.len();
    let f = Frame::random(r);
    let hs = rnd_holes(r, &p, 2);
    c.desc(format!("{} {:?} {:?} {:?}", kind, f, p, hs));
    let l = er(loop_from(&f, &p))?;
    if l.len() != n {
        return Ok(());
    }
    let sc = scale_of(&f, &p);
    let mut poly = er(Polygon3D::new(l.clone()))?;
    let mut net = area2(&p).abs();
    let mut holes = vec![];
    for h in hs {
        let hl = er(loop_from(&f, &h))?;
        if poly.cut_hole(hl.clone()).is_ok() {
            net -= area2(&h).abs();
            holes.push(hl);
        }
    }
    let k = holes.len();
    close("net area", poly.area(), net, 1e-8 * sc * sc)?;
    // reversed
    let rev = poly.get_reversed();
    close("net area, reversed", rev.area(), net, 1e-8 * sc * sc)?;
    ensure!((rev.normal() + poly.normal()).length() < 1e-12 && rev.n_inner_loops() == k, "reversed");
    ensure!((rev.outer().normal() - rev.normal()).length() < 1e-12, "the outline was not reversed");
    for i in 0..k {
        ensure!(er(rev.inner(i))?.normal() * er(poly.inner(i))?.normal() < -0.9, "a hole was not reversed");
        near("corner of a hole", a3(er(poly.inner(i))?.vertices()[0]), a3(holes[i].vertices()[0]), 0.)?;
    }
    ensure!(poly.inner(k).is_err() && poly.clone().mut_inner(k).is_err(), "there is one hole more");
    near("centroid of the outline", a3(poly.outer_centroid()), a3(er(l.centroid())?), 1e-9 * sc)?;
    ensure!(er(l.is_equal(&poly.clone_outer(), 1e-6))?, "the outline");
    // projected
    let (g, tilt) = loop {
        let g = Frame::random(r);
        let d = (g.n() * f.n()).abs();
        if d > 0.2 {
            break (g, d);
        }
    };
    let base = er(loop_from(&g, &good_poly(r).0))?;
    let per = |v: &[Point3D]| -> f64 { (0..v.len()).map(|i| v[i].distance(v[(i + 1) % v.len()])).sum() };
    let mut pl = l.clone();
    er(pl.project_into_plane(&base))?;
    let want: Vec<Point3D> = l.vertices().iter().map(|x| *x - g.n() * ((*x - g.o) * g.n())).collect();
    let tol = 1e-9 * (sc + scale_of(&g, &[]));
    for (a, b) in pl.vertices().iter().zip(want.iter()) {
        near("corner projected", a3(*a), a3(*b), tol)?;
    }
    let sign = if g.n() * l.normal() > 0. { 1. } else { -1. };
    near("normal, projected", av(pl.normal()), av(g.n() * sign), 1e-7)?;
    let t2 = 1e-9 * (sc + scale_of(&g, &[])).powi(2);
    close("area, projected", er(pl.area())?, er(l.area())? * tilt, t2)?;
    close("perimeter, projected", er(pl.perimeter())?, per(&want), t2)?;
    let mut pp = poly.clone();
    er(pp.project_into_plane(&base))?;
    near("normal of the polygon, projected", av(pp.normal()), av(g.n() * sign), 1e-7)?;
    close("net area, projected", pp.area(), net * tilt, t2)?;
    for i in 0..k {
        for (a, b) in er(pp.inner(i))?.vertices().iter().zip(holes[i].vertices()) {
            near("corner of a hole, projected", a3(*a), a3(*b - g.n() * ((*b - g.o) * g.n())), tol)?;
        }
    }
    let mut open = l.clone();
    open.open();
    ensure!(open.clone().project_into_plane(&base).is_err() && l.clone().project_into_plane(&open).is_err(), "open outlines are projected");
    ensure!(Loop3D::new().project_into_plane(&base).is_err() && l.clone().project_into_plane(&Loop3D::new()).is_err(), "empty outlines are projected");
    c.event("projected", 1);
    // distance between parallel outlines
    let h = r.range(-5., 5.);
    let up = Frame { o: f.o + f.n() * h, ..f.clone() };
    let mut other = er(loop_from(&up, &good_poly(r).0))?;
    if r.chance(0.5) {
        other.reverse();
    }
    // measured along the normal of the first
    let d = er(other.normal_distance(&l))?;
    close("distance", d, h * if other.normal() * f.n() > 0. { 1. } else { -1. }, tol * 10.)?;
    let d = er(l.normal_distance(&other))?;
    close("distance", d, -h * if l.normal() * f.n() > 0. { 1. } else { -1. }, tol * 10.)?;
    if tilt < 0.99 {
        ensure!(l.normal_distance(&base).is_err(), "there is a distance between outlines that are not parallel");
        c.event("not parallel", 1);
    }
    ensure!(open.normal_distance(&l).is_err() && l.normal_distance(&open).is_err() && Loop3D::new().normal_distance(&l).is_err() && l.normal_distance(&Loop3D::new()).is_err(), "open or empty outlines have a distance");
    // snapping
    let sd = r.logu(1e-3, 0.05);
    let mut pts = vec![];
    for x in l.vertices().iter().chain(holes.iter().flat_map(|h| h.vertices())) {
        if r.chance(0.4) {
            for _ in 0..1 + r.below(3) {
                // in the plane, so that the outline is still flat
                let a = r.range(0., 6.28);
                let dir = f.u * a.cos() + f.v * a.sin();
                let k = if r.chance(0.7) { r.range(0., 0.97) } else { r.range(1.03, 2.) };
                pts.push(*x + dir * (sd * k));
            }
        }
    }
    for _ in 0..r.below(4) {
        pts.push(f.at((r.range(-5., 5.), r.range(-5., 5.))));
    }
    for i in (1..pts.len()).rev() {
        let j = r.below(i + 1);
        pts.swap(i, j);
    }
    let ok = |v: &[Point3D], w: &[Point3D]| -> Result<usize, Fail> {
        let mut count = 0;
        for (a, b) in v.iter().zip(w.iter()) {
            let near = pts.iter().any(|x| x.distance(*a) < sd * 0.999999);
            let far = pts.iter().all(|x| x.distance(*a) > sd * 1.000001);
            if far {
                ensure!(a == b, "a corner without points nearby moved from {} to {}", a, b);
            } else if near {
                ensure!(pts.iter().any(|x| x == b), "a corner with points nearby went to {}, which is not one of them", b);
                ensure!(a.distance(*b) <= sd * 1.000001, "a corner moved {}, when asked for {}", a.distance(*b), sd);
                count += 1;
            }
        }
        Ok(count)
    };
    let mut sl = l.clone();
    let got = sl.snap(&pts, sd);
    let count = ok(l.vertices(), sl.vertices())?;
    ensure!(got == if count == 0 { None } else { Some(count) }, "{:?} corners snapped, not {}", got, count);
    let av3 = area_vec(sl.vertices()).length() / 2.;
    close("area, snapped", er(sl.area())?, av3, 1e-9 * sc * sc)?;
    close("perimeter, snapped", er(sl.perimeter())?, per(sl.vertices()), 1e-9 * sc)?;
    let mut sp = poly.clone();
    let got = sp.snap(&pts, sd);
    let mut count = ok(poly.outer().vertices(), sp.outer().vertices())?;
    let mut net = area_vec(sp.outer().vertices()).length() / 2.;
    for i in 0..k {
        count += ok(er(poly.inner(i))?.vertices(), er(sp.inner(i))?.vertices())?;
        net -= area_vec(er(sp.inner(i))?.vertices()).length() / 2.;
    }
    ensure!(got == if count == 0 { None } else { Some(count) }, "{:?} corners of the polygon snapped, not {}", got, count);
    close("net area, snapped", sp.area(), net, 1e-8 * sc * sc)?;
    c.event("snapped", count as u64);
    c.seen(&format!("{} {} {} {} {}", kind, n, f.kind, k, count));
    Ok(())
}
// ---------------------------------------------------------------- outlines against outlines
/// the part of the convex polygon `a` that is in the convex polygon `b`, both counter-clockwise
fn clip(a: &[P2], b: &[P2]) -> Vec<P2> {
    let mut out = a.to_vec();
    for i in 0..b.len() {
        let (s, e) = (b[i], b[(i + 1) % b.len()]);
        let side = |p: P2| (e.0 - s.0) * (p.1 - s.1) - (e.1 - s.1) * (p.0 - s.0);
        let old = std::mem::take(&mut out);
        for j in 0..old.len() {
            let (p, q) = (old[j], old[(j + 1) % old.len()]);
            let (x, y) = (side(p), side(q));
            if x >= 0. {
                out.push(p);
            }
            if (x > 0. && y < 0.) || (x < 0. && y > 0.) {
                let t = x / (x - y);
                out.push((p.0 + (q.0 - p.0) * t, p.1 + (q.1 - p.1) * t));
            }
        }
    }
    out
}
fn convex(r: &mut Rng, at: P2) -> Vec<P2> {
    let n = 3 + r.below(6);
    let (a, b, ph) = (r.range(0.5, 4.), r.range(0.5, 4.), r.range(0., 6.28));
    let (c, s) = ((ph * 1.7).cos(), (ph * 1.7).sin());
    (0..n)
        .map(|i| {
            let t = ph + (i as f64 + r.range(-0.25, 0.25)) / n as f64 * std::f64::consts::TAU;
            let (x, y) = (a * t.cos(), b * t.sin());
            (at.0 + x * c - y * s, at.1 + x * s + y * c)
        })
        .collect()
}
fn bites(c: &mut Case) -> R {
    let r = &mut c.rng;
    let mut bent = false;
    let (p, q) = if r.chance(0.4) {
        let (p, _) = good_poly(r);
        bent = true;
        let (lo, hi) = p.iter().fold((f64::MAX, f64::MIN), |a, x| (a.0.min(x.0).min(x.1), a.1.max(x.0).max(x.1)));
        let at = (r.range(lo, hi), r.range(lo, hi));
        let k = r.range(0.3, 2.);
        let q = convex(r, (0., 0.)).iter().map(|x| (at.0 + x.0 * k, at.1 + x.1 * k)).collect();
        (p, q)
    } else if r.chance(0.3) {
        // rectangles with parallel sides
        let (w, h) = (r.range(1., 6.), r.range(1., 6.));
        let (x, y, u, v) = (r.range(-4., 7.), r.range(-4., 7.), r.range(0.5, 6.), r.range(0.5, 6.));
        (vec![(0., 0.), (w, 0.), (w, h), (0., h)], vec![(x, y), (x + u, y), (x + u, y + v), (x, y + v)])
    } else {
        let at = (r.range(-5., 5.), r.range(-5., 5.));
        (convex(r, (0., 0.)), convex(r, at))
    };
    // nothing almost touches
    let doubt = p.iter().any(|x| edge_dist(*x, &q) < 0.05) || q.iter().any(|x| edge_dist(*x, &p) < 0.05) || min_edge(&p) < 0.2 || min_edge(&q) < 0.2;
    if doubt || area2(&p) < 0.2 || area2(&q) < 0.2 {
        return Ok(());
    }
    let common = clip(&p, &q);
    let want = if common.len() < 3 { 0. } else { area2(&common) };
    let mut crossings = 0;
    let mut aligned = min_turn(&p) < 0.01 || min_turn(&q) < 0.01 || (common.len() > 2 && min_turn(&common) < 1e-3);
    for i in 0..p.len() {
        for j in 0..q.len() {
            if let Some((x, y)) = cross2(p[i], p[(i + 1) % p.len()], q[j], q[(j + 1) % q.len()]) {
                if x > 0. && x < 1. && y > 0. && y < 1. {
                    crossings += 1;
                    let (a, b, d, e) = (p[i], p[(i + 1) % p.len()], q[j], q[(j + 1) % q.len()]);
                    let sin = ((b.0 - a.0) * (e.1 - d.1) - (b.1 - a.1) * (e.0 - d.0)) / dist(a, b) / dist(d, e);
                    aligned |= sin.abs() < 0.05;
                }
            }
        }
    }
    if aligned || bent && crossings > 2 || want > 0. && want < 0.02 || (common.len() > 2 && min_edge(&common) < 0.03) {
        return Ok(());
    }
    let f = Frame::random(r);
    let turn = |r: &mut Rng, p: &[P2]| -> Vec<P2> {
        let k = r.below(p.len());
        let mut t: Vec<P2> = (0..p.len()).map(|i| p[(i + k) % p.len()]).collect();
        if r.chance(0.5) {
            t.reverse();
        }
        t
    };
    let (pp, qq) = (turn(r, &p), turn(r, &q));
    c.desc(format!("{:?} and {:?} in {:?}: {} crossings, {} in common", pp, qq, f, crossings, want));
    let a = loop_from(&f, &pp).map_err(Fail::Bad)?;
    let b = loop_from(&f, &qq).map_err(Fail::Bad)?;
    let sc = scale_of(&f, &p);
    match a.intersection(&b).map_err(|e| Fail::Bad(format!("intersection: {}", e)))? {
        None => ensure!(want == 0., "outlines with {} m2 in common are found to have nothing", want),
        Some(l) => {
            ensure!(want > 0., "outlines that are apart are found to have {:?} m2 in common", l.area());
            check_loop(&l, want, perim2(&common), a.normal(), sc, "the common part")?;
        }
    }
    // a bite that leaves one piece without holes
    if crossings == 2 || want == 0. {
        let l = a.bite(&b).map_err(|e| Fail::Bad(format!("bite: {}", e)))?;
        let left = area2(&p) - want;
        let got = er(l.area())?;
        ensure!((got - left).abs() < 1e-6 * sc * sc, "biting {} m2 out of {} leaves {}", want, area2(&p), got);
        ensure!((l.normal() - a.normal()).length() < 1e-9, "biting turns the outline");
        for _ in 0..10 {
            let x = (c.rng.range(-5., 7.), c.rng.range(-5., 7.));
            if edge_dist(x, &p) > 0.01 && edge_dist(x, &q) > 0.01 {
                let e = inside(x, &p) && !inside(x, &q);
                ensure!(er(l.test_point(f.at(x)))? == e, "{:?} is {} what is left", x, if e { "not in" } else { "in" });
            }
        }
        c.event(if want > 0. { "bitten" } else { "left alone" }, 1);
    }
    if bent && want > 0. {
        c.event("bent", 1);
    }
    c.event(if want == 0. { "apart" } else if crossings == 0 { "within" } else if crossings == 2 { "corner" } else { "across" }, 1);
    c.seen(&format!("{} {} {} {:.1}", p.len(), q.len(), crossings, want));
    Ok(())
}
pub static PROPS: &[&Prop] = &[
    &Prop {
        id: "G10",
        rule: "random points and vectors of all sizes, with zeros and tiny components: every operator against component-wise arithmetic, lengths, distances (points, planes, lines), perpendiculars, nearness, parallelism and collinearity at known angles and offsets; random triangles in random planes, also after moving their corners: area, normal, circumcircle, sides, corners, membership. Non-trivial: distinct sign patterns and magnitudes, distinct triangles.",
        assumptions: &["parallel vectors are judged for lengths of 0.5 to 30, because the tolerance is absolute", "points within 1e-6 of the sides of a triangle are judged only when exact"],
        workloads: &[
            wl("vectors", 200000, 2000000, vectors).need(&[("perpendicular", 50000), ("parallel", 20000), ("not parallel", 20000), ("lines", 20000)]),
            wl("triangles", 60000, 600000, triangles).need(&[("inside", 50000), ("outside", 50000), ("corners", 500), ("changed", 20000)]),
        ],
    },
    &Prop {
        id: "G11",
        rule: "random simple polygons (as G01), with holes, in random planes: corners, sides, box, centroid, comparison (from any corner, in both directions, against a moved corner), membership of corners and sides, crossings with segments and diagonals against plane geometry, cleaning of redundant points, projection on other planes, distance between parallel ones, and snapping to clouds of points; measures after each change. Non-trivial: distinct (shape, corners, plane, holes, snapped).",
        assumptions: &["crossings and diagonals within 1 % of an end or 2 cm of a corner are not judged", "merging and intersecting outlines are not judged"],
        workloads: &[
            wl("outlines", 40000, 400000, outlines).need(&[("reversed", 5000), ("different", 5000), ("sides", 5000), ("crossings", 5000), ("diagonals", 1000), ("not diagonals", 1000), ("cleaned", 5000)]),
            wl("moved", 30000, 300000, moved).need(&[("projected", 5000), ("not parallel", 2000), ("snapped", 5000)]),
        ],
    },
    &Prop {
        id: "G12",
        rule: "pairs of outlines (rectangles with parallel sides, irregular convex polygons, and simple polygons as in G01 with convex ones) of any size and place in random planes, from any corner and in both directions: outline of the common part against a clipped polygon (area, perimeter, normal), and what is left of one after the other bites it (area, normal, membership of points). Non-trivial: distinct (corners, crossings, area in common).",
        assumptions: &["corners are at least 5 cm away from the other outline, and no three corners of the result are almost aligned; non-convex outlines are judged if they are crossed twice at most", "bites are judged if they leave one piece without holes"],
        workloads: &[wl("bites", 30000, 300000, bites).need(&[("apart", 1000), ("within", 500), ("corner", 1000), ("across", 500), ("bitten", 1000), ("bent", 1000)])],
    },
];
