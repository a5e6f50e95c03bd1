//! Polygons: loops, holes, containment, triangulation, splitting
use crate::core::*;
use crate::ensure;
use geometry::{Loop3D, Point3D, Polygon3D, Segment3D, Triangulation3D, Vector3D};
use std::convert::TryFrom;

pub type P2 = (f64, f64);

/// a plane frame: origin and two orthonormal axes
#[derive(Clone, Debug)]
pub struct Frame {
    pub o: Point3D,
    pub u: Vector3D,
    pub v: Vector3D,
    pub kind: &'static str,
}
impl Frame {
    pub fn at(&self, p: P2) -> Point3D {
        self.o + self.u * p.0 + self.v * p.1
    }
    pub fn n(&self) -> Vector3D {
        self.u.cross(self.v)
    }
    pub fn to2(&self, p: Point3D) -> P2 {
        let d = p - self.o;
        (d * self.u, d * self.v)
    }
    pub fn off(&self, p: Point3D) -> f64 {
        (p - self.o) * self.n()
    }
    pub fn random(r: &mut Rng) -> Frame {
        let s = *r.pick(&[0.0, 1.0, 10.0, 50.0]);
        let o = Point3D::new(r.normal() * s, r.normal() * s, r.normal() * s);
        match r.below(8) {
            0 => Frame { o: Point3D::new(0., 0., 0.), u: Vector3D::new(1., 0., 0.), v: Vector3D::new(0., 1., 0.), kind: "xy0" },
            1 => Frame { o, u: Vector3D::new(1., 0., 0.), v: Vector3D::new(0., 1., 0.), kind: "horizontal" },
            2 => Frame { o, u: Vector3D::new(1., 0., 0.), v: Vector3D::new(0., 0., 1.), kind: "xz" },
            3 => Frame { o, u: Vector3D::new(0., 1., 0.), v: Vector3D::new(0., 0., 1.), kind: "yz" },
            4 => {
                let a = r.range(0., std::f64::consts::TAU);
                Frame { o, u: Vector3D::new(a.cos(), a.sin(), 0.), v: Vector3D::new(0., 0., 1.), kind: "vertical" }
            }
            5 => {
                let a = r.range(0., std::f64::consts::TAU);
                Frame { o, u: Vector3D::new(a.cos(), a.sin(), 0.), v: Vector3D::new(-a.sin(), a.cos(), 0.) * -1., kind: "facing down" }
            }
            _ => {
                let (u, v) = rnd_axes(r);
                Frame { o, u, v, kind: "tilted" }
            }
        }
    }
}
pub fn rnd_dir(r: &mut Rng) -> Vector3D {
    loop {
        let v = Vector3D::new(r.normal(), r.normal(), r.normal());
        if v.length() > 1e-3 {
            let l = v.length();
            return v / l;
        }
    }
}
pub fn rnd_axes(r: &mut Rng) -> (Vector3D, Vector3D) {
    let u = rnd_dir(r);
    loop {
        let w = rnd_dir(r);
        let v = w - u * (u * w);
        if v.length() > 0.1 {
            let l = v.length();
            return (u, v / l);
        }
    }
}

pub fn area2(p: &[P2]) -> f64 {
    let n = p.len();
    (0..n).map(|i| p[i].0 * p[(i + 1) % n].1 - p[(i + 1) % n].0 * p[i].1).sum::<f64>() / 2.
}
pub fn perim2(p: &[P2]) -> f64 {
    let n = p.len();
    (0..n).map(|i| dist(p[i], p[(i + 1) % n])).sum()
}
pub fn dist(a: P2, b: P2) -> f64 {
    (a.0 - b.0).hypot(a.1 - b.1)
}
pub fn seg_dist(p: P2, a: P2, b: P2) -> f64 {
    let (dx, dy) = (b.0 - a.0, b.1 - a.1);
    let l2 = dx * dx + dy * dy;
    let t = (((p.0 - a.0) * dx + (p.1 - a.1) * dy) / l2).clamp(0., 1.);
    dist(p, (a.0 + t * dx, a.1 + t * dy))
}
pub fn edge_dist(p: P2, poly: &[P2]) -> f64 {
    let n = poly.len();
    (0..n).map(|i| seg_dist(p, poly[i], poly[(i + 1) % n])).fold(f64::MAX, f64::min)
}
/// independent containment: winding number by accumulated angle
pub fn inside(p: P2, poly: &[P2]) -> bool {
    let n = poly.len();
    let mut w = 0.0;
    for i in 0..n {
        let a = (poly[i].0 - p.0, poly[i].1 - p.1);
        let b = (poly[(i + 1) % n].0 - p.0, poly[(i + 1) % n].1 - p.1);
        w += (a.0 * b.1 - a.1 * b.0).atan2(a.0 * b.0 + a.1 * b.1);
    }
    w.abs() > std::f64::consts::PI
}

/// a simple polygon (counter-clockwise), no collinear vertices, edges >= ~0.15
pub fn rnd_poly(r: &mut Rng) -> (Vec<P2>, &'static str) {
    let s = *r.pick(&[1.0, 1.0, 3.0, 8.0]);
    match r.below(9) {
        0 => {
            let (w, h) = (r.range(0.5, 4.) * s, r.range(0.5, 4.) * s);
            (vec![(0., 0.), (w, 0.), (w, h), (0., h)], "rectangle")
        }
        1 => {
            let (w, h) = (r.range(1.0, 4.) * s, r.range(1.0, 4.) * s);
            let (a, b) = (w * r.range(0.25, 0.75), h * r.range(0.25, 0.75));
            (vec![(0., 0.), (w, 0.), (w, b), (a, b), (a, h), (0., h)], "L")
        }
        2 => {
            let (w, h) = (r.range(2.0, 5.) * s, r.range(1.0, 4.) * s);
            let (a, b, d) = (w * r.range(0.15, 0.4), w * r.range(0.6, 0.85), h * r.range(0.2, 0.8));
            (vec![(0., 0.), (w, 0.), (w, h), (b, h), (b, d), (a, d), (a, h), (0., h)], "U")
        }
        3 => {
            // comb: many reflex corners
            let t = 2 + r.below(4);
            let mut top = vec![];
            for k in 0..t {
                let x = 2. * k as f64 * s;
                top.push((x + s, r.range(1.2, 3.) * s));
                top.push((x + s, 0.6 * s));
                top.push((x + 2. * s, 0.6 * s));
                top.push((x + 2. * s, r.range(1.2, 3.) * s));
            }
            let wid = 2. * t as f64 * s + s;
            // build as spikes
            let mut p = vec![(0., 0.), (wid, 0.), (wid, s)];
            for k in (0..t).rev() {
                let x = 2. * k as f64 * s;
                p.push((x + 2. * s, r.range(1.3, 3.) * s));
                p.push((x + 1.5 * s, 0.5 * s));
                p.push((x + s, r.range(1.3, 3.) * s));
            }
            p.push((0., s * 0.9));
            (p, "comb")
        }
        4 => {
            let n = 3;
            loop {
                let p: Vec<P2> = (0..n).map(|_| (r.range(-2., 2.) * s, r.range(-2., 2.) * s)).collect();
                let a = area2(&p);
                if a > 0.3 * s * s && min_edge(&p) > 0.3 * s {
                    return (p, "triangle");
                }
            }
        }
        5 | 6 => {
            let n = 4 + r.below(9);
            let (a, b) = (r.range(0.8, 3.) * s, r.range(0.8, 3.) * s);
            let p: Vec<P2> = (0..n)
                .map(|i| {
                    let t = (i as f64 + r.range(-0.3, 0.3)) / n as f64 * std::f64::consts::TAU;
                    (a * t.cos(), b * t.sin())
                })
                .collect();
            (p, "convex")
        }
        _ => {
            // star-shaped
            let n = 5 + r.below(10);
            let p: Vec<P2> = (0..n)
                .map(|i| {
                    let t = (i as f64 + r.range(-0.25, 0.25)) / n as f64 * std::f64::consts::TAU;
                    let q = r.range(0.6, 3.) * s;
                    (q * t.cos(), q * t.sin())
                })
                .collect();
            (p, "star")
        }
    }
}
pub fn min_edge(p: &[P2]) -> f64 {
    let n = p.len();
    (0..n).map(|i| dist(p[i], p[(i + 1) % n])).fold(f64::MAX, f64::min)
}
/// smallest |cross| at a corner: how far from collinear
pub fn min_turn(p: &[P2]) -> f64 {
    let n = p.len();
    (0..n)
        .map(|i| {
            let (a, b, c) = (p[i], p[(i + 1) % n], p[(i + 2) % n]);
            ((b.0 - a.0) * (c.1 - b.1) - (b.1 - a.1) * (c.0 - b.0)).abs()
        })
        .fold(f64::MAX, f64::min)
}
pub fn good_poly(r: &mut Rng) -> (Vec<P2>, &'static str) {
    loop {
        let (p, k) = rnd_poly(r);
        if min_edge(&p) > 0.12 && min_turn(&p) > 1e-3 && area2(&p) > 0.1 {
            let n = p.len();
            let rot = r.below(n);
            return ((0..n).map(|i| p[(i + rot) % n]).collect(), k);
        }
    }
}
pub fn loop_from(f: &Frame, p: &[P2]) -> Result<Loop3D, String> {
    let mut l = Loop3D::new();
    for q in p {
        l.push(f.at(*q))?;
    }
    l.close()?;
    Ok(l)
}
fn rel(a: f64, b: f64, s: f64) -> bool {
    (a - b).abs() <= 1e-9 * s.max(1.0)
}
pub fn scale_of(f: &Frame, p: &[P2]) -> f64 {
    let o = Vector3D::from(f.o).length();
    p.iter().map(|q| q.0.abs() + q.1.abs()).fold(1., f64::max) + o
}
/// twice the area vector of a 3D loop (direction = right hand rule)
pub fn area_vec(v: &[Point3D]) -> Vector3D {
    let n = v.len();
    let mut s = Vector3D::new(0., 0., 0.);
    let o = v[0];
    for i in 0..n {
        s += (v[i] - o).cross(v[(i + 1) % n] - o);
    }
    s
}
pub fn check_loop(l: &Loop3D, exp_area: f64, exp_per: f64, exp_n: Vector3D, sc: f64, what: &str) -> R {
    let a = l.area().map_err(|e| Fail::Bad(format!("{}: {}", what, e)))?;
    let p = l.perimeter().map_err(|e| Fail::Bad(format!("{}: {}", what, e)))?;
    ensure!((a - exp_area).abs() <= 1e-9 * sc * sc, "{}: area is {} instead of {}", what, a, exp_area);
    ensure!((p - exp_per).abs() <= 1e-9 * sc, "{}: perimeter is {} instead of {}", what, p, exp_per);
    let n = l.normal();
    ensure!((n - exp_n).length() < 1e-6, "{}: normal is {} instead of {}", what, n, exp_n);
    ensure!(l.is_closed() && l.closed(), "{}: not closed", what);
    Ok(())
}

fn loops(c: &mut Case) -> R {
    let (p, kind) = good_poly(&mut c.rng);
    let f = Frame::random(&mut c.rng);
    let sc = scale_of(&f, &p);
    let (area, per) = (area2(&p), perim2(&p));
    c.desc(format!("{} with {} vertices {:?} in frame {:?}", kind, p.len(), p, f));
    c.seen(&format!("{} {} {}", kind, p.len(), f.kind));
    let n = p.len();
    // every starting vertex and both orientations describe the same polygon
    for start in 0..n {
        let q: Vec<P2> = (0..n).map(|i| p[(i + start) % n]).collect();
        let l = loop_from(&f, &q).map_err(|e| Fail::Bad(format!("simple polygon refused (starting at vertex {}): {}", start, e)))?;
        ensure!(l.len() == n, "polygon of {} corners has {} vertices", n, l.len());
        check_loop(&l, area, per, f.n(), sc, &format!("starting at vertex {}", start))?;
        let rev: Vec<P2> = q.iter().rev().cloned().collect();
        let l2 = loop_from(&f, &rev).map_err(|e| Fail::Bad(format!("reversed polygon refused: {}", e)))?;
        check_loop(&l2, area, per, f.n() * -1., sc, "clockwise")?;
        let mut l3 = l.clone();
        l3.reverse();
        check_loop(&l3, area, per, f.n() * -1., sc, "after reverse")?;
        let av = area_vec(l3.vertices());
        ensure!(av * l3.normal() > 0., "after reverse, the normal disagrees with the vertex order");
        ensure!(l.get_reversed().vertices() == l3.vertices(), "get_reversed and reverse disagree");
        c.event("orientations", 3);
    }
    let l = loop_from(&f, &p).unwrap_or_default();
    // redundant points on the edges change nothing
    let mut dense: Vec<P2> = vec![];
    for i in 0..n {
        let (a, b) = (p[i], p[(i + 1) % n]);
        dense.push(a);
        for _ in 0..c.rng.below(3) {
            if let Some(last) = dense.last().cloned() {
                let t = c.rng.range(0.2, 0.8);
                let q = (last.0 + (b.0 - last.0) * t, last.1 + (b.1 - last.1) * t);
                if dist(q, last) > 0.02 && dist(q, b) > 0.02 {
                    dense.push(q);
                }
            }
        }
    }
    if dense.len() > n {
        let l2 = loop_from(&f, &dense).map_err(|e| Fail::Bad(format!("polygon with points along its edges refused: {}", e)))?;
        check_loop(&l2, area, per, f.n(), sc, "with redundant points along the edges")?;
        ensure!(l2.len() == n, "redundant points kept: {} vertices instead of {}", l2.len(), n);
        // starting on a redundant point
        let k = c.rng.below(dense.len());
        let d2: Vec<P2> = (0..dense.len()).map(|i| dense[(i + k) % dense.len()]).collect();
        let l2 = loop_from(&f, &d2).map_err(|e| Fail::Bad(format!("polygon starting on a redundant point refused: {}", e)))?;
        check_loop(&l2, area, per, f.n(), sc, "starting on a redundant point")?;
        c.event("redundant_points", 1);
    }
    // polygon built from it
    let poly = Polygon3D::new(l.clone()).map_err(|e| Fail::Bad(format!("polygon refused: {}", e)))?;
    ensure!(rel(poly.area(), area, sc * sc), "polygon area {} instead of {}", poly.area(), area);
    ensure!((poly.normal() - f.n()).length() < 1e-6, "polygon normal {}", poly.normal());
    let mut pr = poly.clone();
    pr.reverse();
    ensure!((pr.normal() + f.n()).length() < 1e-6 && rel(pr.area(), area, sc * sc), "reversed polygon: normal {} area {}", pr.normal(), pr.area());
    // bounding box
    let bb = l.bbox().map_err(|e| Fail::Bad(format!("bbox: {}", e)))?;
    for v in l.vertices() {
        ensure!(bb.point_inside(*v), "vertex {} outside the bounding box {:?}", v, bb);
    }
    for ax in 0..3 {
        let g = |p: &Point3D| [p.x, p.y, p.z][ax];
        let lo = l.vertices().iter().map(g).fold(f64::MAX, f64::min);
        let hi = l.vertices().iter().map(g).fold(f64::MIN, f64::max);
        ensure!(g(&bb.min) == lo && g(&bb.max) == hi, "bounding box is not tight: axis {}", ax);
    }
    // equality is independent of the first vertex and of orientation
    let k = c.rng.below(n);
    let q: Vec<P2> = (0..n).map(|i| p[(i + k) % n]).collect();
    let l2 = loop_from(&f, &q).map_err(Fail::Bad)?;
    ensure!(l.is_equal(&l2, 1e-3) == Ok(true), "same polygon with another first vertex is not equal");
    ensure!(l.is_equal(&l2.get_reversed(), 1e-3) == Ok(true), "same polygon reversed is not equal");
    let mut q2 = p.clone();
    let cen = (p.iter().map(|x| x.0).sum::<f64>() / n as f64, p.iter().map(|x| x.1).sum::<f64>() / n as f64);
    let j = c.rng.below(n);
    q2[j] = (p[j].0 + (p[j].0 - cen.0) * 0.2 + 0.01, p[j].1 + (p[j].1 - cen.1) * 0.2);
    if dist(q2[j], p[j]) > 0.01 {
        if let Ok(l3) = loop_from(&f, &q2) {
            ensure!(l.is_equal(&l3, 1e-3) == Ok(false), "different polygons are reported equal");
            c.event("unequal", 1);
        }
    }
    // projections
    let other = Frame { o: f.o + f.n() * c.rng.range(-3., 3.), ..f.clone() };
    if let Ok(mut moved) = loop_from(&other, &p) {
        let d = l.normal_distance(&moved).map_err(|e| Fail::Bad(format!("normal distance: {}", e)))?;
        let e = (f.o - other.o) * f.n();
        ensure!((d.abs() - e.abs()).abs() < 1e-9 * sc, "distance between parallel polygons is {} instead of {}", d, e);
        moved.project_into_plane(&l).map_err(|e| Fail::Bad(format!("projection: {}", e)))?;
        for (v, w) in moved.vertices().iter().zip(l.vertices()) {
            ensure!(v.distance(*w) < 1e-8 * sc, "projection of a vertex is {} instead of {}", v, w);
        }
    }
    Ok(())
}
/// loops that are not polygons are refused
fn bad_loops(c: &mut Case) -> R {
    let (p, kind) = good_poly(&mut c.rng);
    let f = Frame::random(&mut c.rng);
    let n = p.len();
    let how = c.rng.below(4);
    c.desc(format!("defect {} on {} {:?} frame {:?}", how, kind, p, f));
    c.seen(&format!("{} {} {} {}", how, kind, n, f.kind));
    let mut l = Loop3D::new();
    match how {
        0 => {
            // a vertex clearly off the plane
            let k = 3 + c.rng.below(n.max(4) - 3);
            if n < 4 {
                return Ok(());
            }
            let k = k.min(n - 1);
            let mut res = Ok(());
            for (i, q) in p.iter().enumerate() {
                let mut pt = f.at(*q);
                if i == k {
                    pt = pt + f.n() * (if c.rng.chance(0.5) { 1. } else { -1. } * c.rng.range(0.01, 1.));
                }
                res = l.push(pt);
                if res.is_err() {
                    break;
                }
            }
            let res = res.and_then(|_| l.close());
            ensure!(res.is_err(), "a polygon with vertex {} out of its plane was accepted", k);
            c.event("non_coplanar_refused", 1);
        }
        1 => {
            // self-intersecting: swap two consecutive vertices of a convex one
            let m = 5 + c.rng.below(5);
            let q: Vec<P2> = (0..m)
                .map(|i| {
                    let t = i as f64 / m as f64 * std::f64::consts::TAU;
                    (3. * t.cos(), 3. * t.sin())
                })
                .collect();
            let mut q = q;
            let k = c.rng.below(m);
            q.swap(k, (k + 1) % m);
            let rot = c.rng.below(m);
            q.rotate_left(rot);
            let r = loop_from(&f, &q);
            ensure!(r.is_err(), "a self-intersecting polygon was accepted: {:?}", q);
            c.event("crossed_refused", 1);
        }
        2 => {
            let r = loop_from(&f, &p[..2]);
            ensure!(r.is_err(), "a loop of two vertices was closed");
            let r = loop_from(&f, &[p[0], p[1], ((p[0].0 + p[1].0) / 2., (p[0].1 + p[1].1) / 2.)]);
            ensure!(r.is_err(), "a loop of collinear vertices was closed");
            c.event("degenerate_refused", 1);
        }
        _ => {
            let mut l = loop_from(&f, &p).map_err(|e| Fail::Bad(format!("simple polygon refused: {}", e)))?;
            let (a, nn) = (l.area(), l.len());
            ensure!(l.push(f.at((1e3, 1e3))).is_err(), "a point was added to a closed polygon");
            ensure!(l.area() == a && l.len() == nn, "refused push changed the polygon");
            let mut o = Loop3D::new();
            for q in &p {
                o.push(f.at(*q)).map_err(Fail::Bad)?;
            }
            ensure!(o.area().is_err() && o.perimeter().is_err() && o.test_point(f.at(p[0])).is_err() && Polygon3D::new(o.clone()).is_err(), "an open loop has area/perimeter/inside");
            c.event("closed_refused", 1);
        }
    }
    Ok(())
}

fn containment(c: &mut Case) -> R {
    let (p, kind) = good_poly(&mut c.rng);
    let f = Frame::random(&mut c.rng);
    let rev = c.rng.chance(0.5);
    let q: Vec<P2> = if rev { p.iter().rev().cloned().collect() } else { p.clone() };
    let l = loop_from(&f, &q).map_err(|e| Fail::Bad(format!("simple polygon refused: {}", e)))?;
    c.desc(format!("{} reversed={} {:?} frame {:?}", kind, rev, q, f));
    c.seen(&format!("{} {} {} {}", kind, p.len(), f.kind, rev));
    let lo = p.iter().fold((f64::MAX, f64::MAX), |a, b| (a.0.min(b.0), a.1.min(b.1)));
    let hi = p.iter().fold((f64::MIN, f64::MIN), |a, b| (a.0.max(b.0), a.1.max(b.1)));
    let ext = (hi.0 - lo.0).max(hi.1 - lo.1);
    let (mut ni, mut no) = (0, 0);
    for k in 0..60 {
        let m = (q[0].0 + q[1].0) / 2.;
        let m2 = (q[0].1 + q[1].1) / 2.;
        let x: P2 = match k % 6 {
            0 | 1 => (c.rng.range(lo.0 - 0.3 * ext, hi.0 + 0.3 * ext), c.rng.range(lo.1 - 0.3 * ext, hi.1 + 0.3 * ext)),
            2 => {
                // near an edge
                let i = c.rng.below(p.len());
                let t = c.rng.f();
                let (a, b) = (p[i], p[(i + 1) % p.len()]);
                let d = c.rng.range(-0.05, 0.05) * ext;
                let l = dist(a, b);
                (a.0 + t * (b.0 - a.0) - d * (b.1 - a.1) / l, a.1 + t * (b.1 - a.1) + d * (b.0 - a.0) / l)
            }
            3 => {
                // aligned with a vertex and with the middle of an edge
                let v = p[c.rng.below(p.len())];
                let i = c.rng.below(p.len());
                let (a, b) = (p[i], p[(i + 1) % p.len()]);
                let t = c.rng.range(-0.5, 1.5);
                ((a.0 + b.0) / 2. * (1. - t) + v.0 * t, (a.1 + b.1) / 2. * (1. - t) + v.1 * t)
            }
            4 => {
                // close to the middle of the first edge
                let a = c.rng.range(0., std::f64::consts::TAU);
                let d = c.rng.logu(3e-3, 0.3);
                (m + d * a.cos(), m2 + d * a.sin())
            }
            _ => (c.rng.pick(&p).0, c.rng.pick(&p).1), // grid aligned
        };
        let ed = edge_dist(x, &p);
        if ed < 2e-3 {
            continue;
        }
        let e = inside(x, &p);
        let g = l.test_point(f.at(x)).map_err(|e| Fail::Bad(format!("test_point failed: {}", e)))?;
        ensure!(g == e, "point {:?} (distance to the boundary {:.4}, class {}) reported {} the polygon {:?}", x, ed, k % 6, if g { "inside" } else { "outside" }, q);
        if e {
            ni += 1
        } else {
            no += 1
        }
        // off the plane
        let off = c.rng.range(0.01, 2.) * if c.rng.chance(0.5) { 1. } else { -1. };
        let g = l.test_point(f.at(x) + f.n() * off).map_err(|e| Fail::Bad(format!("test_point failed: {}", e)))?;
        ensure!(!g, "a point {} away from the plane is reported inside", off);
    }
    c.event("inside", ni);
    c.event("outside", no);
    Ok(())
}

/// place non-overlapping convex holes inside p
pub fn rnd_holes(r: &mut Rng, p: &[P2], maxn: usize) -> Vec<Vec<P2>> {
    let lo = p.iter().fold((f64::MAX, f64::MAX), |a, b| (a.0.min(b.0), a.1.min(b.1)));
    let hi = p.iter().fold((f64::MIN, f64::MIN), |a, b| (a.0.max(b.0), a.1.max(b.1)));
    let mut circles: Vec<(P2, f64)> = vec![];
    let mut out = vec![];
    for _ in 0..60 {
        if out.len() >= maxn {
            break;
        }
        let x = (r.range(lo.0, hi.0), r.range(lo.1, hi.1));
        if !inside(x, p) {
            continue;
        }
        let mut room = edge_dist(x, p);
        for (o, q) in &circles {
            room = room.min(dist(x, *o) - q);
        }
        let rad = room * r.range(0.4, 0.8);
        if room - rad < 0.06 || rad < 0.15 {
            continue;
        }
        let m = *r.pick(&[3usize, 4, 4, 5, 6, 7]);
        let ph = r.range(0., std::f64::consts::TAU);
        let mut h: Vec<P2> = (0..m)
            .map(|i| {
                let t = ph + (i as f64 + r.range(-0.2, 0.2)) / m as f64 * std::f64::consts::TAU;
                (x.0 + rad * t.cos(), x.1 + rad * t.sin())
            })
            .collect();
        if min_edge(&h) < 0.08 || min_turn(&h) < 5e-4 {
            continue;
        }
        if r.chance(0.5) {
            h.reverse();
        }
        circles.push((x, rad));
        out.push(h);
    }
    out
}

/// do the segments a-b and c-d cross away from their ends?
fn proper_cross(a: P2, b: P2, c: P2, d: P2) -> bool {
    let side = |p: P2, q: P2, x: P2| (q.0 - p.0) * (x.1 - p.1) - (q.1 - p.1) * (x.0 - p.0);
    side(a, b, c) * side(a, b, d) < 0. && side(c, d, a) * side(c, d, b) < 0.
}
fn holes(c: &mut Case) -> R {
    let (p, kind) = good_poly(&mut c.rng);
    let f = Frame::random(&mut c.rng);
    let rev = c.rng.chance(0.5);
    let q: Vec<P2> = if rev { p.iter().rev().cloned().collect() } else { p.clone() };
    let l = loop_from(&f, &q).map_err(|e| Fail::Bad(format!("simple polygon refused: {}", e)))?;
    let nh = 1 + c.rng.below(3);
    let hs = rnd_holes(&mut c.rng, &p, nh);
    c.desc(format!("{} {:?} holes {:?} frame {:?}", kind, q, hs, f));
    let sc = scale_of(&f, &p);
    let mut poly = Polygon3D::new(l).map_err(Fail::Bad)?;
    let mut exp = area2(&p);
    for (i, h) in hs.iter().enumerate() {
        let hl = loop_from(&f, h).map_err(|e| Fail::Bad(format!("hole loop refused: {}", e)))?;
        poly.cut_hole(hl).map_err(|e| Fail::Bad(format!("hole {} refused: {}", i, e)))?;
        exp -= area2(h).abs();
        ensure!((poly.area() - exp).abs() < 1e-9 * sc * sc, "after {} holes the area is {} instead of {}", i + 1, poly.area(), exp);
        ensure!(poly.n_inner_loops() == i + 1, "{} inner loops after cutting {}", poly.n_inner_loops(), i + 1);
    }
    c.event("holes", hs.len() as u64);
    c.seen(&format!("{} {} {} {:?}", kind, p.len(), f.kind, hs.iter().map(|h| h.len()).collect::<Vec<_>>()));
    // containment excludes the holes
    for _ in 0..40 {
        let x = if !hs.is_empty() && c.rng.chance(0.5) {
            let h = c.rng.pick(&hs).clone();
            let cc = (h.iter().map(|q| q.0).sum::<f64>() / h.len() as f64, h.iter().map(|q| q.1).sum::<f64>() / h.len() as f64);
            let v = h[c.rng.below(h.len())];
            let t = c.rng.range(0., 1.6);
            (cc.0 + (v.0 - cc.0) * t, cc.1 + (v.1 - cc.1) * t)
        } else {
            (c.rng.range(-3., 8.), c.rng.range(-3., 8.))
        };
        if edge_dist(x, &p) < 2e-3 || hs.iter().any(|h| edge_dist(x, h) < 2e-3) {
            continue;
        }
        let e = inside(x, &p) && !hs.iter().any(|h| inside(x, h));
        let g = poly.test_point(f.at(x)).map_err(Fail::Bad)?;
        ensure!(g == e, "point {:?} reported {} the polygon with holes", x, if g { "inside" } else { "outside" });
        c.event("points", 1);
    }
    // single closed loop (used for writing, serializing and triangulating): same region
    let cl = poly.get_closed_loop();
    let av = area_vec(cl.vertices());
    ensure!((av.length() / 2. - exp).abs() < 1e-9 * sc * sc, "the single closed loop encloses {} instead of {}", av.length() / 2., exp);
    ensure!(av * poly.normal() > 0., "the single closed loop faces the other way");
    let all: Vec<P2> = q.iter().cloned().chain(hs.iter().flatten().cloned()).collect();
    for x in &all {
        ensure!(cl.vertices().iter().any(|v| v.distance(f.at(*x)) < 1e-6), "vertex {:?} is missing from the single closed loop", x);
    }
    for v in cl.vertices() {
        ensure!(all.iter().any(|x| v.distance(f.at(*x)) < 1e-6), "the single closed loop has a vertex {} that is not in the polygon", v);
    }
    // JSON keeps the area and orientation
    if hs.len() <= 1 {
        let js = serde_json::to_string(&poly).map_err(|e| Fail::Bad(format!("serialize: {}", e)))?;
        let back: Polygon3D = serde_json::from_str(&js).map_err(|e| Fail::Bad(format!("cannot read back a polygon with {} holes: {}", hs.len(), e)))?;
        ensure!((back.area() - exp).abs() < 1e-6 * sc * sc, "JSON round trip changes the area from {} to {}", exp, back.area());
        ensure!((back.normal() - poly.normal()).length() < 1e-6, "JSON round trip changes the normal from {} to {}", poly.normal(), back.normal());
        c.event("json", 1);
    }
    // holes that do not fit are refused and change nothing
    let before = poly.area();
    let rad = c.rng.range(0.3, 1.0);
    let far = 20. * sc;
    let outside: Vec<P2> = (0..4).map(|i| (far + rad * (i as f64 * 1.5708).cos(), far + rad * (i as f64 * 1.5708).sin())).collect();
    let hl = loop_from(&f, &outside).map_err(Fail::Bad)?;
    ensure!(poly.cut_hole(hl).is_err(), "a hole outside the polygon was accepted");
    // sticking out through the boundary
    let v = p[c.rng.below(p.len())];
    let stick: Vec<P2> = (0..4).map(|i| (v.0 + 0.2 * (0.3 + i as f64 * 1.5708).cos(), v.1 + 0.2 * (0.3 + i as f64 * 1.5708).sin())).collect();
    if stick.iter().any(|x| !inside(*x, &p) && edge_dist(*x, &p) > 2e-3) {
        let hl = loop_from(&f, &stick).map_err(Fail::Bad)?;
        ensure!(poly.cut_hole(hl).is_err(), "a hole partly outside the polygon was accepted");
        c.event("refused", 1);
    }
    // swallowing or inside an existing hole
    for h in &hs {
        let cc = (h.iter().map(|q| q.0).sum::<f64>() / h.len() as f64, h.iter().map(|q| q.1).sum::<f64>() / h.len() as f64);
        let small: Vec<P2> = h.iter().map(|v| (cc.0 + (v.0 - cc.0) * 0.6, cc.1 + (v.1 - cc.1) * 0.6)).collect();
        if min_edge(&small) > 0.06 {
            let hl = loop_from(&f, &small).map_err(Fail::Bad)?;
            ensure!(poly.cut_hole(hl).is_err(), "a hole inside another hole was accepted");
        }
        let big: Vec<P2> = h.iter().map(|v| (cc.0 + (v.0 - cc.0) * 1.05, cc.1 + (v.1 - cc.1) * 1.05)).collect();
        let hl = loop_from(&f, &big).map_err(Fail::Bad)?;
        ensure!(poly.cut_hole(hl).is_err(), "a hole that swallows another hole was accepted");
        c.event("refused", 2);
    }
    // a strip whose corners fit, but whose sides cross those of another hole or of the polygon
    for _ in 0..6 {
        let (a, wid) = if !hs.is_empty() && c.rng.chance(0.5) {
            let h = c.rng.pick(&hs);
            ((h.iter().map(|q| q.0).sum::<f64>() / h.len() as f64, h.iter().map(|q| q.1).sum::<f64>() / h.len() as f64), 0.05)
        } else if c.rng.chance(0.5) {
            ((c.rng.range(-3., 8.), c.rng.range(-3., 8.)), 0.05)
        } else {
            (p[c.rng.below(p.len())], c.rng.range(0.05, 0.5))
        };
        let t = c.rng.range(0., std::f64::consts::TAU);
        let (u, v) = ((t.cos(), t.sin()), (-t.sin(), t.cos()));
        let (m, n) = (c.rng.logu(0.2, 4.), c.rng.logu(0.2, 4.));
        let strip: Vec<P2> = [(-m, -wid), (n, -wid), (n, wid), (-m, wid)].iter().map(|k| (a.0 + u.0 * k.0 + v.0 * k.1, a.1 + u.1 * k.0 + v.1 * k.1)).collect();
        let clear = |q: &[P2]| strip.iter().all(|x| edge_dist(*x, q) > 0.02) && q.iter().all(|x| edge_dist(*x, &strip) > 0.02);
        if !clear(&p) || !hs.iter().all(|h| clear(h)) || strip.iter().any(|x| !inside(*x, &p) || hs.iter().any(|h| inside(*x, h))) {
            continue;
        }
        let crosses = |q: &[P2]| (0..4).any(|i| (0..q.len()).any(|j| proper_cross(strip[i], strip[(i + 1) % 4], q[j], q[(j + 1) % q.len()])));
        let (over, out) = (hs.iter().any(|h| crosses(h)), crosses(&p));
        let swallows = hs.iter().any(|h| inside(h[0], &strip));
        let hl = loop_from(&f, &strip).map_err(Fail::Bad)?;
        if over || out {
            ensure!(poly.cut_hole(hl).is_err(), "a hole with sides that cross {} was accepted: {:?}", if out { "those of the polygon" } else { "another hole" }, strip);
            c.event(if out { "crosses_polygon" } else { "crosses_hole" }, 1);
        } else if !swallows {
            let mut other = poly.clone();
            ensure!(other.cut_hole(hl).is_ok(), "a hole that fits was refused: {:?}", strip);
            ensure!((other.area() - before + 2. * wid * (m + n)).abs() < 1e-9 * sc * sc, "the hole {:?} changes the area from {} to {}", strip, before, other.area());
            c.event("strip_fits", 1);
        }
    }
    ensure!(poly.area() == before && poly.n_inner_loops() == hs.len(), "a refused hole changed the polygon");
    Ok(())
}

/// oracle: the triangles tile the region exactly
fn check_tiling(c: &mut Case, t: &Triangulation3D, f: &Frame, p: &[P2], hs: &[Vec<P2>], what: &str) -> R {
    let exp = area2(p) - hs.iter().map(|h| area2(h).abs()).sum::<f64>();
    let sc = scale_of(f, p);
    let tris = t.get_trilist();
    ensure!(tris.len() == t.n_triangles() && t.n_valid_triangles() == t.n_triangles(), "{}: {} triangles listed, {} counted, {} valid", what, tris.len(), t.n_triangles(), t.n_valid_triangles());
    let mut sum = 0.0;
    let mut t2 = vec![];
    for tr in &tris {
        let q: Vec<P2> = [tr.a(), tr.b(), tr.c()].iter().map(|v| f.to2(*v)).collect();
        for v in [tr.a(), tr.b(), tr.c()] {
            ensure!(f.off(v).abs() < 1e-6 * sc, "{}: triangle vertex off the plane by {}", what, f.off(v));
        }
        let a = area2(&q);
        ensure!((a.abs() - tr.area()).abs() < 1e-6 * sc, "{}: triangle reports an area of {} instead of {}", what, tr.area(), a);
        sum += a.abs();
        t2.push(q);
    }
    ensure!((sum - exp).abs() < 1e-6 * sc * sc, "{}: {} triangles add up to {} but the polygon's area is {}", what, tris.len(), sum, exp);
    // pointwise: inside points are covered exactly once, outside ones never
    let lo = p.iter().fold((f64::MAX, f64::MAX), |a, b| (a.0.min(b.0), a.1.min(b.1)));
    let hi = p.iter().fold((f64::MIN, f64::MIN), |a, b| (a.0.max(b.0), a.1.max(b.1)));
    for _ in 0..60 {
        let x = (c.rng.range(lo.0, hi.0), c.rng.range(lo.1, hi.1));
        if edge_dist(x, p) < 1e-3 || hs.iter().any(|h| edge_dist(x, h) < 1e-3) {
            continue;
        }
        let e = inside(x, p) && !hs.iter().any(|h| inside(x, h));
        let mut cover = 0;
        let mut on_edge = false;
        for q in &t2 {
            if edge_dist(x, q) < 1e-6 {
                on_edge = true;
            }
            if inside(x, q) {
                cover += 1;
            }
        }
        if on_edge {
            continue;
        }
        ensure!(cover == e as usize, "{}: point {:?} ({}) is covered by {} triangles", what, x, if e { "inside" } else { "outside" }, cover);
        c.event("cover_points", 1);
    }
    c.event("triangles", tris.len() as u64);
    Ok(())
}

/// three corners that a tolerance takes for aligned, but are not
fn almost_aligned(p: &[P2], hs: &[Vec<P2>]) -> bool {
    let all: Vec<P2> = p.iter().chain(hs.iter().flatten()).cloned().collect();
    for i in 0..all.len() {
        for j in 0..i {
            for k in 0..j {
                let (a, b, c) = (all[i], all[j], all[k]);
                let x = ((b.0 - a.0) * (c.1 - b.1) - (b.1 - a.1) * (c.0 - b.0)).abs();
                if x > 1e-10 && x < 2e-5 {
                    return true;
                }
            }
        }
    }
    false
}

fn triangulate(c: &mut Case) -> R {
    let (p, kind) = good_poly(&mut c.rng);
    let f = Frame::random(&mut c.rng);
    let rev = c.rng.chance(0.5);
    let q: Vec<P2> = if rev { p.iter().rev().cloned().collect() } else { p.clone() };
    let nh = c.rng.below(4);
    let hs = rnd_holes(&mut c.rng, &p, nh);
    c.desc(format!("{} {:?} holes {:?} frame {:?}", kind, q, hs, f));
    c.seen(&format!("{} {} {} {:?}", kind, p.len(), f.kind, hs.iter().map(|h| h.len()).collect::<Vec<_>>()));
    let l = loop_from(&f, &q).map_err(|e| Fail::Bad(format!("simple polygon refused: {}", e)))?;
    let mut poly = Polygon3D::new(l).map_err(Fail::Bad)?;
    for h in &hs {
        let hl = loop_from(&f, h).map_err(Fail::Bad)?;
        poly.cut_hole(hl).map_err(Fail::Bad)?;
    }
    match Triangulation3D::try_from(&poly) {
        Ok(t) => {
            check_tiling(c, &t, &f, &p, &hs, "triangulation")?;
            let nv = p.len() + hs.iter().map(|h| h.len() + 2).sum::<usize>();
            if hs.is_empty() {
                ensure!(t.n_triangles() == nv - 2, "{} triangles for a polygon of {} corners", t.n_triangles(), nv);
            }
            for tr in t.get_trilist() {
                ensure!(tr.normal() * poly.normal() > 0.9, "a triangle faces the other way than its polygon");
            }
            c.event("triangulated", 1);
            if !hs.is_empty() {
                c.event("triangulated_with_holes", 1);
            }
        }
        Err(e) => {
            // only polygons with several holes may be refused (documented as "not 100% guaranteed"),
            // and those whose corners are almost, but not quite, aligned
            ensure!(hs.len() > 1 || almost_aligned(&p, &hs), "triangulation failed: {}", e);
            c.event("several_holes_refused", 1);
        }
    }
    Ok(())
}

fn mesh(c: &mut Case) -> R {
    let (p, kind) = good_poly(&mut c.rng);
    let f = Frame::random(&mut c.rng);
    let nh = c.rng.below(2);
    let hs = rnd_holes(&mut c.rng, &p, nh);
    let maxa = area2(&p) / c.rng.range(2., 30.);
    let maxar = c.rng.range(1.5, 5.);
    c.desc(format!("mesh max_area={} max_aspect={} {} {:?} holes {:?} frame {:?}", maxa, maxar, kind, p, hs, f));
    c.seen(&format!("{} {} {} {:?}", kind, p.len(), f.kind, hs.iter().map(|h| h.len()).collect::<Vec<_>>()));
    let l = loop_from(&f, &p).map_err(|e| Fail::Bad(format!("simple polygon refused: {}", e)))?;
    let mut poly = Polygon3D::new(l).map_err(Fail::Bad)?;
    for h in &hs {
        let hl = loop_from(&f, h).map_err(Fail::Bad)?;
        poly.cut_hole(hl).map_err(Fail::Bad)?;
    }
    match Triangulation3D::mesh_polygon(&poly, maxa, maxar) {
        Ok(t) => {
            check_tiling(c, &t, &f, &p, &hs, "mesh")?;
            c.event("meshed", 1);
        }
        Err(e) => {
            c.event("mesh_refused", 1);
            let _ = e;
        }
    }
    Ok(())
}

/// half-plane clip of a simple polygon's area (reference): area of the part to the left of a->b,
/// computed by trapezoid-free decomposition: clip each edge against the line and use Green's theorem
fn area_left(p: &[P2], a: P2, b: P2) -> f64 {
    // rotate so that the line is y = 0 and 'left' is y > 0
    let l = dist(a, b);
    let (ux, uy) = ((b.0 - a.0) / l, (b.1 - a.1) / l);
    let q: Vec<P2> = p.iter().map(|v| ((v.0 - a.0) * ux + (v.1 - a.1) * uy, -(v.0 - a.0) * uy + (v.1 - a.1) * ux)).collect();
    // area above y=0 = -∮ max(y,0) dx
    let n = q.len();
    let mut s = 0.0;
    for i in 0..n {
        let (p0, p1) = (q[i], q[(i + 1) % n]);
        let dx = p1.0 - p0.0;
        // integrate max(y,0) along the edge
        let (y0, y1) = (p0.1, p1.1);
        let m = if y0 >= 0. && y1 >= 0. {
            (y0 + y1) / 2.
        } else if y0 <= 0. && y1 <= 0. {
            0.
        } else if y0 > 0. {
            y0 / 2. * (y0 / (y0 - y1))
        } else {
            y1 / 2. * (y1 / (y1 - y0))
        };
        s -= m * dx;
    }
    s
}

fn split(c: &mut Case) -> R {
    // convex polygons split by a segment that crosses them completely
    let n = 3 + c.rng.below(8);
    let s = *c.rng.pick(&[1.0, 4.0]);
    let p: Vec<P2> = if c.rng.chance(0.3) {
        let (w, h) = (c.rng.range(1., 4.) * s, c.rng.range(1., 4.) * s);
        vec![(0., 0.), (w, 0.), (w, h), (0., h)]
    } else {
        (0..n)
            .map(|i| {
                let t = (i as f64 + c.rng.range(-0.3, 0.3)) / n as f64 * std::f64::consts::TAU;
                (2. * s * t.cos(), 1.5 * s * t.sin())
            })
            .collect()
    };
    if min_edge(&p) < 0.2 || min_turn(&p) < 1e-2 {
        return Ok(());
    }
    let n = p.len();
    let f = Frame::random(&mut c.rng);
    let (i, j) = (c.rng.below(n), c.rng.below(n));
    if i == j {
        return Ok(());
    }
    let at = |k: usize, t: f64| (p[k].0 + (p[(k + 1) % n].0 - p[k].0) * t, p[k].1 + (p[(k + 1) % n].1 - p[k].1) * t);
    let (x, y) = (at(i, c.rng.range(0.15, 0.85)), at(j, c.rng.range(0.15, 0.85)));
    if dist(x, y) < 0.1 {
        return Ok(());
    }
    let ext = c.rng.range(0.2, 2.);
    let d = dist(x, y);
    let (ux, uy) = ((y.0 - x.0) / d, (y.1 - x.1) / d);
    let (a, b) = ((x.0 - ux * ext, x.1 - uy * ext), (y.0 + ux * ext, y.1 + uy * ext));
    let l = loop_from(&f, &p).map_err(|e| Fail::Bad(format!("convex polygon refused: {}", e)))?;
    c.desc(format!("split {:?} by {:?}-{:?} frame {:?}", p, a, b, f));
    c.seen(&format!("{} {} {} {}", n, i, j, f.kind));
    let parts = l.split(&Segment3D::new(f.at(a), f.at(b))).map_err(|e| Fail::Bad(format!("split failed: {}", e)))?;
    ensure!(parts.len() == 2, "a segment that crosses the whole polygon splits it into {} parts", parts.len());
    let left = area_left(&p, a, b);
    let total = area2(&p);
    let mut areas: Vec<f64> = parts.iter().map(|q| q.area().unwrap_or(-1.)).collect();
    areas.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let mut exp = vec![left, total - left];
    exp.sort_by(|a, b| a.partial_cmp(b).unwrap());
    for (g, e) in areas.iter().zip(&exp) {
        ensure!((g - e).abs() < 1e-4 * total, "parts have areas {:?} instead of {:?}", areas, exp);
    }
    for q in &parts {
        ensure!((q.normal() - l.normal()).length() < 1e-5, "a part faces another way");
    }
    c.event("split", 1);
    // a segment that does not reach the polygon leaves it whole
    let far = 30. * s;
    let parts = l.split(&Segment3D::new(f.at((far, 0.)), f.at((far, far)))).map_err(|e| Fail::Bad(format!("split failed: {}", e)))?;
    ensure!(parts.len() == 1 && (parts[0].area().unwrap_or(0.) - total).abs() < 1e-9 * total.max(1.), "a segment far away changed the polygon");
    // several cutters at once conserve the area
    let cut2: Vec<Segment3D> = (0..3)
        .map(|_| {
            let t = c.rng.range(0., std::f64::consts::TAU);
            let o = (c.rng.range(-0.5, 0.5), c.rng.range(-0.5, 0.5));
            Segment3D::new(f.at((o.0 - far * t.cos(), o.1 - far * t.sin())), f.at((o.0 + far * t.cos(), o.1 + far * t.sin())))
        })
        .collect();
    if let Ok(ps) = l.split_from_slice(&cut2) {
        let s: f64 = ps.iter().map(|q| q.area().unwrap_or(f64::NAN)).sum();
        ensure!((s - total).abs() < 1e-2 * total, "the {} parts of several cuts add up to {} instead of {}", ps.len(), s, total);
        c.event("multi_split", 1);
    }
    Ok(())
}

pub static PROPS: &[&Prop] = &[
    &Prop {
        id: "G01",
        rule: "random simple polygons (rectangles, L, U, combs, triangles, convex, star-shaped) in random planes (axis-aligned, vertical, facing down, tilted, far from the origin), built from every first vertex, in both orientations and with redundant points; compared with 2-D shoelace area/perimeter and the right-hand normal. Malformed loops (self-crossing, non-coplanar, degenerate, closed/open misuse) must be refused. Non-trivial: distinct (shape, corners, plane).",
        assumptions: &["edges of at least 0.12 m and corners clearly not collinear: the library merges points closer than 1 mm by design"],
        workloads: &[
            wl("loops", 2500, 40000, loops).need(&[("orientations", 1000), ("redundant_points", 300), ("unequal", 300)]),
            wl("bad_loops", 3000, 40000, bad_loops).need(&[("non_coplanar_refused", 200), ("crossed_refused", 200), ("degenerate_refused", 200), ("closed_refused", 200)]),
        ],
    },
    &Prop {
        id: "G02",
        rule: "random simple polygons as in G01 and, for each, 60 query points: uniform, hugging edges, aligned with vertices and edge midpoints, near the first edge's midpoint, off-plane; the answer is compared with a winding-number oracle. Non-trivial: distinct (shape, corners, plane, orientation).",
        assumptions: &["points closer than 2 mm to the boundary are not judged (library tolerance)"],
        workloads: &[wl("containment", 4000, 60000, containment).need(&[("inside", 5000), ("outside", 5000)])],
    },
    &Prop {
        id: "G03",
        rule: "random simple polygons with 0-3 holes triangulated and meshed; total area, per-point coverage (inside exactly once, outside never), orientation, triangle limits. Non-trivial: distinct (shape, corners, plane, hole corners).",
        assumptions: &["holes keep at least 6 cm to each other and to the boundary"],
        workloads: &[
            wl("triangulate", 3000, 40000, triangulate).need(&[("triangulated", 500), ("triangulated_with_holes", 200), ("cover_points", 5000)]),
            wl("mesh", 300, 4000, mesh).need(&[("meshed", 50)]),
        ],
    },
    &Prop {
        id: "G04",
        rule: "random simple polygons with 1-3 holes of 3-7 corners in either orientation; area, containment, the single closed loop, JSON round trip, and refusal of misplaced holes. Non-trivial: distinct (shape, corners, plane, hole corners).",
        assumptions: &["holes keep at least 6 cm to each other and to the boundary"],
        workloads: &[wl("holes", 3000, 40000, holes).need(&[("holes", 1000), ("refused", 500), ("points", 5000), ("crosses_hole", 500), ("crosses_polygon", 500), ("strip_fits", 500)])],
    },
    &Prop {
        id: "G08",
        rule: "random convex polygons split by segments that cross them completely; areas of the two parts against half-plane clipping. Non-trivial: distinct (corners, crossed edges, plane).",
        assumptions: &["convex polygons; the cut avoids corners"],
        workloads: &[wl("split", 4000, 50000, split).need(&[("split", 1000)])],
    },
];
