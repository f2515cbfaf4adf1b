//! C01, C02, C03: predicates, measures, segment intersection.
use crate::elements::bounding_box::BoundingBox;
use crate::elements::vertex::Vertex;
use std::rc::Rc;

/// the one tolerance of the library
pub const EPS: f64 = 1.0e-14;

/// zero to within the tolerance
pub fn zero(x: f64) -> bool {
    x.abs() <= EPS
}

/// z-component of (b - a) x (c - a)
fn cross(a: &Vertex, b: &Vertex, c: &Vertex) -> f64 {
    (b.x - a.x) * (c.y - a.y) - (b.y - a.y) * (c.x - a.x)
}

pub mod orientation {
    use super::*;
    #[derive(PartialEq, Debug)]
    pub enum Orientation {
        Counterclockwise,
        Clockwise,
        Colinear,
    }
    pub fn orientation(a: &Vertex, b: &Vertex, c: &Vertex) -> Orientation {
        let turn = cross(a, b, c);
        match (zero(turn), turn > 0.0) {
            (true, _) => Orientation::Colinear,
            (false, true) => Orientation::Counterclockwise,
            (false, false) => Orientation::Clockwise,
        }
    }
}

pub mod continence {
    use super::*;
    #[derive(PartialEq, Debug)]
    pub enum Continence {
        Inside,
        Outside,
        Boundary,
    }
    #[derive(PartialEq, Debug)]
    pub enum BoundaryInclusion {
        Open,
        Closed,
    }
    /// in-circumcircle test, relative to d, in its 3x3 form
    pub fn continence(a: &Vertex, b: &Vertex, c: &Vertex, d: &Vertex) -> Continence {
        let row = |p: &Vertex| {
            let (dx, dy) = (p.x - d.x, p.y - d.y);
            (dx, dy, dx * dx + dy * dy)
        };
        let (p, q, r) = (row(a), row(b), row(c));
        let lifted = p.2 * (q.0 * r.1 - q.1 * r.0) - q.2 * (p.0 * r.1 - p.1 * r.0)
            + r.2 * (p.0 * q.1 - p.1 * q.0);
        if zero(lifted) {
            Continence::Boundary
        } else if lifted > 0.0 {
            Continence::Inside
        } else {
            Continence::Outside
        }
    }
}

pub mod encroachment {
    use super::continence::Continence;
    use super::*;
    /// diametral circle: the angle at the vertex is obtuse exactly inside
    pub fn encroach(v1: &Vertex, v2: &Vertex, vertex: &Vertex) -> Continence {
        let dot = (v1.x - vertex.x) * (v2.x - vertex.x) + (v1.y - vertex.y) * (v2.y - vertex.y);
        if zero(dot) {
            Continence::Boundary
        } else if dot < 0.0 {
            Continence::Inside
        } else {
            Continence::Outside
        }
    }
}

pub mod parallel {
    use super::*;
    pub fn parallel(a: &Vertex, b: &Vertex, c: &Vertex, d: &Vertex) -> bool {
        (b.x - a.x) * (d.y - c.y) == (b.y - a.y) * (d.x - c.x)
    }
}

pub mod distance {
    use super::*;
    pub fn distance(v1: &Vertex, v2: &Vertex) -> f64 {
        let (dx, dy) = (v2.x - v1.x, v2.y - v1.y);
        (dx * dx + dy * dy).sqrt()
    }
}

pub mod dot {
    use super::*;
    pub fn dot(a: &Vertex, b: &Vertex, c: &Vertex, d: &Vertex) -> f64 {
        (b.x - a.x) * (d.x - c.x) + (b.y - a.y) * (d.y - c.y)
    }
}

pub mod midpoint {
    use super::*;
    pub fn midpoint(v1: &Vertex, v2: &Vertex) -> Vertex {
        if !v1.is_ghost && !v2.is_ghost {
            Vertex { x: 0.5 * (v1.x + v2.x), y: 0.5 * (v1.y + v2.y), is_ghost: false }
        } else {
            Vertex::new_ghost()
        }
    }
}

pub mod area {
    use super::*;
    pub fn area_triangle(v1: &Vertex, v2: &Vertex, v3: &Vertex) -> f64 {
        cross(v1, v2, v3) / 2.0
    }
    /// trapezoid formula; positive for clockwise outlines
    pub fn area_segments(segments_list: &Vec<(Rc<Vertex>, Rc<Vertex>)>) -> f64 {
        segments_list.iter().map(|(p, q)| 0.5 * (q.x - p.x) * (p.y + q.y)).sum()
    }
}

pub mod circumcenter {
    use super::*;
    /// equidistant point: 2 (p - v1) . u = |u|^2 for both sides u at v1
    pub fn circumcenter(v1: &Vertex, v2: &Vertex, v3: &Vertex) -> Option<Vertex> {
        let (ax, ay) = (v2.x - v1.x, v2.y - v1.y);
        let (bx, by) = (v3.x - v1.x, v3.y - v1.y);
        let det = ax * by - ay * bx;
        if det == 0.0 {
            return None;
        }
        let (a2, b2) = (ax * ax + ay * ay, bx * bx + by * by);
        Some(Vertex::new(
            v1.x + (by * a2 - ay * b2) / (2.0 * det),
            v1.y + (ax * b2 - bx * a2) / (2.0 * det),
        ))
    }
}

pub mod angle {
    use super::orientation::*;
    use super::*;
    /// the angle a-b-c swept counterclockwise turning: reflex when a, b, c turn clockwise
    pub fn angle(a: &Vertex, b: &Vertex, c: &Vertex) -> Option<f64> {
        let (ux, uy, wx, wy) = (a.x - b.x, a.y - b.y, c.x - b.x, c.y - b.y);
        let theta = ((ux * wx + uy * wy)
            / ((ux * ux + uy * uy).sqrt() * (wx * wx + wy * wy).sqrt()))
        .acos();
        Some(match orientation(a, b, c) {
            Orientation::Clockwise => 2.0 * std::f64::consts::PI - theta,
            _ => theta,
        })
    }
}

pub mod intersection {
    use super::*;
    fn within(low: f64, value: f64, high: f64) -> bool {
        (low <= value && value <= high) || zero(low - value) || zero(high - value)
    }
    pub fn intersection(
        v1: &Rc<Vertex>,
        v2: &Rc<Vertex>,
        v3: &Rc<Vertex>,
        v4: &Rc<Vertex>,
    ) -> Option<Vertex> {
        let overlap = intersection_region(v1, v2, v3, v4)?;
        intersection_vertex(v1, v2, v3, v4, &overlap).filter(|p| {
            within(overlap.origin.x, p.x, overlap.destin.x)
                && within(overlap.origin.y, p.y, overlap.destin.y)
        })
    }
    fn intersection_region(
        v1: &Rc<Vertex>,
        v2: &Rc<Vertex>,
        v3: &Rc<Vertex>,
        v4: &Rc<Vertex>,
    ) -> Option<BoundingBox> {
        let of = |p: &Rc<Vertex>, q: &Rc<Vertex>| {
            BoundingBox::from_vertices(vec![p.clone(), q.clone()]).unwrap()
        };
        BoundingBox::intersection(&of(v1, v2), &of(v3, v4))
    }
    /// common point of the two lines; for parallel lines the middle of the box if on both
    fn intersection_vertex(
        v1: &Rc<Vertex>,
        v2: &Rc<Vertex>,
        v3: &Rc<Vertex>,
        v4: &Rc<Vertex>,
        bbox: &BoundingBox,
    ) -> Option<Vertex> {
        let (ux, uy) = (v2.x - v1.x, v2.y - v1.y);
        let (wx, wy) = (v4.x - v3.x, v4.y - v3.y);
        let det = ux * wy - uy * wx;
        if det == 0.0 {
            let middle = super::midpoint::midpoint(
                &Vertex::new(bbox.origin.x, bbox.origin.y),
                &Vertex::new(bbox.destin.x, bbox.destin.y),
            );
            let on_both = zero(cross(v1, v2, &middle)) && zero(cross(v3, v4, &middle));
            return if on_both { Some(middle) } else { None };
        }
        let t = ((v3.x - v1.x) * wy - (v3.y - v1.y) * wx) / det;
        Some(Vertex::new(v1.x + t * ux, v1.y + t * uy))
    }
}
