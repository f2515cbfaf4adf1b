//! C08 - C11: outlines.
use crate::elements::{bounding_box::BoundingBox, edge::Edge, triangle::Triangle, vertex::Vertex};
use crate::properties::angle::angle;
use crate::properties::area::area_segments;
use crate::properties::dot::dot;
use crate::properties::midpoint::midpoint;
use crate::properties::continence::{BoundaryInclusion, Continence};
use crate::properties::intersection::intersection;
use crate::properties::orientation::{orientation, Orientation};
use crate::properties::parallel::parallel;
use std::collections::{HashMap, HashSet};
use std::rc::Rc;

#[derive(Hash)]
pub struct Polyline {
    pub vertices: Vec<Rc<Vertex>>,
    pub opened: bool,
}

impl PartialEq for Polyline {
    fn eq(&self, other: &Self) -> bool {
        self.opened == other.opened && self.vertices == other.vertices
    }
}
impl Eq for Polyline {}

type Pair = (Rc<Vertex>, Rc<Vertex>);

fn split_both(first: &Vec<Pair>, second: &Vec<Pair>) -> Vec<Pair> {
    split_intersections(&first.iter().chain(second.iter()).cloned().collect())
}

/// pieces that start where this one ends, other than the way back
fn continuations(here: &Pair, pieces: &HashSet<Pair>) -> Vec<Pair> {
    pieces
        .iter()
        .filter(|(from, to)| here.1 == *from && here.0 != *from && here.0 != *to && here.1 != *to)
        .cloned()
        .collect()
}

/// pieces of opposite direction that overlap cancel where one continues the other or lies outside an outline
fn uncancelled(p1: &Polyline, p2: &Polyline, pieces: Vec<Pair>, unused: &mut HashSet<Pair>) -> Vec<Pair> {
    let out = |v: &Rc<Vertex>| {
        p1.contains(v).unwrap() == Continence::Outside || p2.contains(v).unwrap() == Continence::Outside
    };
    let mut waiting = pieces;
    let mut kept: Vec<Pair> = vec![waiting.pop().unwrap()];
    while let Some((v1, v2)) = waiting.pop() {
        let partner = kept.iter().position(|(v3, v4)| {
            if intersection(&v1, &v2, v3, v4).is_none() {
                return false;
            }
            let reaches_out = out(&v1) || out(&v2) || out(v3) || out(v4);
            parallel(&v1, &v2, v3, v4)
                && dot(&v1, &v2, v3, v4) < 0.0
                && (v1 == *v4 || v2 == *v3 || reaches_out)
        });
        if let Some(at) = partner {
            let (v3, v4) = kept.remove(at);
            unused.insert((v1.clone(), v2.clone()));
            unused.insert((v3.clone(), v4.clone()));
            if v2 != v3 && (v1 == v4 || out(&v1) || out(&v4)) {
                waiting.push((v3.clone(), v2.clone()));
            }
            if v1 != v4 && (v2 == v3 || out(&v2) || out(&v3)) {
                waiting.push((v1.clone(), v4.clone()));
            }
        } else {
            kept.push((v1, v2));
        }
    }
    kept
}

impl Polyline {
    pub fn new_closed(vertex_list: Vec<Rc<Vertex>>) -> Option<Self> {
        if vertex_list.len() >= 3 { Some(Self { opened: false, vertices: vertex_list }) } else { None }
    }
    pub fn new_opened(vertex_list: Vec<Rc<Vertex>>) -> Option<Self> {
        if vertex_list.len() >= 2 { Some(Self { opened: true, vertices: vertex_list }) } else { None }
    }
    pub fn head(&self) -> Option<Rc<Vertex>> {
        if self.opened { Some(self.vertices[0].clone()) } else { None }
    }
    pub fn tail(&self) -> Option<Rc<Vertex>> {
        if self.opened { Some(self.vertices.last().unwrap().clone()) } else { None }
    }
    pub fn bounding_box(&self) -> Option<BoundingBox> {
        BoundingBox::from_vertices(self.vertices.clone())
    }
    pub fn into_edges(&self) -> Vec<Rc<Edge>> {
        Edge::from_vertex_pairs(vertex_pairs(&self.vertices, self.opened))
    }

    /// follow successors from any vertex; closed exactly when every edge was used
    pub fn arrange(edges: &HashSet<Rc<Edge>>) -> Option<Self> {
        let next: HashMap<Rc<Vertex>, Rc<Vertex>> =
            edges.iter().map(|e| (e.v1.clone(), e.v2.clone())).collect();
        let start = next.keys().next().unwrap().clone();
        let mut chain = vec![start.clone()];
        let mut at = start.clone();
        while let Some(to) = next.get(&at) {
            if *to == start {
                break;
            }
            at = to.clone();
            chain.push(at.clone());
        }
        if chain.len() == edges.len() { Some(Polyline::new_closed(chain).unwrap()) } else { None }
    }

    /// keep a vertex exactly when it is not colinear with its neighbours; ends stay
    pub fn minified_noncolinear(&self) -> Self {
        let first = self.vertices.first().unwrap().clone();
        let last = self.vertices.last().unwrap().clone();
        let mut ring: Vec<Rc<Vertex>> = Vec::new();
        if !self.opened {
            ring.push(last.clone());
        }
        ring.extend(self.vertices.iter().cloned());
        if !self.opened {
            ring.push(first.clone());
        }
        let kept = (1..ring.len() - 1)
            .filter(|&i| orientation(&ring[i - 1], &ring[i], &ring[i + 1]) != Orientation::Colinear)
            .map(|i| ring[i].clone());
        if self.opened {
            let mut ends = vec![first];
            ends.extend(kept);
            ends.push(last);
            Polyline::new_opened(ends).unwrap()
        } else {
            Polyline::new_closed(kept.collect()).unwrap()
        }
    }

    /// signed crossings of the vertical line through the point, in half units
    pub fn contains(&self, vertex: &Vertex) -> Option<Continence> {
        if self.opened {
            return None;
        }
        let mut crossings: isize = 0;
        for (a, b) in vertex_pairs(&self.vertices, false) {
            if a.x == b.x {
                let between = (a.y <= vertex.y && vertex.y <= b.y) || (b.y <= vertex.y && vertex.y <= a.y);
                if a.x == vertex.x && between {
                    return Some(Continence::Boundary);
                }
            } else if !(a.x < vertex.x && b.x < vertex.x) && !(vertex.x < a.x && vertex.x < b.x) {
                let weight = if a.x == vertex.x || b.x == vertex.x { 1 } else { 2 };
                let side = orientation(&a, &b, vertex);
                if side == Orientation::Colinear {
                    return Some(Continence::Boundary);
                }
                crossings += if side == Orientation::Counterclockwise { weight } else { -weight };
            }
        }
        Some(if crossings == 0 { Continence::Outside } else { Continence::Inside })
    }

    /// every vertex and edge midpoint of p2, every midpoint of the mutually cut pieces
    pub fn continence(p1: &Self, p2: &Self) -> Option<(Continence, BoundaryInclusion)> {
        if p1.opened {
            return None;
        }
        let mut side: Option<Continence> = None;
        let mut touches = false;
        let mut points: Vec<Rc<Vertex>> = Vec::new();
        for edge in p2.into_edges() {
            points.push(Rc::new(edge.midpoint()));
            points.push(edge.v1.clone());
        }
        if let Some(end) = p2.tail() {
            points.push(end);
        }
        for point in points {
            let here = p1.contains(&point).unwrap();
            if here == Continence::Boundary {
                touches = true;
            } else if side.is_none() {
                side = Some(here);
            } else if side != Some(here) {
                return None;
            }
        }
        let mut outlines = vertex_pairs(&p1.vertices, p1.opened);
        outlines.extend(vertex_pairs(&p2.vertices, p2.opened));
        for (a, b) in split_intersections(&outlines) {
            let here = p1.contains(&Edge::new(&a, &b).midpoint()).unwrap();
            if here != Continence::Boundary && side != Some(here) {
                return None;
            }
        }
        match (touches, side) {
            (true, None) => Some((Continence::Boundary, BoundaryInclusion::Closed)),
            (true, side) => Some((side.unwrap(), BoundaryInclusion::Closed)),
            (false, side) => Some((side.unwrap(), BoundaryInclusion::Open)),
        }
    }

    pub fn continence__alt(p1: &Self, p2: &Self) -> Option<(Continence, BoundaryInclusion)> {
        if p1.opened {
            return None;
        }
        let mut side: Option<Continence> = None;
        let mut touches = BoundaryInclusion::Open;
        let edges = p2.into_edges();
        for point in edges.iter().flat_map(|e| vec![Rc::new(e.midpoint()), e.v1.clone()]).chain(p2.tail()) {
            let here = p1.contains(&point).unwrap();
            if here == Continence::Boundary {
                touches = BoundaryInclusion::Closed;
            } else if side.is_none() {
                side = Some(here);
            } else if side != Some(here) {
                return None;
            }
        }
        let mut outlines = vertex_pairs(&p1.vertices, p1.opened);
        outlines.extend(vertex_pairs(&p2.vertices, p2.opened));
        for (a, b) in split_intersections(&outlines) {
            let here = p1.contains(&Edge::new(&a, &b).midpoint()).unwrap();
            if here != Continence::Boundary && side != Some(here) {
                return None;
            }
        }
        if touches == BoundaryInclusion::Closed && side.is_none() {
            return Some((Continence::Boundary, BoundaryInclusion::Closed));
        }
        Some((side.unwrap(), touches))
    }

    /// crossing points of two outlines; an existing end vertex stands for an equal crossing
    /// C33: pieces of both outlines outside neither of them, walked with the sharpest turn
    pub fn intersection(p1: &Self, p2: &Self) -> (Vec<Self>, HashSet<Pair>) {
        let mut results: Vec<Self> = Vec::new();
        let mut unused: HashSet<Pair> = HashSet::new();
        let pieces = split_both(&vertex_pairs(&p1.vertices, p1.opened), &vertex_pairs(&p2.vertices, p2.opened));
        if p1.opened || p2.opened {
            return (results, pieces.into_iter().collect());
        }
        if BoundingBox::intersection(&p1.bounding_box().unwrap(), &p2.bounding_box().unwrap()).is_none() {
            return (results, unused);
        }
        let mut waiting = uncancelled(p1, p2, pieces, &mut unused);
        let mut kept: HashSet<Pair> = HashSet::new();
        while let Some((a, b)) = waiting.pop() {
            let middle = midpoint(&a, &b);
            if p1.contains(&middle).unwrap() == Continence::Outside || p2.contains(&middle).unwrap() == Continence::Outside {
                unused.insert((a, b));
            } else {
                kept.insert((a, b));
            }
        }
        while !kept.is_empty() {
            let start = kept.iter().next().unwrap().clone();
            let mut chain = vec![kept.take(&start).unwrap()];
            loop {
                let here = chain.last().unwrap().clone();
                let mut ahead = continuations(&here, &kept);
                if ahead.is_empty() {
                    if chain.len() > 2 && chain.last().unwrap().1 == chain[0].0 {
                        results.push(Polyline::new_closed(chain.iter().map(|p| p.0.clone()).collect()).unwrap());
                    } else {
                        unused.extend(chain.iter().cloned());
                    }
                    break;
                }
                ahead.sort_by(|p, q| angle(&here.0, &here.1, &p.1).partial_cmp(&angle(&here.0, &here.1, &q.1)).unwrap());
                chain.push(kept.take(&ahead[0]).unwrap());
            }
        }
        (results, unused)
    }

    /// C33: pieces of each outline not in the other, walked with the widest turn; the first
    /// counter-clockwise closed walk is the union
    pub fn union(p1: &Self, p2: &Self) -> Option<(Self, HashSet<Pair>)> {
        if p1.opened || p2.opened {
            return None;
        }
        BoundingBox::intersection(&p1.bounding_box().unwrap(), &p2.bounding_box().unwrap())?;
        let mut waiting = split_both(&vertex_pairs(&p1.vertices, p1.opened), &vertex_pairs(&p2.vertices, p2.opened));
        let mut unused: HashSet<Pair> = HashSet::new();
        let mut kept: HashSet<Pair> = HashSet::new();
        while let Some((a, b)) = waiting.pop() {
            let middle = midpoint(&a, &b);
            if p1.contains(&middle).unwrap() == Continence::Outside || p2.contains(&middle).unwrap() == Continence::Outside {
                kept.insert((a, b));
            } else {
                unused.insert((a, b));
            }
        }
        while !kept.is_empty() {
            let start = kept.iter().next().unwrap().clone();
            let mut chain = vec![kept.take(&start).unwrap()];
            loop {
                let here = chain.last().unwrap().clone();
                let mut ahead = continuations(&here, &kept);
                if ahead.is_empty() {
                    if chain.len() > 2
                        && chain.last().unwrap().1 == chain[0].0
                        && segments_orientation(&chain) == Orientation::Counterclockwise
                    {
                        unused.extend(kept.iter().cloned());
                        let corners = chain.iter().map(|p| p.0.clone()).collect();
                        return Some((Polyline::new_closed(corners).unwrap(), unused));
                    }
                    unused.extend(chain.iter().cloned());
                    break;
                }
                ahead.sort_by(|p, q| angle(&here.0, &here.1, &q.1).partial_cmp(&angle(&here.0, &here.1, &p.1)).unwrap());
                chain.push(kept.take(&ahead[0]).unwrap());
            }
        }
        None
    }

    /// C33: pieces of the first outline and of the reversed second one that are not outside the first and
    /// not inside the second, walked with the sharpest turn
    pub fn subtraction(p1: &Self, p2: &Self) -> (Vec<Rc<Self>>, HashSet<Pair>) {
        let mut results: Vec<Rc<Self>> = Vec::new();
        let backwards: Vec<Rc<Vertex>> = p2.vertices.iter().rev().cloned().collect();
        let pieces = split_both(&vertex_pairs(&p1.vertices, p1.opened), &vertex_pairs(&backwards, p2.opened));
        let apart = BoundingBox::intersection(&p1.bounding_box().unwrap(), &p2.bounding_box().unwrap()).is_none();
        let within = Self::continence(p1, p2) == Some((Continence::Inside, BoundaryInclusion::Open));
        if p1.opened || p2.opened || apart || within {
            return (results, pieces.into_iter().collect());
        }
        let mut unused: HashSet<Pair> = HashSet::new();
        let mut waiting = uncancelled(p1, p2, pieces, &mut unused);
        let mut kept: HashSet<Pair> = HashSet::new();
        while let Some((a, b)) = waiting.pop() {
            let middle = midpoint(&a, &b);
            let (in_first, in_second) = (p1.contains(&middle).unwrap(), p2.contains(&middle).unwrap());
            if in_first != Continence::Outside && in_second != Continence::Inside {
                kept.insert((a, b));
            } else {
                unused.insert((a, b));
            }
        }
        while !kept.is_empty() {
            let start = kept.iter().next().unwrap().clone();
            let mut chain = vec![kept.take(&start).unwrap()];
            loop {
                let here = chain.last().unwrap().clone();
                let mut ahead = continuations(&here, &kept);
                if ahead.is_empty() {
                    if chain.len() > 2 && chain.last().unwrap().1 == chain[0].0 {
                        let corners = chain.iter().map(|p| p.0.clone()).collect();
                        results.push(Rc::new(Polyline::new_closed(corners).unwrap()));
                    } else {
                        unused.extend(chain.iter().cloned());
                    }
                    break;
                }
                ahead.sort_by(|p, q| angle(&here.0, &here.1, &p.1).partial_cmp(&angle(&here.0, &here.1, &q.1)).unwrap());
                chain.push(kept.take(&ahead[0]).unwrap());
            }
        }
        (results, unused)
    }

    pub fn intersection_vertices(p1: &Self, p2: &Self) -> HashSet<Rc<Vertex>> {
        let mut crossings = HashSet::new();
        if BoundingBox::intersection(&p1.bounding_box().unwrap(), &p2.bounding_box().unwrap()).is_none() {
            return crossings;
        }
        let others = vertex_pairs(&p2.vertices, p2.opened);
        for (a, b) in vertex_pairs(&p1.vertices, p1.opened).iter() {
            for (c, d) in others.iter() {
                if let Some(point) = intersection(a, b, c, d) {
                    let point = Rc::new(point);
                    let known = vec![a, b, c, d].into_iter().find(|end| **end == point);
                    crossings.insert(known.cloned().unwrap_or(point));
                }
            }
        }
        crossings
    }

    /// chained unmatched directed edges
    pub fn triangles_hull(triangles: &HashSet<Rc<Triangle>>) -> Option<Self> {
        let mut remaining: HashSet<Rc<Edge>> = HashSet::new();
        for triangle in triangles {
            let (a, b, c) = triangle.inner_edges();
            remaining.insert(a);
            remaining.insert(b);
            remaining.insert(c);
        }
        let mut unmatched: HashMap<Rc<Edge>, Rc<Edge>> = HashMap::new();
        while let Some(edge) = remaining.iter().next().cloned() {
            remaining.remove(&edge);
            if unmatched.contains_key(&edge) {
                unmatched.remove(&edge);
            } else {
                unmatched.insert(Rc::new(edge.opposite()), edge);
            }
        }
        Self::arrange(&unmatched.values().cloned().collect())
    }
}

pub fn vertex_pairs(vertex_list: &Vec<Rc<Vertex>>, opened: bool) -> Vec<Pair> {
    let following = vertex_list.iter().skip(1);
    let mut pairs: Vec<Pair> =
        vertex_list.iter().zip(following).map(|(a, b)| (a.clone(), b.clone())).collect();
    if !opened {
        pairs.push((vertex_list.last().unwrap().clone(), vertex_list[0].clone()));
    }
    pairs
}

/// while some segment properly crosses a finished one, both are replaced by their parts
pub fn split_intersections(segments: &Vec<Pair>) -> Vec<Pair> {
    let mut finished: Vec<Pair> = Vec::new();
    let mut pending: Vec<Pair> = segments.clone();
    while let Some((a, b)) = pending.pop() {
        let crossed = finished.iter().position(|(c, d)| {
            intersection(&a, &b, c, d).is_some()
                && !parallel(&a, &b, c, d)
                && a != *c
                && a != *d
                && b != *c
                && b != *d
        });
        match crossed {
            None => finished.push((a, b)),
            Some(index) => {
                let (c, d) = finished.remove(index);
                let x = Rc::new(intersection(&a, &b, &c, &d).unwrap());
                for (from, to, end) in vec![(&c, &x, &c), (&x, &d, &d), (&a, &x, &a), (&x, &b, &b)] {
                    if *end != x {
                        pending.push((from.clone(), to.clone()));
                    }
                }
            }
        }
    }
    finished
}

pub fn segments_orientation(vertex_pairs: &Vec<Pair>) -> Orientation {
    let area = area_segments(vertex_pairs);
    assert!(area < 0.0 || area > 0.0);
    if area > 0.0 { Orientation::Clockwise } else { Orientation::Counterclockwise }
}
