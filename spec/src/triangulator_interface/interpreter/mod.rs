//! C28
use crate::json_serializar::models::{action::Action, input::TriangulationInput, point::Point};
use nlsn_delaunay::elements::{edge::Edge, polyline::Polyline, vertex::Vertex};
use nlsn_delaunay::planar::refine_params::RefineParams;
use std::collections::HashSet;
use std::rc::Rc;

fn vertex(p: &Point) -> Rc<Vertex> {
    Rc::new(Vertex::new(p.x, p.y))
}

type Parsed = (Vec<Rc<Polyline>>, Vec<Rc<Polyline>>, HashSet<Rc<Edge>>, HashSet<Rc<Vertex>>, RefineParams);

pub fn parse(input: &TriangulationInput) -> Result<Parsed, ()> {
    let mut includes = Vec::new();
    let mut removes = Vec::new();
    let mut segments: HashSet<Rc<Edge>> = HashSet::new();
    let mut vertices: HashSet<Rc<Vertex>> = HashSet::new();
    for action in input.actions.iter() {
        match (action.geometry.as_str(), action.intent.as_str()) {
            ("polyline", "include") => includes.push(Rc::new(polyline_parser::parse(action)?)),
            ("polyline", "remove") => removes.push(Rc::new(polyline_parser::parse(action)?)),
            ("circle", "include") => includes.push(Rc::new(circle_parser::parse(action)?)),
            ("circle", "remove") => removes.push(Rc::new(circle_parser::parse(action)?)),
            ("segments", "constraint") => {
                for s in segments_parser::parse(action)?.iter() {
                    segments.insert(s.clone());
                }
            }
            ("vertices", "constraint") => {
                for v in vertices_parser::parse(action)?.iter() {
                    vertices.insert(v.clone());
                }
            }
            _ => return Err(()),
        }
    }
    let params = RefineParams { max_area: input.params.max_area, quality_ratio: input.params.quality };
    Ok((includes, removes, segments, vertices, params))
}

pub mod polyline_parser {
    use super::*;
    use nlsn_delaunay::elements::polyline::{split_intersections, vertex_pairs};

    /// an outline of at least three points whose sides do not cross
    pub fn parse(action: &Action) -> Result<Polyline, ()> {
        if action.points.len() < 3 {
            return Err(());
        }
        let corners: Vec<Rc<Vertex>> = action.points.iter().map(vertex).collect();
        let sides = vertex_pairs(&corners, false);
        if split_intersections(&sides).len() > sides.len() {
            return Err(());
        }
        Ok(Polyline { vertices: corners, opened: false })
    }
}

pub mod circle_parser {
    use super::*;

    /// centre, radius and optionally the number of corners (100 if absent)
    pub fn parse(action: &Action) -> Result<Polyline, ()> {
        if action.points.len() != 1 || action.scalars.is_empty() {
            return Err(());
        }
        let center = &action.points[0];
        let radius = action.scalars[0];
        let corners = if action.scalars.len() > 1 { action.scalars[1].round() as usize } else { 100 };
        let mut outline = Vec::new();
        for i in 0..corners {
            let phi = i as f64 * (2.0 * std::f64::consts::PI / corners as f64);
            outline.push(Rc::new(Vertex::new(center.x + radius * phi.cos(), center.y + radius * phi.sin())));
        }
        match Polyline::new_closed(outline) {
            Some(polyline) => Ok(polyline),
            None => Err(()),
        }
    }
}

pub mod segments_parser {
    use super::*;

    /// pairs of point numbers, or without them consecutive pairs of points
    pub fn parse(action: &Action) -> Result<HashSet<Rc<Edge>>, ()> {
        let points = &action.points;
        let mut segments = HashSet::new();
        if action.assemble.is_empty() {
            if points.len() % 2 != 0 {
                return Err(());
            }
            for i in (0..points.len()).step_by(2) {
                segments.insert(Rc::new(Edge::new(&vertex(&points[i]), &vertex(&points[i + 1]))));
            }
            return Ok(segments);
        }
        for pair in action.assemble.iter() {
            if pair.len() < 2 || pair[0] >= points.len() || pair[1] >= points.len() {
                return Err(());
            }
            segments.insert(Rc::new(Edge::new(&vertex(&points[pair[0]]), &vertex(&points[pair[1]]))));
        }
        Ok(segments)
    }
}

pub mod vertices_parser {
    use super::*;

    pub fn parse(action: &Action) -> Result<HashSet<Rc<Vertex>>, ()> {
        Ok(action.points.iter().map(vertex).collect())
    }
}

pub mod refine_params_parser {
    use crate::json_serializar::models::input;
    use nlsn_delaunay::planar::refine_params;

    pub fn parse(params: &input::RefineParams) -> Result<refine_params::RefineParams, ()> {
        Ok(refine_params::RefineParams { max_area: params.max_area, quality_ratio: params.quality })
    }
}
