pub mod domain_evaluator;
pub mod interpreter;

use crate::json_serializar::models::input::TriangulationInput;
use nlsn_delaunay::planar::{refine_params::RefineParams, triangulator::Triangulator};

/// C30: boundary, holes, segments, vertices, in this order; any failure fails the whole
pub fn parse(input: &TriangulationInput) -> Result<(Triangulator, RefineParams), ()> {
    let (includes, removes, segments, vertices, params) = interpreter::parse(input)?;
    let (boundary, unused) = domain_evaluator::boundary(&includes, &removes)?;
    let mut triangulator = Triangulator::new(&boundary);
    for hole in domain_evaluator::holes(&boundary, &unused).iter() {
        if triangulator.insert_hole(hole).is_err() {
            return Err(());
        }
    }
    if triangulator.insert_segments(&segments).is_err() {
        return Err(());
    }
    if triangulator.insert_vertices(&vertices).is_err() {
        return Err(());
    }
    Ok((triangulator, params))
}
