//! C29
use nlsn_delaunay::{elements::polyline::Polyline, properties::continence::*};
use std::collections::HashSet;
use std::rc::Rc;

pub fn boundary(
    includes: &Vec<Rc<Polyline>>,
    removes: &Vec<Rc<Polyline>>,
) -> Result<(Rc<Polyline>, Vec<Rc<Polyline>>), ()> {
    let mut apart: HashSet<Rc<Polyline>> = includes.iter().cloned().collect();
    let first = apart.iter().next().cloned();
    let mut boundary = match first {
        None => return Err(()),
        Some(first) => first,
    };
    apart.remove(&boundary);
    // one inclusion united per round, in whatever order they touch
    for _ in 0..apart.len() {
        for other in apart.clone().iter() {
            if let Some((union, _)) = Polyline::union(&boundary, other) {
                boundary = Rc::new(union);
                apart.remove(other);
                break;
            }
        }
    }
    if !apart.is_empty() {
        return Err(());
    }
    let mut unused = Vec::new();
    for removal in removes.iter() {
        let (pieces, _) = Polyline::subtraction(&boundary, removal);
        match pieces.len() {
            0 => unused.push(removal.clone()),
            1 => boundary = pieces[0].clone(),
            _ => return Err(()),
        }
    }
    Ok((boundary, unused))
}

pub fn holes(boundary: &Rc<Polyline>, removes: &Vec<Rc<Polyline>>) -> HashSet<Rc<Polyline>> {
    let mut holes: HashSet<Rc<Polyline>> = HashSet::new();
    let mut pending: Vec<Rc<Polyline>> = removes.clone();
    while let Some(candidate) = pending.pop() {
        if Polyline::continence(boundary, &candidate) != Some((Continence::Inside, BoundaryInclusion::Open)) {
            continue;
        }
        let mut merged = false;
        for hole in holes.clone().iter() {
            if let Some((union, _)) = Polyline::union(hole, &candidate) {
                // the merged outline is a candidate again: it may touch further holes
                holes.remove(hole);
                pending.push(Rc::new(union));
                merged = true;
                break;
            }
        }
        if !merged {
            holes.insert(candidate);
        }
    }
    holes
}
