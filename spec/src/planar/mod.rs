pub mod refine_params;
pub mod triangulation;
pub mod triangulation_data;
pub mod triangulator;
pub mod triangulation_procedures {
    pub mod boundary;
    pub mod hole;
    pub mod segment;
    pub mod vertices;
}
pub mod refine_procedures {
    pub mod encroachment;
    pub mod triangle_split;
}
