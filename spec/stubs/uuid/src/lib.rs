#[derive(Clone, Copy)]
pub struct Uuid([u8; 16]);
