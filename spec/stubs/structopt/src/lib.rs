pub trait StructOpt: Sized {
    fn from_args() -> Self {
        unimplemented!()
    }
}
