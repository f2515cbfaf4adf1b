pub struct Display;
pub mod glutin {
    pub mod event_loop {
        pub struct EventLoop<T>(std::marker::PhantomData<T>);
    }
}
