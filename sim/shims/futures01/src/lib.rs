//! The one type that the wallet names of futures 0.1.
pub mod sync {
    pub mod mpsc {
        #[derive(Debug, Clone)]
        pub struct SendError<T>(pub T);
        impl<T> std::fmt::Display for SendError<T> {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                f.write_str("send failed because receiver is gone")
            }
        }
        impl<T: std::fmt::Debug> std::error::Error for SendError<T> {}
    }
}
