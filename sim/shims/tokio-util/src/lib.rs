pub mod codec {
    use bytes::BytesMut;
    use futures_core::Stream;
    use std::io;
    use std::pin::Pin;
    use std::task::{Context, Poll};
    use tokio::net::tcp::OwnedReadHalf;

    pub trait Encoder<Item> {
        type Error: From<io::Error>;
        fn encode(&mut self, item: Item, dst: &mut BytesMut) -> Result<(), Self::Error>;
    }
    pub trait Decoder {
        type Item;
        type Error: From<io::Error>;
        fn decode(&mut self, src: &mut BytesMut) -> Result<Option<Self::Item>, Self::Error>;
        fn decode_eof(&mut self, buf: &mut BytesMut) -> Result<Option<Self::Item>, Self::Error> {
            match self.decode(buf)? {
                Some(f) => Ok(Some(f)),
                None if buf.is_empty() => Ok(None),
                None => Err(io::Error::other("bytes remaining on stream").into()),
            }
        }
    }

    /// Frames out of a byte stream.
    pub struct FramedRead<T, D> {
        io: T,
        dec: D,
        buf: BytesMut,
        eof: bool,
        readable: bool,
        failed: bool,
    }
    impl<T, D> Unpin for FramedRead<T, D> {}
    impl<T, D: Decoder> FramedRead<T, D> {
        pub fn new(io: T, dec: D) -> Self {
            FramedRead { io, dec, buf: BytesMut::new(), eof: false, readable: false, failed: false }
        }
    }
    impl<D: Decoder> Stream for FramedRead<OwnedReadHalf, D> {
        type Item = Result<D::Item, D::Error>;
        fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
            let this = &mut *self;
            loop {
                if this.failed {
                    return Poll::Ready(None);
                }
                if this.readable {
                    let r = if this.eof { this.dec.decode_eof(&mut this.buf) } else { this.dec.decode(&mut this.buf) };
                    match r {
                        Err(e) => {
                            this.failed = true;
                            return Poll::Ready(Some(Err(e)));
                        }
                        Ok(Some(f)) => return Poll::Ready(Some(Ok(f))),
                        Ok(None) if this.eof => {
                            this.failed = true;
                            return Poll::Ready(None);
                        }
                        Ok(None) => this.readable = false,
                    }
                }
                match this.io.poll_read(cx, &mut this.buf) {
                    Poll::Pending => return Poll::Pending,
                    Poll::Ready(Err(e)) => {
                        this.failed = true;
                        return Poll::Ready(Some(Err(e.into())));
                    }
                    Poll::Ready(Ok(0)) => {
                        this.eof = true;
                        this.readable = true;
                    }
                    Poll::Ready(Ok(_)) => this.readable = true,
                }
            }
        }
    }
}
