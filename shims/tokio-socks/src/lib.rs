//! Stand-in for tokio-socks (not available offline): type-checks, refuses to connect.
#[derive(Debug)]
pub struct Error;
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("socks5 is not available")
    }
}
impl std::error::Error for Error {}

pub mod tcp {
    use std::ops::{Deref, DerefMut};
    use std::pin::Pin;
    use std::task::{Context, Poll};
    use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};

    #[derive(Debug)]
    pub struct Socks5Stream<S>(S);
    impl<S> Socks5Stream<S> {
        pub async fn connect_with_socket(_s: S, _a: std::net::SocketAddr) -> Result<Socks5Stream<S>, super::Error> {
            Err(super::Error)
        }
    }
    impl<S> Deref for Socks5Stream<S> {
        type Target = S;
        fn deref(&self) -> &S {
            &self.0
        }
    }
    impl<S> DerefMut for Socks5Stream<S> {
        fn deref_mut(&mut self) -> &mut S {
            &mut self.0
        }
    }
    impl<S: AsyncRead + Unpin> AsyncRead for Socks5Stream<S> {
        fn poll_read(mut self: Pin<&mut Self>, c: &mut Context<'_>, b: &mut ReadBuf<'_>) -> Poll<std::io::Result<()>> {
            Pin::new(&mut self.0).poll_read(c, b)
        }
    }
    impl<S: AsyncWrite + Unpin> AsyncWrite for Socks5Stream<S> {
        fn poll_write(mut self: Pin<&mut Self>, c: &mut Context<'_>, b: &[u8]) -> Poll<std::io::Result<usize>> {
            Pin::new(&mut self.0).poll_write(c, b)
        }
        fn poll_flush(mut self: Pin<&mut Self>, c: &mut Context<'_>) -> Poll<std::io::Result<()>> {
            Pin::new(&mut self.0).poll_flush(c)
        }
        fn poll_shutdown(mut self: Pin<&mut Self>, c: &mut Context<'_>) -> Poll<std::io::Result<()>> {
            Pin::new(&mut self.0).poll_shutdown(c)
        }
    }
}
