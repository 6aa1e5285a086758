//! Stand-in for snowstorm (not available offline): a plain pass-through, no encryption.
use std::pin::Pin;
use std::task::{Context, Poll};
use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};

#[derive(Clone)]
pub struct NoiseParams;
impl std::str::FromStr for NoiseParams {
    type Err = std::convert::Infallible;
    fn from_str(_: &str) -> Result<Self, Self::Err> {
        Ok(NoiseParams)
    }
}
impl std::fmt::Debug for NoiseParams {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("NoiseParams")
    }
}
pub struct Keypair {
    pub private: Vec<u8>,
    pub public: Vec<u8>,
}
#[derive(Debug)]
pub struct Error;
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("noise")
    }
}
impl std::error::Error for Error {}
pub struct HandshakeState;
pub struct TransportState;
impl TransportState {
    pub fn get_remote_static(&self) -> Option<&[u8]> {
        Some(&[])
    }
}
pub struct Builder;
impl Builder {
    pub fn new(_: NoiseParams) -> Self {
        Builder
    }
    pub fn generate_keypair(&self) -> Result<Keypair, Error> {
        Ok(Keypair { private: vec![], public: vec![] })
    }
    pub fn local_private_key(self, _: &[u8]) -> Self {
        self
    }
    pub fn build_initiator(self) -> Result<HandshakeState, Error> {
        Ok(HandshakeState)
    }
    pub fn build_responder(self) -> Result<HandshakeState, Error> {
        Ok(HandshakeState)
    }
}
pub struct NoiseStream<S>(S, TransportState);
impl<S> NoiseStream<S> {
    pub async fn handshake(s: S, _: HandshakeState) -> Result<Self, Error> {
        Ok(NoiseStream(s, TransportState))
    }
    pub fn get_inner(&self) -> &S {
        &self.0
    }
    pub fn get_state(&self) -> &TransportState {
        &self.1
    }
}
impl<S: AsyncRead + Unpin> AsyncRead for NoiseStream<S> {
    fn poll_read(mut self: Pin<&mut Self>, c: &mut Context<'_>, b: &mut ReadBuf<'_>) -> Poll<std::io::Result<()>> {
        Pin::new(&mut self.0).poll_read(c, b)
    }
}
impl<S: AsyncWrite + Unpin> AsyncWrite for NoiseStream<S> {
    fn poll_write(mut self: Pin<&mut Self>, c: &mut Context<'_>, b: &[u8]) -> Poll<std::io::Result<usize>> {
        Pin::new(&mut self.0).poll_write(c, b)
    }
    fn poll_flush(mut self: Pin<&mut Self>, c: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        Pin::new(&mut self.0).poll_flush(c)
    }
    fn poll_shutdown(mut self: Pin<&mut Self>, c: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        Pin::new(&mut self.0).poll_shutdown(c)
    }
}
