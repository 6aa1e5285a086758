//! One-value channel with the oneshot crate's blocking API.
use std::fmt;
use std::sync::mpsc;
use std::time::Duration;

pub struct Sender<T>(mpsc::SyncSender<T>);
pub struct Receiver<T>(mpsc::Receiver<T>);

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct RecvError;
impl fmt::Display for RecvError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("channel closed")
    }
}
impl std::error::Error for RecvError {}

pub struct SendError<T>(T);
impl<T> SendError<T> {
    pub fn into_inner(self) -> T {
        self.0
    }
}
impl<T> fmt::Debug for SendError<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("SendError")
    }
}
impl<T> fmt::Display for SendError<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("channel closed")
    }
}
impl<T> std::error::Error for SendError<T> {}

pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
    let (s, r) = mpsc::sync_channel(1);
    (Sender(s), Receiver(r))
}
impl<T> Sender<T> {
    pub fn send(self, v: T) -> Result<(), SendError<T>> {
        self.0.send(v).map_err(|e| SendError(e.0))
    }
}
impl<T> Receiver<T> {
    pub fn recv(self) -> Result<T, RecvError> {
        self.0.recv().map_err(|_| RecvError)
    }
    pub fn recv_timeout(&self, d: Duration) -> Result<T, mpsc::RecvTimeoutError> {
        self.0.recv_timeout(d)
    }
    pub fn try_recv(&self) -> Result<T, mpsc::TryRecvError> {
        self.0.try_recv()
    }
}
