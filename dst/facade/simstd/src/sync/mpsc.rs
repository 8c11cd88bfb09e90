pub use ::std::sync::mpsc::{RecvError, RecvTimeoutError, SendError, TryRecvError, TrySendError};

use ::std::sync::Arc;
use dam_sim_core as sim;
use sim::raw::{Chan, RecvFail, SendFail};

use crate::time::Duration;

pub struct Sender<T>(Arc<Chan<T>>);
pub struct SyncSender<T>(Arc<Chan<T>>);
pub struct Receiver<T>(Arc<Chan<T>>);
unsafe impl<T: Send> Send for Sender<T> {}
unsafe impl<T: Send> Sync for Sender<T> {}
unsafe impl<T: Send> Send for SyncSender<T> {}
unsafe impl<T: Send> Sync for SyncSender<T> {}
unsafe impl<T: Send> Send for Receiver<T> {}

pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
    let c = Arc::new(Chan::new(None));
    (Sender(c.clone()), Receiver(c))
}
pub fn sync_channel<T>(n: usize) -> (SyncSender<T>, Receiver<T>) {
    let c = Arc::new(Chan::new(Some(n)));
    (SyncSender(c.clone()), Receiver(c))
}
macro_rules! both {
    ($n:ident) => {
        impl<T> $n<T> {
            pub fn send(&self, t: T) -> Result<(), SendError<T>> {
                self.0.send(t, None).map_err(|e| match e {
                    SendFail::Full(t) | SendFail::Disconnected(t) | SendFail::Timeout(t) => SendError(t),
                })
            }
        }
        impl<T> Clone for $n<T> {
            fn clone(&self) -> Self {
                self.0.add_sender();
                $n(self.0.clone())
            }
        }
        impl<T> Drop for $n<T> {
            fn drop(&mut self) {
                self.0.drop_sender()
            }
        }
        impl<T> ::std::fmt::Debug for $n<T> {
            fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
                f.debug_struct(stringify!($n)).finish_non_exhaustive()
            }
        }
    };
}
both!(Sender);
both!(SyncSender);
impl<T> SyncSender<T> {
    pub fn try_send(&self, t: T) -> Result<(), TrySendError<T>> {
        self.0.try_send(t).map_err(|e| match e {
            SendFail::Full(t) | SendFail::Timeout(t) => TrySendError::Full(t),
            SendFail::Disconnected(t) => TrySendError::Disconnected(t),
        })
    }
}
impl<T> Receiver<T> {
    pub fn recv(&self) -> Result<T, RecvError> {
        self.0.recv(None).map_err(|_| RecvError)
    }
    pub fn try_recv(&self) -> Result<T, TryRecvError> {
        self.0.try_recv().map_err(|e| match e {
            RecvFail::Disconnected => TryRecvError::Disconnected,
            _ => TryRecvError::Empty,
        })
    }
    pub fn recv_timeout(&self, d: Duration) -> Result<T, RecvTimeoutError> {
        self.0.recv(Some(sim::now_ns() + d.as_nanos() as u64)).map_err(|e| match e {
            RecvFail::Disconnected => RecvTimeoutError::Disconnected,
            _ => RecvTimeoutError::Timeout,
        })
    }
    pub fn iter(&self) -> Iter<'_, T> {
        Iter(self)
    }
    pub fn try_iter(&self) -> TryIter<'_, T> {
        TryIter(self)
    }
}
impl<T> Drop for Receiver<T> {
    fn drop(&mut self) {
        self.0.drop_receiver()
    }
}
impl<T> ::std::fmt::Debug for Receiver<T> {
    fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
        f.debug_struct("Receiver").finish_non_exhaustive()
    }
}
pub struct Iter<'a, T>(&'a Receiver<T>);
impl<T> Iterator for Iter<'_, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.recv().ok()
    }
}
pub struct TryIter<'a, T>(&'a Receiver<T>);
impl<T> Iterator for TryIter<'_, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.try_recv().ok()
    }
}
pub struct IntoIter<T>(Receiver<T>);
impl<T> Iterator for IntoIter<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.recv().ok()
    }
}
impl<T> IntoIterator for Receiver<T> {
    type Item = T;
    type IntoIter = IntoIter<T>;
    fn into_iter(self) -> IntoIter<T> {
        IntoIter(self)
    }
}
impl<'a, T> IntoIterator for &'a Receiver<T> {
    type Item = T;
    type IntoIter = Iter<'a, T>;
    fn into_iter(self) -> Iter<'a, T> {
        self.iter()
    }
}
