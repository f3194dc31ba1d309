//! Model of `futures`: futures are polled to completion on the calling thread, in order.
use std::future::Future;
use std::pin::pin;
use std::task::{Context, Poll, Waker};
pub mod executor {
    use super::*;
    pub fn block_on<F: Future>(f: F) -> F::Output {
        let mut f = pin!(f);
        let mut cx = Context::from_waker(Waker::noop());
        loop {
            if let Poll::Ready(x) = f.as_mut().poll(&mut cx) { return x; }
        }
    }
}
pub mod future {
    use super::*;
    pub async fn try_join_all<I, F, T, E>(i: I) -> Result<Vec<T>, E>
    where I: IntoIterator<Item = F>, F: Future<Output = Result<T, E>> {
        let mut v = Vec::new();
        for f in i { v.push(f.await?); }
        Ok(v)
    }
    pub async fn join_all<I, F>(i: I) -> Vec<F::Output> where I: IntoIterator<Item = F>, F: Future {
        let mut v = Vec::new();
        for f in i { v.push(f.await); }
        v
    }
}
