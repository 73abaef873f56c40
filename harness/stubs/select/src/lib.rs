// The futures crate with a select! for two branches and `complete`: the macro's own crate
// (futures-select-macro-preview) is not available here.
pub use futures::*;

use futures::future::{FusedFuture, Future};
use std::{pin::Pin, task::Poll};

pub enum Ready<A, B> {
    First(A),
    Second(B),
    Complete,
}

pub async fn first<A, B>(mut a: A, mut b: B) -> Ready<A::Output, B::Output>
where
    A: Future + FusedFuture + Unpin,
    B: Future + FusedFuture + Unpin,
{
    futures::future::poll_fn(move |cx| {
        if !a.is_terminated() {
            if let Poll::Ready(x) = Pin::new(&mut a).poll(cx) {
                return Poll::Ready(Ready::First(x));
            }
        }
        if !b.is_terminated() {
            if let Poll::Ready(x) = Pin::new(&mut b).poll(cx) {
                return Poll::Ready(Ready::Second(x));
            }
        }
        if a.is_terminated() && b.is_terminated() {
            Poll::Ready(Ready::Complete)
        } else {
            Poll::Pending
        }
    })
    .await
}

#[macro_export]
macro_rules! select {
    ($p1:pat = $e1:expr => $b1:expr, $p2:pat = $e2:expr => $b2:expr, complete => $c:expr $(,)?) => {
        match $crate::first($e1, $e2).await {
            $crate::Ready::First($p1) => $b1,
            $crate::Ready::Second($p2) => $b2,
            $crate::Ready::Complete => $c,
        }
    };
}
