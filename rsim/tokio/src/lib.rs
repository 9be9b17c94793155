//! The parts of tokio the code under test uses, over the simulator: spawned futures are simulated
//! tasks of a multi-threaded runtime, channels have scheduling points.

pub use task::spawn;

pub mod task {
  use std::cell::RefCell;
  use std::future::Future;
  use std::pin::Pin;
  use std::sync::Arc;
  use std::task::{Context, Poll, Waker};

  struct St<T> {
    out: Option<T>,
    waker: Option<Waker>,
    done: bool,
  }
  struct Cell<T>(RefCell<St<T>>);
  unsafe impl<T: Send> Send for Cell<T> {}
  unsafe impl<T: Send> Sync for Cell<T> {}

  pub struct JoinHandle<T> {
    st: Arc<Cell<T>>,
    id: vsim::TaskId,
  }

  #[derive(Debug)]
  pub struct JoinError(());
  impl std::fmt::Display for JoinError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
      f.write_str("task was cancelled")
    }
  }
  impl std::error::Error for JoinError {}

  struct Finish<T>(Arc<Cell<T>>);
  impl<T> Drop for Finish<T> {
    fn drop(&mut self) {
      let mut s = self.0 .0.borrow_mut();
      s.done = true;
      if let Some(w) = s.waker.take() {
        w.wake();
      }
    }
  }

  pub fn spawn<F>(f: F) -> JoinHandle<F::Output>
  where
    F: Future + Send + 'static,
    F::Output: Send + 'static,
  {
    let st = Arc::new(Cell(RefCell::new(St {
      out: None,
      waker: None,
      done: false,
    })));
    let s2 = st.clone();
    vsim::stat("tasks_spawned", 1);
    vsim::point("spawn");
    let id = vsim::spawn("tokio", move || {
      let fin = Finish(s2);
      let v = vsim::block_on(f);
      fin.0 .0.borrow_mut().out = Some(v);
    });
    JoinHandle { st, id }
  }

  #[derive(Clone, Debug)]
  pub struct AbortHandle(vsim::TaskId);
  impl AbortHandle {
    pub fn abort(&self) {
      vsim::point("abort");
      vsim::abort(self.0);
    }
    pub fn is_finished(&self) -> bool {
      vsim::is_done(self.0)
    }
  }
  impl JoinError {
    pub fn is_cancelled(&self) -> bool {
      true
    }
    pub fn is_panic(&self) -> bool {
      false
    }
  }
  impl<T> std::fmt::Debug for JoinHandle<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
      f.write_str("JoinHandle")
    }
  }

  impl<T> JoinHandle<T> {
    pub fn abort_handle(&self) -> AbortHandle {
      AbortHandle(self.id)
    }
    pub fn abort(&self) {
      vsim::point("abort");
      vsim::abort(self.id);
    }
    pub fn is_finished(&self) -> bool {
      vsim::point("is_finished");
      self.st.0.borrow().done
    }
  }

  impl<T> Future for JoinHandle<T> {
    type Output = Result<T, JoinError>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
      vsim::point("join");
      let mut s = self.st.0.borrow_mut();
      if s.done {
        return Poll::Ready(s.out.take().ok_or(JoinError(())));
      }
      s.waker = Some(cx.waker().clone());
      Poll::Pending
    }
  }

  pub async fn yield_now() {
    let mut first = true;
    std::future::poll_fn(|cx| {
      if first {
        first = false;
        cx.waker().wake_by_ref();
        Poll::Pending
      } else {
        Poll::Ready(())
      }
    })
    .await;
  }
}

pub mod sync {
  pub mod mpsc {
    use std::cell::RefCell;
    use std::collections::VecDeque;
    use std::sync::Arc;
    use std::task::{Context, Poll, Waker};

    pub mod error {
      #[derive(PartialEq, Eq, Clone, Copy)]
      pub struct SendError<T>(pub T);
      impl<T> std::fmt::Debug for SendError<T> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
          f.write_str("SendError { .. }")
        }
      }
      impl<T> std::fmt::Display for SendError<T> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
          f.write_str("channel closed")
        }
      }
      impl<T> std::error::Error for SendError<T> {}
      #[derive(PartialEq, Eq, Clone, Copy, Debug)]
      pub enum TryRecvError {
        Empty,
        Disconnected,
      }
    }

    struct St<T> {
      q: VecDeque<T>,
      txs: usize,
      closed: bool,
      waker: Option<Waker>,
    }
    struct Chan<T>(RefCell<St<T>>);
    unsafe impl<T: Send> Send for Chan<T> {}
    unsafe impl<T: Send> Sync for Chan<T> {}

    pub struct UnboundedSender<T>(Arc<Chan<T>>);
    pub struct UnboundedReceiver<T>(Arc<Chan<T>>);

    pub fn unbounded_channel<T>() -> (UnboundedSender<T>, UnboundedReceiver<T>) {
      let c = Arc::new(Chan(RefCell::new(St {
        q: VecDeque::new(),
        txs: 1,
        closed: false,
        waker: None,
      })));
      (UnboundedSender(c.clone()), UnboundedReceiver(c))
    }

    impl<T> Clone for UnboundedSender<T> {
      fn clone(&self) -> Self {
        self.0 .0.borrow_mut().txs += 1;
        UnboundedSender(self.0.clone())
      }
    }

    impl<T> Drop for UnboundedSender<T> {
      fn drop(&mut self) {
        vsim::point("drop_tx");
        let w = {
          let mut s = self.0 .0.borrow_mut();
          s.txs -= 1;
          if s.txs == 0 {
            s.waker.take()
          } else {
            None
          }
        };
        if let Some(w) = w {
          w.wake();
        }
      }
    }

    impl<T> UnboundedSender<T> {
      pub fn send(&self, v: T) -> Result<(), error::SendError<T>> {
        vsim::point("send");
        let w = {
          let mut s = self.0 .0.borrow_mut();
          if s.closed {
            return Err(error::SendError(v));
          }
          s.q.push_back(v);
          s.waker.take()
        };
        if let Some(w) = w {
          w.wake();
        }
        vsim::point("sent");
        Ok(())
      }
      pub fn is_closed(&self) -> bool {
        vsim::point("is_closed");
        self.0 .0.borrow().closed
      }
      pub fn same_channel(&self, o: &Self) -> bool {
        Arc::ptr_eq(&self.0, &o.0)
      }
    }
    impl<T> std::fmt::Debug for UnboundedSender<T> {
      fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("UnboundedSender")
      }
    }
    impl<T> std::fmt::Debug for UnboundedReceiver<T> {
      fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("UnboundedReceiver")
      }
    }

    impl<T> UnboundedReceiver<T> {
      pub fn poll_recv(&mut self, cx: &mut Context<'_>) -> Poll<Option<T>> {
        vsim::point("recv");
        let mut s = self.0 .0.borrow_mut();
        if let Some(v) = s.q.pop_front() {
          return Poll::Ready(Some(v));
        }
        if s.txs == 0 || s.closed {
          return Poll::Ready(None);
        }
        s.waker = Some(cx.waker().clone());
        Poll::Pending
      }
      pub async fn recv(&mut self) -> Option<T> {
        std::future::poll_fn(|cx| self.poll_recv(cx)).await
      }
      pub fn try_recv(&mut self) -> Result<T, error::TryRecvError> {
        vsim::point("try_recv");
        let mut s = self.0 .0.borrow_mut();
        match s.q.pop_front() {
          Some(v) => Ok(v),
          None if s.txs == 0 => Err(error::TryRecvError::Disconnected),
          None => Err(error::TryRecvError::Empty),
        }
      }
      pub fn close(&mut self) {
        vsim::point("close");
        self.0 .0.borrow_mut().closed = true;
      }
      pub fn is_closed(&self) -> bool {
        let s = self.0 .0.borrow();
        s.closed || s.txs == 0
      }
      pub fn is_empty(&self) -> bool {
        self.0 .0.borrow().q.is_empty()
      }
      pub fn len(&self) -> usize {
        self.0 .0.borrow().q.len()
      }
    }

    impl<T> Drop for UnboundedReceiver<T> {
      fn drop(&mut self) {
        vsim::point("drop_rx");
        let q = {
          let mut s = self.0 .0.borrow_mut();
          s.closed = true;
          std::mem::take(&mut s.q)
        };
        drop(q);
      }
    }
  }

  pub mod oneshot {
    use std::cell::RefCell;
    use std::future::Future;
    use std::pin::Pin;
    use std::sync::Arc;
    use std::task::{Context, Poll, Waker};

    pub mod error {
      #[derive(Debug, Clone, PartialEq, Eq)]
      pub struct RecvError(pub(super) ());
      impl std::fmt::Display for RecvError {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
          f.write_str("channel closed")
        }
      }
      impl std::error::Error for RecvError {}
      #[derive(Debug, Clone, PartialEq, Eq)]
      pub enum TryRecvError {
        Empty,
        Closed,
      }
    }

    struct St<T> {
      v: Option<T>,
      tx: bool,
      rx: bool,
      waker: Option<Waker>,
    }
    struct Chan<T>(RefCell<St<T>>);
    unsafe impl<T: Send> Send for Chan<T> {}
    unsafe impl<T: Send> Sync for Chan<T> {}

    pub struct Sender<T>(Arc<Chan<T>>);
    pub struct Receiver<T>(Arc<Chan<T>>);
    impl<T> std::fmt::Debug for Sender<T> {
      fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Sender")
      }
    }
    impl<T> std::fmt::Debug for Receiver<T> {
      fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Receiver")
      }
    }

    pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
      let c = Arc::new(Chan(RefCell::new(St {
        v: None,
        tx: true,
        rx: true,
        waker: None,
      })));
      (Sender(c.clone()), Receiver(c))
    }

    impl<T> Sender<T> {
      pub fn send(self, v: T) -> Result<(), T> {
        vsim::point("oneshot_send");
        let w = {
          let mut s = self.0 .0.borrow_mut();
          if !s.rx {
            return Err(v);
          }
          s.v = Some(v);
          s.waker.take()
        };
        if let Some(w) = w {
          w.wake();
        }
        Ok(())
      }
      pub fn is_closed(&self) -> bool {
        vsim::point("is_closed");
        !self.0 .0.borrow().rx
      }
    }

    impl<T> Drop for Sender<T> {
      fn drop(&mut self) {
        vsim::point("drop_tx");
        let w = {
          let mut s = self.0 .0.borrow_mut();
          s.tx = false;
          s.waker.take()
        };
        if let Some(w) = w {
          w.wake();
        }
      }
    }

    impl<T> Receiver<T> {
      pub fn close(&mut self) {
        self.0 .0.borrow_mut().rx = false;
      }
      pub fn try_recv(&mut self) -> Result<T, error::TryRecvError> {
        vsim::point("try_recv");
        let mut s = self.0 .0.borrow_mut();
        match s.v.take() {
          Some(v) => Ok(v),
          None if s.tx => Err(error::TryRecvError::Empty),
          None => Err(error::TryRecvError::Closed),
        }
      }
    }

    impl<T> Future for Receiver<T> {
      type Output = Result<T, error::RecvError>;
      fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        vsim::point("oneshot_recv");
        let mut s = self.0 .0.borrow_mut();
        if let Some(v) = s.v.take() {
          return Poll::Ready(Ok(v));
        }
        if !s.tx {
          return Poll::Ready(Err(error::RecvError(())));
        }
        s.waker = Some(cx.waker().clone());
        Poll::Pending
      }
    }

    impl<T> Drop for Receiver<T> {
      fn drop(&mut self) {
        vsim::point("drop_rx");
        let v = {
          let mut s = self.0 .0.borrow_mut();
          s.rx = false;
          s.v.take()
        };
        drop(v);
      }
    }
  }
}
