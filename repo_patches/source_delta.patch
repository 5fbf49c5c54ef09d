From 37eb5b2022aed38c2fc79f8ad47e411e0b9483f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:15 +0000
Subject: [PATCH 01/63] verification hooks: in-memory transport and scheduling
 points (cfg clickhouse_verif)

---
 src/connecting_stream.rs |   4 +-
 src/io/stream.rs         |   6 +-
 src/io/transport.rs      |  11 +-
 src/lib.rs               |   4 +
 src/pool/mod.rs          |   8 +-
 src/verif.rs             | 331 +++++++++++++++++++++++++++++++++++++++
 6 files changed, 356 insertions(+), 8 deletions(-)
 create mode 100644 src/verif.rs

diff --git a/src/connecting_stream.rs b/src/connecting_stream.rs
index cab0132..9e629f1 100644
--- a/src/connecting_stream.rs
+++ b/src/connecting_stream.rs
@@ -9,11 +9,13 @@ use futures_util::future::{select_ok, BoxFuture, SelectOk, TryFutureExt};
 #[cfg(feature = "tls")]
 use futures_util::FutureExt;
 
+#[cfg(clickhouse_verif)]
+use crate::verif::TcpStream;
 #[cfg(feature = "async_std")]
 use async_std::net::TcpStream;
 #[cfg(feature = "tls")]
 use native_tls::TlsConnector;
-#[cfg(feature = "tokio_io")]
+#[cfg(all(feature = "tokio_io", not(clickhouse_verif)))]
 use tokio::net::TcpStream;
 
 use pin_project::pin_project;
diff --git a/src/io/stream.rs b/src/io/stream.rs
index 14a4d45..cf4eeb3 100644
--- a/src/io/stream.rs
+++ b/src/io/stream.rs
@@ -5,8 +5,12 @@ use std::{
     time::Duration,
 };
 
+#[cfg(clickhouse_verif)]
+use crate::verif::TcpStream;
 #[cfg(feature = "tokio_io")]
-use tokio::{io::ReadBuf, net::TcpStream};
+use tokio::io::ReadBuf;
+#[cfg(all(feature = "tokio_io", not(clickhouse_verif)))]
+use tokio::net::TcpStream;
 #[cfg(feature = "tls")]
 use tokio_native_tls::TlsStream;
 
diff --git a/src/io/transport.rs b/src/io/transport.rs
index 75f8f0e..8b058de 100644
--- a/src/io/transport.rs
+++ b/src/io/transport.rs
@@ -3,14 +3,15 @@ use std::{
     io::{self, Cursor},
     pin::Pin,
     ptr,
-    sync::{
-        self,
-        atomic::{AtomicBool, Ordering},
-        Arc,
-    },
+    sync::{self, atomic::Ordering, Arc},
     task::{self, Poll},
 };
 
+#[cfg(clickhouse_verif)]
+use crate::verif::atomic::AtomicBool;
+#[cfg(not(clickhouse_verif))]
+use std::sync::atomic::AtomicBool;
+
 use chrono_tz::Tz;
 use log::trace;
 
diff --git a/src/lib.rs b/src/lib.rs
index c475868..42f442d 100755
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -107,6 +107,7 @@
 //! ```
 
 #![recursion_limit = "1024"]
+#![allow(unexpected_cfgs)] // `clickhouse_verif`, see `verif.rs`
 
 use std::{fmt, future::Future, time::Duration};
 
@@ -144,6 +145,9 @@ pub mod pool;
 mod retry_guard;
 /// Clickhouse types.
 pub mod types;
+#[cfg(clickhouse_verif)]
+#[doc(hidden)]
+pub mod verif;
 
 /// This macro is a convenient way to pass row into a block.
 ///
diff --git a/src/pool/mod.rs b/src/pool/mod.rs
index 5d94fa0..ced7ebd 100644
--- a/src/pool/mod.rs
+++ b/src/pool/mod.rs
@@ -1,11 +1,17 @@
 use std::{
     fmt, mem,
     pin::Pin,
-    sync::atomic::{self, Ordering},
+    sync::atomic::Ordering,
     sync::Arc,
     task::{Context, Poll, Waker},
 };
 
+#[cfg(not(clickhouse_verif))]
+use std::sync::atomic;
+
+#[cfg(clickhouse_verif)]
+use crate::verif::{atomic, crossbeam};
+
 use futures_util::future::BoxFuture;
 use log::{error, warn};
 
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..ea90d0a
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,331 @@
+//! Verification hooks, compiled only with `--cfg clickhouse_verif`.
+//!
+//! The module stands in for the outside world of the crate: TCP connections are opened by a
+//! connector which the verification harness installs, and the operations on memory shared
+//! between threads announce themselves to a scheduler installed by the harness.
+
+use std::{
+    cell::RefCell,
+    future::Future,
+    io,
+    net::SocketAddr,
+    pin::Pin,
+    sync::Arc,
+    task::{Context, Poll},
+};
+
+use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};
+
+/// Other end of a connection.
+pub trait Io: AsyncRead + AsyncWrite + Send + Unpin {}
+
+impl<T: AsyncRead + AsyncWrite + Send + Unpin> Io for T {}
+
+pub type Connecting = Pin<Box<dyn Future<Output = io::Result<Box<dyn Io>>> + Send>>;
+
+pub type Connector = Arc<dyn Fn(SocketAddr) -> Connecting + Send + Sync>;
+
+/// Called with the name of the operation about to be performed, and whether the thread cannot
+/// proceed until another thread has made a step.
+pub type Scheduler = Arc<dyn Fn(&'static str, bool) + Send + Sync>;
+
+thread_local! {
+    static CONNECTOR: RefCell<Option<Connector>> = const { RefCell::new(None) };
+    static SCHEDULER: RefCell<Option<Scheduler>> = const { RefCell::new(None) };
+}
+
+/// Installs the connector of the current thread.
+pub fn set_connector(connector: Option<Connector>) {
+    CONNECTOR.with(|c| *c.borrow_mut() = connector);
+}
+
+/// Installs the scheduler of the current thread.
+pub fn set_scheduler(scheduler: Option<Scheduler>) {
+    SCHEDULER.with(|s| *s.borrow_mut() = scheduler);
+}
+
+/// A point at which another thread may run.
+pub fn sched_point(what: &'static str) {
+    yield_to_scheduler(what, false);
+}
+
+fn yield_to_scheduler(what: &'static str, blocked: bool) {
+    let scheduler = SCHEDULER
+        .try_with(|s| s.try_borrow().ok().and_then(|s| s.clone()))
+        .ok()
+        .flatten();
+    if let Some(scheduler) = scheduler {
+        scheduler(what, blocked);
+    }
+}
+
+pub struct TcpStream {
+    inner: Box<dyn Io>,
+}
+
+impl TcpStream {
+    pub async fn connect(addr: SocketAddr) -> io::Result<Self> {
+        let connector = CONNECTOR.with(|c| c.borrow().clone());
+        match connector {
+            None => Err(io::Error::new(io::ErrorKind::Other, "no connector")),
+            Some(connect) => Ok(Self {
+                inner: connect(addr).await?,
+            }),
+        }
+    }
+
+    pub fn set_nodelay(&self, _nodelay: bool) -> io::Result<()> {
+        Ok(())
+    }
+}
+
+impl AsyncRead for TcpStream {
+    fn poll_read(
+        mut self: Pin<&mut Self>,
+        cx: &mut Context<'_>,
+        buf: &mut ReadBuf<'_>,
+    ) -> Poll<io::Result<()>> {
+        Pin::new(&mut self.inner).poll_read(cx, buf)
+    }
+}
+
+impl AsyncWrite for TcpStream {
+    fn poll_write(
+        mut self: Pin<&mut Self>,
+        cx: &mut Context<'_>,
+        buf: &[u8],
+    ) -> Poll<io::Result<usize>> {
+        Pin::new(&mut self.inner).poll_write(cx, buf)
+    }
+
+    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
+        Pin::new(&mut self.inner).poll_flush(cx)
+    }
+
+    fn poll_shutdown(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
+        Pin::new(&mut self.inner).poll_shutdown(cx)
+    }
+}
+
+/// Stand-in for the `crossbeam` crate.
+pub mod crossbeam {
+    pub mod queue {
+        use crate::verif::sched_point;
+
+        pub struct ArrayQueue<T>(::crossbeam::queue::ArrayQueue<T>);
+
+        impl<T> ArrayQueue<T> {
+            pub fn new(cap: usize) -> Self {
+                Self(::crossbeam::queue::ArrayQueue::new(cap))
+            }
+
+            pub fn push(&self, value: T) -> Result<(), T> {
+                sched_point("ArrayQueue::push");
+                self.0.push(value)
+            }
+
+            pub fn force_push(&self, value: T) -> Option<T> {
+                sched_point("ArrayQueue::force_push");
+                self.0.force_push(value)
+            }
+
+            pub fn pop(&self) -> Option<T> {
+                sched_point("ArrayQueue::pop");
+                self.0.pop()
+            }
+
+            pub fn len(&self) -> usize {
+                sched_point("ArrayQueue::len");
+                self.0.len()
+            }
+
+            pub fn is_empty(&self) -> bool {
+                sched_point("ArrayQueue::is_empty");
+                self.0.is_empty()
+            }
+
+            pub fn is_full(&self) -> bool {
+                sched_point("ArrayQueue::is_full");
+                self.0.is_full()
+            }
+
+            pub fn capacity(&self) -> usize {
+                self.0.capacity()
+            }
+        }
+
+        pub struct SegQueue<T>(::crossbeam::queue::SegQueue<T>);
+
+        impl<T> SegQueue<T> {
+            #[allow(clippy::new_without_default)]
+            pub fn new() -> Self {
+                Self(::crossbeam::queue::SegQueue::new())
+            }
+
+            pub fn push(&self, value: T) {
+                sched_point("SegQueue::push");
+                self.0.push(value)
+            }
+
+            pub fn pop(&self) -> Option<T> {
+                sched_point("SegQueue::pop");
+                self.0.pop()
+            }
+
+            pub fn len(&self) -> usize {
+                sched_point("SegQueue::len");
+                self.0.len()
+            }
+
+            pub fn is_empty(&self) -> bool {
+                sched_point("SegQueue::is_empty");
+                self.0.is_empty()
+            }
+        }
+    }
+}
+
+/// Stand-in for `std::sync::atomic`.
+pub mod atomic {
+    use crate::verif::sched_point;
+
+    pub use std::sync::atomic::Ordering;
+
+    pub struct AtomicBool(std::sync::atomic::AtomicBool);
+
+    impl AtomicBool {
+        pub fn new(value: bool) -> Self {
+            Self(std::sync::atomic::AtomicBool::new(value))
+        }
+
+        pub fn load(&self, order: Ordering) -> bool {
+            sched_point("AtomicBool::load");
+            self.0.load(order)
+        }
+
+        pub fn store(&self, value: bool, order: Ordering) {
+            sched_point("AtomicBool::store");
+            self.0.store(value, order)
+        }
+
+        pub fn swap(&self, value: bool, order: Ordering) -> bool {
+            sched_point("AtomicBool::swap");
+            self.0.swap(value, order)
+        }
+
+        pub fn compare_exchange(
+            &self,
+            current: bool,
+            new: bool,
+            success: Ordering,
+            failure: Ordering,
+        ) -> Result<bool, bool> {
+            sched_point("AtomicBool::compare_exchange");
+            self.0.compare_exchange(current, new, success, failure)
+        }
+    }
+
+    pub struct AtomicUsize(std::sync::atomic::AtomicUsize);
+
+    impl AtomicUsize {
+        pub fn new(value: usize) -> Self {
+            Self(std::sync::atomic::AtomicUsize::new(value))
+        }
+
+        pub fn load(&self, order: Ordering) -> usize {
+            sched_point("AtomicUsize::load");
+            self.0.load(order)
+        }
+
+        pub fn store(&self, value: usize, order: Ordering) {
+            sched_point("AtomicUsize::store");
+            self.0.store(value, order)
+        }
+
+        pub fn swap(&self, value: usize, order: Ordering) -> usize {
+            sched_point("AtomicUsize::swap");
+            self.0.swap(value, order)
+        }
+
+        pub fn fetch_add(&self, value: usize, order: Ordering) -> usize {
+            sched_point("AtomicUsize::fetch_add");
+            self.0.fetch_add(value, order)
+        }
+
+        pub fn fetch_sub(&self, value: usize, order: Ordering) -> usize {
+            sched_point("AtomicUsize::fetch_sub");
+            self.0.fetch_sub(value, order)
+        }
+
+        pub fn fetch_max(&self, value: usize, order: Ordering) -> usize {
+            sched_point("AtomicUsize::fetch_max");
+            self.0.fetch_max(value, order)
+        }
+
+        pub fn fetch_min(&self, value: usize, order: Ordering) -> usize {
+            sched_point("AtomicUsize::fetch_min");
+            self.0.fetch_min(value, order)
+        }
+
+        pub fn fetch_update<F>(
+            &self,
+            set_order: Ordering,
+            fetch_order: Ordering,
+            f: F,
+        ) -> Result<usize, usize>
+        where
+            F: FnMut(usize) -> Option<usize>,
+        {
+            sched_point("AtomicUsize::fetch_update");
+            self.0.fetch_update(set_order, fetch_order, f)
+        }
+
+        pub fn compare_exchange(
+            &self,
+            current: usize,
+            new: usize,
+            success: Ordering,
+            failure: Ordering,
+        ) -> Result<usize, usize> {
+            sched_point("AtomicUsize::compare_exchange");
+            self.0.compare_exchange(current, new, success, failure)
+        }
+
+        pub fn compare_exchange_weak(
+            &self,
+            current: usize,
+            new: usize,
+            success: Ordering,
+            failure: Ordering,
+        ) -> Result<usize, usize> {
+            sched_point("AtomicUsize::compare_exchange_weak");
+            self.0.compare_exchange(current, new, success, failure)
+        }
+    }
+}
+
+/// Stand-in for `std::sync::Mutex`.
+pub mod sync {
+    use std::sync::{LockResult, MutexGuard, TryLockError};
+
+    use crate::verif::{sched_point, yield_to_scheduler};
+
+    pub struct Mutex<T>(std::sync::Mutex<T>);
+
+    impl<T> Mutex<T> {
+        pub fn new(value: T) -> Self {
+            Self(std::sync::Mutex::new(value))
+        }
+
+        pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
+            sched_point("Mutex::lock");
+            loop {
+                match self.0.try_lock() {
+                    Ok(guard) => return Ok(guard),
+                    Err(TryLockError::Poisoned(err)) => return Err(err),
+                    Err(TryLockError::WouldBlock) => yield_to_scheduler("Mutex::lock", true),
+                }
+            }
+        }
+    }
+}
-- 
2.43.0


From 3c1c6ed0ab7fa9b0da97eb0d6632be98a089f0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:58 +0000
Subject: [PATCH 02/63] fix: fetch_all of a statement without a result returns
 an empty block instead of panicking

---
 src/types/block/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/types/block/mod.rs b/src/types/block/mod.rs
index 4ab5446..6e03e5c 100644
--- a/src/types/block/mod.rs
+++ b/src/types/block/mod.rs
@@ -276,7 +276,10 @@ impl<K: ColumnType> Block<K> {
 
 impl Block<Simple> {
     pub(crate) fn concat(blocks: &[Self]) -> Block<Complex> {
-        let first = blocks.first().expect("blocks should not be empty.");
+        let first = match blocks.first() {
+            Some(first) => first,
+            None => return Block::default(),
+        };
 
         for block in blocks {
             assert_eq!(
-- 
2.43.0


From 282955d0ca34940ed8d9ea1d0d7236df8e3e3828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:16 +0000
Subject: [PATCH 03/63] fix: a connection closed during an exchange is an
 error, not a panic

---
 src/io/transport.rs | 7 ++++---
 src/lib.rs          | 6 +++---
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/io/transport.rs b/src/io/transport.rs
index 8b058de..5abb3e7 100644
--- a/src/io/transport.rs
+++ b/src/io/transport.rs
@@ -19,7 +19,7 @@ use pin_project::pin_project;
 
 use crate::{
     binary::Parser,
-    errors::{DriverError, Error, Result},
+    errors::{ConnectionError, DriverError, Error, Result},
     io::{read_to_end::read_to_end, Stream as InnerStream},
     pool::{Inner, Pool},
     types::{Block, Cmd, Packet},
@@ -120,7 +120,7 @@ impl ClickhouseTransport {
             }
         }
 
-        let mut transport = h.unwrap();
+        let mut transport = h.ok_or(Error::Connection(ConnectionError::Broken))?;
         transport.inconsistent = false;
         Ok(transport)
     }
@@ -317,7 +317,8 @@ impl PacketStream {
             }
         }
 
-        Ok((h.unwrap(), b))
+        let h = h.ok_or(Error::Connection(ConnectionError::Broken))?;
+        Ok((h, b))
     }
 
     pub(crate) fn take_transport(&mut self) -> Option<ClickhouseTransport> {
diff --git a/src/lib.rs b/src/lib.rs
index 42f442d..292cd38 100755
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -328,7 +328,7 @@ impl ClientHandle {
         }
 
         self.inner = h;
-        self.context.server_info = info.unwrap();
+        self.context.server_info = info.ok_or(Error::Connection(ConnectionError::Broken))?;
         Ok(())
     }
 
@@ -426,7 +426,7 @@ impl ClientHandle {
                             }
                         }
 
-                        Ok(h.unwrap())
+                        h.ok_or(Error::Connection(ConnectionError::Broken))
                     }
                 })
                 .await
@@ -502,7 +502,7 @@ impl ClientHandle {
     ) -> Result<(ClickhouseTransport, Block)> {
         let stream = transport.call(Cmd::SendQuery(query, context));
         let (transport, b) = stream.read_block().await?;
-        let dst_block = b.unwrap();
+        let dst_block = b.ok_or(Error::Driver(DriverError::UnexpectedPacket))?;
         Ok((transport, dst_block))
     }
 
-- 
2.43.0


From 3ca586fd757123e082247667bd22379893c45de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:16 +0000
Subject: [PATCH 04/63] fix: deliver the packets that arrived before the
 connection was closed

---
 src/io/transport.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/io/transport.rs b/src/io/transport.rs
index 5abb3e7..d4b651f 100644
--- a/src/io/transport.rs
+++ b/src/io/transport.rs
@@ -275,6 +275,7 @@ impl Stream for ClickhouseTransport {
         }
 
         // Fill the buffer!
+        let mut failure = None;
         while !*this.done {
             match read_to_end(this.inner.as_mut(), cx, this.rd) {
                 Poll::Ready(Ok(0)) => {
@@ -282,21 +283,25 @@ impl Stream for ClickhouseTransport {
                     break;
                 }
                 Poll::Ready(Ok(_)) => {}
-                Poll::Ready(Err(e)) => return Poll::Ready(Some(Err(e))),
+                Poll::Ready(Err(e)) => {
+                    failure = Some(e);
+                    break;
+                }
                 Poll::Pending => break,
             }
         }
 
-        if *this.done {
-            return Poll::Ready(None);
-        }
-
-        // Try to parse the new data!
+        // Try to parse the new data! Packets that arrived before the connection
+        // was closed or broke are still delivered.
         let ret = this.try_parse_msg();
 
         *this.buf_is_incomplete = matches!(ret, Poll::Pending);
 
-        ret
+        match (ret, failure) {
+            (Poll::Pending, Some(e)) => Poll::Ready(Some(Err(e))),
+            (Poll::Pending, None) if *this.done => Poll::Ready(None),
+            (ret, _) => ret,
+        }
     }
 }
 
-- 
2.43.0


From e30938e4f6290d29cef9d6e5993170788ab0aa47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:16 +0000
Subject: [PATCH 05/63] fix: a handle can be used again after a failed
 operation or without a pool

---
 src/pool/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pool/mod.rs b/src/pool/mod.rs
index ced7ebd..b55dc31 100644
--- a/src/pool/mod.rs
+++ b/src/pool/mod.rs
@@ -90,14 +90,14 @@ impl PoolBinding {
     pub(crate) fn attach(&mut self) {
         match self.take() {
             PoolBinding::Detached(pool) => *self = PoolBinding::Attached(pool),
-            _ => unreachable!(),
+            binding => *self = binding,
         }
     }
 
     pub(crate) fn detach(&mut self) {
         match self.take() {
             PoolBinding::Attached(pool) => *self = PoolBinding::Detached(pool),
-            _ => unreachable!(),
+            binding => *self = binding,
         }
     }
 }
-- 
2.43.0


From c0b8d7b87c14e0211eac532b3e20c0d9ddc0e085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:17 +0000
Subject: [PATCH 06/63] fix: do not keep a broken connection after an error
 while streaming a result

---
 src/types/query_result/stream_blocks.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/types/query_result/stream_blocks.rs b/src/types/query_result/stream_blocks.rs
index 83f6103..4e800b0 100644
--- a/src/types/query_result/stream_blocks.rs
+++ b/src/types/query_result/stream_blocks.rs
@@ -86,7 +86,10 @@ impl<'a> Stream for BlockStream<'a> {
             };
 
             let packet = match self.inner.poll_next_unpin(cx) {
-                Poll::Ready(Some(Err(err))) => return Poll::Ready(Some(Err(err.into()))),
+                Poll::Ready(Some(Err(err))) => {
+                    self.state = BlockStreamState::Error;
+                    return Poll::Ready(Some(Err(err.into())));
+                }
                 Poll::Pending => return Poll::Pending,
                 Poll::Ready(None) => {
                     self.state = BlockStreamState::Error;
@@ -116,7 +119,10 @@ impl<'a> Stream for BlockStream<'a> {
                         return Poll::Ready(Some(Ok(block)));
                     }
                 }
-                _ => return Poll::Ready(Some(Err(Error::Driver(DriverError::UnexpectedPacket)))),
+                _ => {
+                    self.state = BlockStreamState::Error;
+                    return Poll::Ready(Some(Err(Error::Driver(DriverError::UnexpectedPacket))));
+                }
             }
         }
     }
-- 
2.43.0


From 68f122cdcc7ff94aac5c27579b2f94f97071ee0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:51 +0000
Subject: [PATCH 07/63] fix: drain the rest of an abandoned result before the
 next streamed query without ping

---
 src/lib.rs | 39 ++++++++++++++++++++++-----------------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 292cd38..22ae120 100755
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -554,25 +554,30 @@ impl ClientHandle {
             Err(err) => return Box::pin(stream::once(future::err(err))),
         };
 
-        if ping_before_query {
-            let fut: BoxFuture<'a, BoxStream<'a, Result<Block>>> = Box::pin(async move {
-                let inner: BoxStream<'a, Result<Block>> = match self.check_connection().await {
-                    Ok(_) => match f(self) {
-                        Ok(s) => Box::pin(s),
-                        Err(err) => Box::pin(stream::once(future::err(err))),
-                    },
+        let fut: BoxFuture<'a, BoxStream<'a, Result<Block>>> = Box::pin(async move {
+            let ready = if ping_before_query {
+                self.check_connection().await
+            } else {
+                self.clear().await
+            };
+            let inner: BoxStream<'a, Result<Block>> = match ready {
+                Ok(_) => match f(self) {
+                    Ok(s) => Box::pin(s),
                     Err(err) => Box::pin(stream::once(future::err(err))),
-                };
-                inner
-            });
-
-            Box::pin(fut.flatten_stream())
-        } else {
-            match f(self) {
-                Ok(s) => Box::pin(s),
+                },
                 Err(err) => Box::pin(stream::once(future::err(err))),
-            }
-        }
+            };
+            inner
+        });
+
+        Box::pin(fut.flatten_stream())
+    }
+
+    /// Drops what is left of the reply to an abandoned query.
+    async fn clear(&mut self) -> Result<()> {
+        let transport = self.get_inner()?.clear().await?;
+        self.inner = Some(transport);
+        Ok(())
     }
 
     /// Check connection and try to reconnect if necessary.
-- 
2.43.0


From fd5342f7fc82924fd3a3c4a233cd475e499805b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:11:05 +0000
Subject: [PATCH 08/63] fix: an exception of an abandoned query is not reported
 by the next operation

---
 src/io/transport.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/io/transport.rs b/src/io/transport.rs
index d4b651f..c1127f1 100644
--- a/src/io/transport.rs
+++ b/src/io/transport.rs
@@ -114,7 +114,10 @@ impl ClickhouseTransport {
                     h = Some(inner);
                 }
                 Ok(Packet::Eof(inner)) => h = Some(inner),
-                Ok(Packet::Exception(e)) => return Err(Error::Server(e)),
+                // The exception belongs to the abandoned query, not to the next one.
+                Ok(Packet::Exception(_)) => {
+                    return Err(Error::Connection(ConnectionError::Broken))
+                }
                 Err(e) => return Err(Error::Io(e)),
                 _ => {}
             }
-- 
2.43.0


From 0cce66f1500aa8ac6ce88cd412454d097443da89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:52 +0000
Subject: [PATCH 09/63] fix: accept progress and profile packets while
 inserting

---
 src/io/transport.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/transport.rs b/src/io/transport.rs
index c1127f1..083a9cb 100644
--- a/src/io/transport.rs
+++ b/src/io/transport.rs
@@ -319,7 +319,7 @@ impl PacketStream {
                 Ok(Packet::Eof(inner)) => h = Some(inner),
                 Ok(Packet::Block(block)) => b = Some(block),
                 Ok(Packet::Exception(e)) => return Err(Error::Server(e)),
-                Ok(Packet::TableColumns(_)) => (),
+                Ok(Packet::TableColumns(_)) | Ok(Packet::Progress(_)) | Ok(Packet::ProfileInfo(_)) => {}
                 Err(e) => return Err(Error::Io(e)),
                 _ => return Err(Error::Driver(DriverError::UnexpectedPacket)),
             }
-- 
2.43.0


From 15d5dda2c7de6e8a567c497697c19027370a1d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:52 +0000
Subject: [PATCH 10/63] fix: an insert without rows sends the end marker once

---
 src/lib.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 22ae120..bfc0e03 100755
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -511,10 +511,13 @@ impl ClientHandle {
         context: Context,
         block: Block,
     ) -> Result<ClickhouseTransport> {
-        let send_cmd = Cmd::Union(
-            Box::new(Cmd::SendData(block, context.clone())),
-            Box::new(Cmd::SendData(Block::default(), context)),
-        );
+        let end_cmd = Cmd::SendData(Block::default(), context.clone());
+        // A block without columns is the end marker, there has to be only one of them.
+        let send_cmd = if block.is_empty() {
+            end_cmd
+        } else {
+            Cmd::Union(Box::new(Cmd::SendData(block, context)), Box::new(end_cmd))
+        };
         let (transport, _) = transport.call(send_cmd).read_block().await?;
         Ok(transport)
     }
-- 
2.43.0


From 8e7ef4fbde2bd1f097276f343b9ccb104c4fdb96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:52 +0000
Subject: [PATCH 11/63] fix: array and map columns are written correctly from
 the second insert chunk on

---
 src/types/column/array.rs | 10 +++++++---
 src/types/column/map.rs   | 12 ++++++++----
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/types/column/array.rs b/src/types/column/array.rs
index b083012..e7d2a75 100644
--- a/src/types/column/array.rs
+++ b/src/types/column/array.rs
@@ -49,14 +49,18 @@ impl ColumnData for ArrayColumnData {
     }
 
     fn save(&self, encoder: &mut Encoder, start: usize, end: usize) {
-        let mut offset = 0_u64;
+        let first = match start {
+            0 => 0_u64,
+            _ => self.offsets.at(start - 1),
+        };
+        let mut offset = first;
 
         for i in start..end {
             offset = self.offsets.at(i);
-            encoder.write(offset);
+            encoder.write(offset - first);
         }
 
-        self.inner.save(encoder, 0, offset as usize);
+        self.inner.save(encoder, first as usize, offset as usize);
     }
 
     fn len(&self) -> usize {
diff --git a/src/types/column/map.rs b/src/types/column/map.rs
index 73e014a..beff2c2 100644
--- a/src/types/column/map.rs
+++ b/src/types/column/map.rs
@@ -54,15 +54,19 @@ impl ColumnData for MapColumnData {
     }
 
     fn save(&self, encoder: &mut Encoder, start: usize, end: usize) {
-        let mut offset = 0_u64;
+        let first = match start {
+            0 => 0_u64,
+            _ => self.offsets.at(start - 1),
+        };
+        let mut offset = first;
 
         for i in start..end {
             offset = self.offsets.at(i);
-            encoder.write(offset);
+            encoder.write(offset - first);
         }
 
-        self.keys.save(encoder, 0, offset as usize);
-        self.values.save(encoder, 0, offset as usize);
+        self.keys.save(encoder, first as usize, offset as usize);
+        self.values.save(encoder, first as usize, offset as usize);
     }
 
     fn len(&self) -> usize {
-- 
2.43.0


From dff1d505a4c17539e9161dc3be3b0ef103e1a54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:12 +0000
Subject: [PATCH 12/63] fix: inserting a malformed IP address is an error, not
 a panic

---
 src/types/column/mod.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/types/column/mod.rs b/src/types/column/mod.rs
index c08439f..4449466 100644
--- a/src/types/column/mod.rs
+++ b/src/types/column/mod.rs
@@ -2,6 +2,7 @@ use std::{
     marker,
     net::{Ipv4Addr, Ipv6Addr},
     ops,
+    str::FromStr,
     sync::Arc,
 };
 
@@ -391,8 +392,7 @@ impl<K: ColumnType> Column<K> {
                 let n = self.len();
                 let mut inner = Vec::with_capacity(n);
                 for i in 0..n {
-                    let source = self.at(i).as_str().unwrap();
-                    let ip: Ipv4Addr = source.parse().unwrap();
+                    let ip: Ipv4Addr = parse_ip(&self.at(i), &dst_type)?;
                     let mut buffer = [0_u8; 4];
                     buffer.copy_from_slice(&ip.octets());
                     buffer.reverse();
@@ -416,8 +416,7 @@ impl<K: ColumnType> Column<K> {
                 let n = self.len();
                 let mut inner = Vec::with_capacity(n);
                 for i in 0..n {
-                    let source = self.at(i).as_str().unwrap();
-                    let ip: Ipv6Addr = source.parse().unwrap();
+                    let ip: Ipv6Addr = parse_ip(&self.at(i), &dst_type)?;
                     inner.extend(&ip.octets());
                 }
 
@@ -495,6 +494,16 @@ impl<K: ColumnType> Column<K> {
     }
 }
 
+fn parse_ip<T: FromStr>(source: &ValueRef, dst_type: &SqlType) -> Result<T> {
+    let source = source.as_str()?;
+    source.parse().map_err(|_| {
+        Error::FromSql(FromSqlError::InvalidType {
+            src: format!("String ({source:?})").into(),
+            dst: dst_type.to_string(),
+        })
+    })
+}
+
 pub(crate) fn new_column<K: ColumnType>(
     name: &str,
     data: Arc<(dyn ColumnData + Sync + Send + 'static)>,
-- 
2.43.0


From 75e76f74fb483a96834c385f7174cba000d3c01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:38 +0000
Subject: [PATCH 13/63] fix: iterating a low-cardinality column does not depend
 on a null vtable

---
 src/types/column/iter/mod.rs        | 5 ++++-
 src/types/column/low_cardinality.rs | 6 +++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/types/column/iter/mod.rs b/src/types/column/iter/mod.rs
index f34956f..a7d8878 100644
--- a/src/types/column/iter/mod.rs
+++ b/src/types/column/iter/mod.rs
@@ -901,8 +901,11 @@ impl<'a> Iterable<'a, Simple> for &[u8] {
                 let mut internals = LowCardinalityInternals::default();
                 unsafe {
                     column.get_internals(&mut internals, 1, 0)?;
+                    let Some(accessor) = internals.accessor else {
+                        return Err(Error::FromSql(FromSqlError::UnsupportedOperation));
+                    };
                     size = (*internals.index).len();
-                    StringInnerIterator::LowCardinality(internals.index, internals.accessor)
+                    StringInnerIterator::LowCardinality(internals.index, accessor)
                 }
             }
             SqlType::String => {
diff --git a/src/types/column/low_cardinality.rs b/src/types/column/low_cardinality.rs
index a69eac9..741cc5e 100644
--- a/src/types/column/low_cardinality.rs
+++ b/src/types/column/low_cardinality.rs
@@ -167,14 +167,14 @@ impl LowCardinalityIndex {
 #[derive(Debug)]
 pub(crate) struct LowCardinalityInternals {
     pub(crate) index: *const LowCardinalityIndex,
-    pub(crate) accessor: *const dyn LowCardinalityAccessor,
+    pub(crate) accessor: Option<*const dyn LowCardinalityAccessor>,
 }
 
 impl Default for LowCardinalityInternals {
     fn default() -> Self {
         LowCardinalityInternals {
             index: ptr::null_mut(),
-            accessor: unsafe { mem::transmute([ptr::null_mut::<()>(), ptr::null_mut()]) },
+            accessor: None,
         }
     }
 }
@@ -355,7 +355,7 @@ impl ColumnData for LowCardinalityColumnData {
         unsafe {
             let data_ref = &mut *(data_ptr as *mut LowCardinalityInternals);
             data_ref.index = &self.index as *const LowCardinalityIndex;
-            data_ref.accessor = mem::transmute(accessor);
+            data_ref.accessor = Some(mem::transmute(accessor));
             Ok(())
         }
     }
-- 
2.43.0


From 064e9c83599f7a8510e3ee7cbca967d9c01ec064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:18 +0000
Subject: [PATCH 14/63] fix: typed iteration of maps and nested columns reads
 the nested columns

---
 src/types/column/array.rs       |  7 +++++++
 src/types/column/column_data.rs |  5 +++++
 src/types/column/iter/mod.rs    | 34 ++++++++++++++++++++++++++-------
 src/types/column/map.rs         |  8 ++++++++
 src/types/column/nullable.rs    |  7 +++++++
 src/types/mod.rs                |  9 ---------
 6 files changed, 54 insertions(+), 16 deletions(-)

diff --git a/src/types/column/array.rs b/src/types/column/array.rs
index e7d2a75..8e59990 100644
--- a/src/types/column/array.rs
+++ b/src/types/column/array.rs
@@ -137,6 +137,13 @@ impl ColumnData for ArrayColumnData {
         None
     }
 
+    fn nested(&self, index: usize) -> Option<&ArcColumnData> {
+        match index {
+            0 => Some(&self.inner),
+            _ => None,
+        }
+    }
+
     fn get_timezone(&self) -> Option<Tz> {
         self.inner.get_timezone()
     }
diff --git a/src/types/column/column_data.rs b/src/types/column/column_data.rs
index 9712ae8..9ffb522 100644
--- a/src/types/column/column_data.rs
+++ b/src/types/column/column_data.rs
@@ -43,6 +43,11 @@ pub trait ColumnData {
         None
     }
 
+    /// Columns this column is composed of: the inner column, or the keys and the values of a map.
+    fn nested(&self, _index: usize) -> Option<&ArcColumnData> {
+        None
+    }
+
     fn get_timezone(&self) -> Option<Tz>;
 
     fn get_low_cardinality_accessor(&self) -> Option<&dyn LowCardinalityAccessor> {
diff --git a/src/types/column/iter/mod.rs b/src/types/column/iter/mod.rs
index a7d8878..f20f4f2 100644
--- a/src/types/column/iter/mod.rs
+++ b/src/types/column/iter/mod.rs
@@ -1198,6 +1198,28 @@ fn date_iter(column: &Column<Simple>, props: u32) -> Result<DateTimeInternals> {
     Ok(internals)
 }
 
+fn nested_iter<'a, T>(
+    column: &'a Column<Simple>,
+    index: usize,
+    column_type: &SqlType,
+) -> Result<T::Iter>
+where
+    T: Iterable<'a, Simple>,
+{
+    let Some(data) = column.data.nested(index) else {
+        return Err(Error::FromSql(FromSqlError::UnsupportedOperation));
+    };
+
+    let nested: Column<Simple> = Column {
+        name: String::new(),
+        data: data.clone(),
+        _marker: marker::PhantomData,
+    };
+
+    // The nested data belongs to `column` and therefore outlives the iterator.
+    unsafe { T::iter(mem::transmute(&nested), column_type.clone()) }
+}
+
 impl<'a, T> Iterable<'a, Simple> for Option<T>
 where
     T: Iterable<'a, Simple>,
@@ -1210,7 +1232,7 @@ where
         props: u32,
     ) -> Result<Self::Iter> {
         let inner = if let SqlType::Nullable(inner_type) = column_type {
-            T::iter(column, inner_type.clone())?
+            nested_iter::<T>(column, 0, inner_type)?
         } else {
             return Err(Error::FromSql(FromSqlError::InvalidType {
                 src: column_type.to_string(),
@@ -1249,10 +1271,10 @@ where
     fn iter_with_props(
         column: &'a Column<Simple>,
         column_type: SqlType,
-        props: u32,
+        _props: u32,
     ) -> Result<Self::Iter> {
         let inner = if let SqlType::Array(inner_type) = column_type {
-            T::iter_with_props(column, inner_type.clone(), props)?
+            nested_iter::<T>(column, 0, inner_type)?
         } else {
             return Err(Error::FromSql(FromSqlError::InvalidType {
                 src: column_type.to_string(),
@@ -1295,11 +1317,9 @@ where
         props: u32,
     ) -> Result<Self::Iter> {
         let inner = if let SqlType::Map(k_type, v_type) = column_type {
-            let k_level = (column.sql_type().map_level() - column_type.map_level()) as u32;
-            let k_props = 1 | (k_level << 1);
             (
-                K::iter_with_props(column, k_type.clone(), k_props)?,
-                V::iter_with_props(column, v_type.clone(), 0)?,
+                nested_iter::<K>(column, 0, k_type)?,
+                nested_iter::<V>(column, 1, v_type)?,
             )
         } else {
             return Err(Error::FromSql(FromSqlError::InvalidType {
diff --git a/src/types/column/map.rs b/src/types/column/map.rs
index beff2c2..364636c 100644
--- a/src/types/column/map.rs
+++ b/src/types/column/map.rs
@@ -159,6 +159,14 @@ impl ColumnData for MapColumnData {
         }
     }
 
+    fn nested(&self, index: usize) -> Option<&ArcColumnData> {
+        match index {
+            0 => Some(&self.keys),
+            1 => Some(&self.values),
+            _ => None,
+        }
+    }
+
     fn get_timezone(&self) -> Option<Tz> {
         self.values.get_timezone()
     }
diff --git a/src/types/column/nullable.rs b/src/types/column/nullable.rs
index d9b2b6e..365f116 100644
--- a/src/types/column/nullable.rs
+++ b/src/types/column/nullable.rs
@@ -117,6 +117,13 @@ impl ColumnData for NullableColumnData {
         None
     }
 
+    fn nested(&self, index: usize) -> Option<&ArcColumnData> {
+        match index {
+            0 => Some(&self.inner),
+            _ => None,
+        }
+    }
+
     fn get_timezone(&self) -> Option<Tz> {
         self.inner.get_timezone()
     }
diff --git a/src/types/mod.rs b/src/types/mod.rs
index 83ff796..dcab805 100644
--- a/src/types/mod.rs
+++ b/src/types/mod.rs
@@ -453,15 +453,6 @@ impl SqlType {
             _ => 0,
         }
     }
-
-    pub(crate) fn map_level(&self) -> u8 {
-        match self {
-            SqlType::Nullable(inner) => inner.level(),
-            SqlType::Array(inner) => inner.level(),
-            SqlType::Map(_, value) => 1 + value.level(),
-            _ => 0,
-        }
-    }
 }
 
 impl fmt::Display for SqlType {
-- 
2.43.0


From 29b06e653b8689cabd52d17835c2e96e054bb103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:19 +0000
Subject: [PATCH 15/63] fix: iterating a multi-block column as a wrong type is
 an error, not a panic

---
 src/types/column/iter/mod.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/types/column/iter/mod.rs b/src/types/column/iter/mod.rs
index f20f4f2..e62bdd3 100644
--- a/src/types/column/iter/mod.rs
+++ b/src/types/column/iter/mod.rs
@@ -1437,6 +1437,17 @@ where
             &*data
         };
 
+        // Reports a wrong type here rather than while iterating.
+        if let Some(first) = data.first() {
+            let column: Column<Simple> = Column {
+                name: String::new(),
+                data: first.clone(),
+                _marker: marker::PhantomData,
+            };
+
+            unsafe { T::iter(mem::transmute(&column), column_type.clone()) }?;
+        }
+
         Ok(ComplexIterator {
             column_type,
             data,
-- 
2.43.0


From 5f69f78c2370498b163fcac68f011eb8d29ccb52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:37 +0000
Subject: [PATCH 16/63] fix: a row or column index outside a block is an error,
 not a panic

---
 src/types/block/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/types/block/mod.rs b/src/types/block/mod.rs
index 6e03e5c..a343b3b 100644
--- a/src/types/block/mod.rs
+++ b/src/types/block/mod.rs
@@ -114,7 +114,10 @@ impl<K: ColumnType> AsRef<Block<K>> for Block<K> {
 
 impl ColumnIdx for usize {
     #[inline(always)]
-    fn get_index<K: ColumnType>(&self, _: &[Column<K>]) -> Result<usize> {
+    fn get_index<K: ColumnType>(&self, columns: &[Column<K>]) -> Result<usize> {
+        if *self >= columns.len() {
+            return Err(Error::FromSql(FromSqlError::OutOfRange));
+        }
         Ok(*self)
     }
 }
@@ -221,6 +224,9 @@ impl<K: ColumnType> Block<K> {
         I: ColumnIdx + Copy,
     {
         let column_index = col.get_index(self.columns())?;
+        if row >= self.columns[column_index].len() {
+            return Err(Error::FromSql(FromSqlError::OutOfRange));
+        }
         T::from_sql(self.columns[column_index].at(row))
     }
 
-- 
2.43.0


From d36fe549792f6fae46d5e038c5286504b4d37485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:25 +0000
Subject: [PATCH 17/63] fix: nested and malformed type names are parsed without
 panics or wrong splits

---
 src/types/column/factory.rs | 95 ++++++++++++++++---------------------
 1 file changed, 40 insertions(+), 55 deletions(-)

diff --git a/src/types/column/factory.rs b/src/types/column/factory.rs
index 274eca3..39351aa 100644
--- a/src/types/column/factory.rs
+++ b/src/types/column/factory.rs
@@ -242,24 +242,41 @@ impl dyn ColumnData {
     }
 }
 
-fn parse_fixed_string(source: &str) -> Option<usize> {
-    if !source.starts_with("FixedString") {
-        return None;
-    }
+/// Returns what stands between the parentheses of `name(...)`.
+fn parse_arguments<'a>(source: &'a str, name: &str) -> Option<&'a str> {
+    let body = source.strip_prefix(name)?.trim_start();
+    let body = body.strip_prefix('(')?.trim_end().strip_suffix(')')?;
+    Some(body.trim())
+}
 
-    let inner_size = &source[12..source.len() - 1];
-    match inner_size.parse::<usize>() {
-        Err(_) => None,
-        Ok(value) => Some(value),
+/// Finds the first comma that is not inside parentheses or quotes.
+fn find_separator(source: &str) -> Option<usize> {
+    let mut depth = 0;
+    let mut quoted = false;
+    let mut escaped = false;
+
+    for (pos, c) in source.char_indices() {
+        match c {
+            _ if escaped => escaped = false,
+            '\\' if quoted => escaped = true,
+            '\'' => quoted = !quoted,
+            _ if quoted => {}
+            '(' => depth += 1,
+            ')' => depth -= 1,
+            ',' if depth == 0 => return Some(pos),
+            _ => {}
+        }
     }
+
+    None
 }
 
-fn parse_nullable_type(source: &str) -> Option<&str> {
-    if !source.starts_with("Nullable") {
-        return None;
-    }
+fn parse_fixed_string(source: &str) -> Option<usize> {
+    parse_arguments(source, "FixedString")?.parse().ok()
+}
 
-    let inner_type = &source[9..source.len() - 1];
+fn parse_nullable_type(source: &str) -> Option<&str> {
+    let inner_type = parse_arguments(source, "Nullable")?;
 
     if inner_type.starts_with("Nullable") {
         return None;
@@ -269,21 +286,12 @@ fn parse_nullable_type(source: &str) -> Option<&str> {
 }
 
 fn parse_array_type(source: &str) -> Option<&str> {
-    if !source.starts_with("Array") {
-        return None;
-    }
-
-    let inner_type = &source[6..source.len() - 1];
-    Some(inner_type)
+    parse_arguments(source, "Array")
 }
 
 fn parse_map_type(source: &str) -> Option<(&str, &str)> {
-    if !source.starts_with("Map") {
-        return None;
-    }
-
-    let body = &source[4..source.len() - 1];
-    let comma_pos = body.chars().position(|c| c == ',')?;
+    let body = parse_arguments(source, "Map")?;
+    let comma_pos = find_separator(body)?;
 
     let key = body[0..comma_pos].trim();
     let value = body[comma_pos + 1..].trim();
@@ -292,12 +300,8 @@ fn parse_map_type(source: &str) -> Option<(&str, &str)> {
 }
 
 fn parse_simple_agg_fun(source: &str) -> Option<(SimpleAggFunc, &str)> {
-    if !source.starts_with("SimpleAggregateFunction(") || !source.ends_with(')') {
-        return None;
-    }
-
-    let args = source[23..].trim_matches(|c| c == '(' || c == ')');
-    let sep_index = args.find(',')?;
+    let args = parse_arguments(source, "SimpleAggregateFunction")?;
+    let sep_index = find_separator(args)?;
 
     let agg_func = args[..sep_index].trim();
     let agg_type = args[sep_index + 1..].trim();
@@ -397,10 +401,10 @@ enum EnumSize {
 fn parse_enum8(input: &str) -> Option<Vec<(String, i8)>> {
     match parse_enum(EnumSize::Enum8, input) {
         Some(result) => {
-            let res: Vec<(String, i8)> = result
-                .iter()
-                .map(|(key, val)| (key.clone(), *val as i8))
-                .collect();
+            let mut res: Vec<(String, i8)> = Vec::with_capacity(result.len());
+            for (key, val) in result {
+                res.push((key, i8::try_from(val).ok()?));
+            }
             Some(res)
         }
         None => None,
@@ -517,26 +521,7 @@ fn parse_date_time64(source: &str) -> Option<(u32, Option<String>)> {
 }
 
 fn parse_low_cardinality(source: &str) -> Option<&str> {
-    if !source.starts_with("LowCardinality") {
-        return None;
-    }
-
-    let mut lo = 14;
-    let mut hi = source.len() - 1;
-
-    while lo < source.len() && &source[lo..lo + 1] != "(" {
-        lo += 1;
-    }
-
-    while hi > lo && &source[hi..hi + 1] != ")" {
-        hi -= 1;
-    }
-
-    if lo >= hi {
-        return None;
-    }
-
-    Some(source[lo + 1..hi].trim())
+    parse_arguments(source, "LowCardinality")
 }
 
 fn get_timezone(timezone: &Option<String>, tz: Tz) -> Result<Tz> {
-- 
2.43.0


From 36b019f653c791556f712ae799601339a1f06000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:57 +0000
Subject: [PATCH 18/63] fix: sub-second timestamps before 1970 and beyond 2262
 are converted exactly

---
 src/types/column/datetime64.rs | 54 ++++++++++++++++++----------------
 1 file changed, 28 insertions(+), 26 deletions(-)

diff --git a/src/types/column/datetime64.rs b/src/types/column/datetime64.rs
index 7aa80d4..7d1289c 100644
--- a/src/types/column/datetime64.rs
+++ b/src/types/column/datetime64.rs
@@ -118,45 +118,47 @@ impl ColumnData for DateTime64ColumnData {
 
 pub(crate) fn from_datetime<T: TimeZone>(time: DateTime<T>, precision: u32) -> i64 {
     let base10: i64 = 10;
-    let timestamp = time.timestamp_nanos_opt().unwrap();
-    timestamp / base10.pow(9 - precision)
+    let seconds = time.timestamp().saturating_mul(base10.pow(precision));
+    let nanos = i64::from(time.timestamp_subsec_nanos());
+    seconds.saturating_add(nanos / base10.pow(9 - precision))
 }
 
+/// Splits a timestamp into whole seconds and nanoseconds.
 #[inline(always)]
-pub(crate) fn to_datetime(value: i64, precision: u32, tz: Tz) -> DateTime<Tz> {
-    to_datetime_opt(value, precision, tz).unwrap()
-}
-
-#[inline(always)]
-pub(crate) fn to_datetime_opt(value: i64, precision: u32, tz: Tz) -> LocalResult<DateTime<Tz>> {
+fn split_stamp(value: i64, precision: u32) -> (i64, u32) {
     let base10: i64 = 10;
 
-    let nano = if precision < 19 {
-        value * base10.pow(9 - precision)
+    if precision > 18 {
+        return (0, 0);
+    }
+
+    let scale = base10.pow(precision);
+    let sec = value.div_euclid(scale);
+    let frac = value.rem_euclid(scale);
+    let nsec = if precision <= 9 {
+        frac * base10.pow(9 - precision)
     } else {
-        0_i64
+        frac / base10.pow(precision - 9)
     };
 
-    let sec = nano / 1_000_000_000;
-    let nsec = nano - sec * 1_000_000_000;
-
-    tz.timestamp_opt(sec, nsec as u32)
+    (sec, nsec as u32)
 }
 
 #[inline(always)]
-pub(crate) fn to_native_datetime_opt(value: i64, precision: u32) -> Option<NaiveDateTime> {
-    let base10: i64 = 10;
-
-    let nano = if precision < 19 {
-        value * base10.pow(9 - precision)
-    } else {
-        0_i64
-    };
+pub(crate) fn to_datetime(value: i64, precision: u32, tz: Tz) -> DateTime<Tz> {
+    to_datetime_opt(value, precision, tz).unwrap()
+}
 
-    let sec = nano / 1_000_000_000;
-    let nsec = nano - sec * 1_000_000_000;
+#[inline(always)]
+pub(crate) fn to_datetime_opt(value: i64, precision: u32, tz: Tz) -> LocalResult<DateTime<Tz>> {
+    let (sec, nsec) = split_stamp(value, precision);
+    tz.timestamp_opt(sec, nsec)
+}
 
-    NaiveDateTime::from_timestamp_opt(sec, nsec as u32)
+#[inline(always)]
+pub(crate) fn to_native_datetime_opt(value: i64, precision: u32) -> Option<NaiveDateTime> {
+    let (sec, nsec) = split_stamp(value, precision);
+    NaiveDateTime::from_timestamp_opt(sec, nsec)
 }
 
 #[cfg(test)]
-- 
2.43.0


From 8b069f39354978ad28db33e05b836f677633bed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:56 +0000
Subject: [PATCH 19/63] fix: values of every type can be map keys and compare
 equal to themselves

Value::hash and ValueRef::hash panicked for dates, addresses, UUIDs, enums and
booleans, so that reading a Map with such keys panicked; ValueRef::eq was false
for equal booleans, addresses and UUIDs, Value::eq for equal maps, and
Value::eq of DateTime64 overflowed.
---
 src/types/column/datetime64.rs |  2 +-
 src/types/value.rs             | 43 ++++++++++++++--------------------
 src/types/value_ref.rs         | 33 +++++++++++++++++++-------
 3 files changed, 44 insertions(+), 34 deletions(-)

diff --git a/src/types/column/datetime64.rs b/src/types/column/datetime64.rs
index 7d1289c..42c9163 100644
--- a/src/types/column/datetime64.rs
+++ b/src/types/column/datetime64.rs
@@ -125,7 +125,7 @@ pub(crate) fn from_datetime<T: TimeZone>(time: DateTime<T>, precision: u32) -> i
 
 /// Splits a timestamp into whole seconds and nanoseconds.
 #[inline(always)]
-fn split_stamp(value: i64, precision: u32) -> (i64, u32) {
+pub(crate) fn split_stamp(value: i64, precision: u32) -> (i64, u32) {
     let base10: i64 = 10;
 
     if precision > 18 {
diff --git a/src/types/value.rs b/src/types/value.rs
index 9b38b41..dc01953 100644
--- a/src/types/value.rs
+++ b/src/types/value.rs
@@ -75,7 +75,21 @@ impl Hash for Value {
             Self::Date(d) => d.hash(state),
             Self::DateTime(t, _) => t.hash(state),
             Self::DateTime64(t, (prec_a, _)) => (*t, *prec_a).hash(state),
-            _ => unimplemented!(),
+            Self::ChronoDateTime(t) => t.hash(state),
+            Self::Bool(b) => b.hash(state),
+            Self::Ipv4(v) => v.hash(state),
+            Self::Ipv6(v) => v.hash(state),
+            Self::Uuid(v) => v.hash(state),
+            Self::Enum8(_, v) => v.internal().hash(state),
+            Self::Enum16(_, v) => v.internal().hash(state),
+            Self::Nullable(Either::Right(v)) => v.hash(state),
+            Self::Array(_, vs) => vs.hash(state),
+            // Values which are equal can have different representations.
+            Self::Nullable(Either::Left(_))
+            | Self::Float32(_)
+            | Self::Float64(_)
+            | Self::Decimal(_)
+            | Self::Map(_, _, _) => (),
         }
     }
 }
@@ -118,31 +132,10 @@ impl PartialEq for Value {
             (Value::Ipv4(a), Value::Ipv4(b)) => *a == *b,
             (Value::Ipv6(a), Value::Ipv6(b)) => *a == *b,
             (Value::Uuid(a), Value::Uuid(b)) => *a == *b,
-            (Value::DateTime64(a, (prec_a, tz_a)), Value::DateTime64(b, (prec_b, tz_b))) => {
-                // chrono has no "variable-precision" offset method. As a
-                // fallback, we always use `timestamp_nanos` and multiply by
-                // the correct value.
-                #[rustfmt::skip]
-                const MULTIPLIERS: [i64; 10] = [
-                    1_000_000_000, // 1 s  is 10^9 nanos
-                      100_000_000,
-                       10_000_000,
-                        1_000_000, // 1 ms is 10^6 nanos
-                          100_000,
-                           10_000,
-                            1_000, // 1 µs is 10^3 nanos
-                              100,
-                               10,
-                                1, // 1 ns is 1 nanos!
-                ];
-
-                // The precision must be in the [0 - 9] range. As such, the
-                // following indexing can not fail.
-                prec_a == prec_b
-                    && tz_a.timestamp_nanos(a * MULTIPLIERS[*prec_a as usize])
-                        == tz_b.timestamp_nanos(b * MULTIPLIERS[*prec_b as usize])
+            (Value::DateTime64(a, (prec_a, _)), Value::DateTime64(b, (prec_b, _))) => {
+                prec_a == prec_b && a == b
             }
-
+            (Value::Map(ka, va, a), Value::Map(kb, vb, b)) => *ka == *kb && *va == *vb && *a == *b,
             _ => false,
         }
     }
diff --git a/src/types/value_ref.rs b/src/types/value_ref.rs
index 081c0b2..ba5990e 100644
--- a/src/types/value_ref.rs
+++ b/src/types/value_ref.rs
@@ -14,7 +14,7 @@ use uuid::Uuid;
 use crate::{
     errors::{Error, FromSqlError, Result},
     types::{
-        column::datetime64::to_datetime,
+        column::datetime64::{split_stamp, to_datetime},
         decimal::Decimal,
         value::{decode_ipv4, decode_ipv6, AppDate, AppDateTime},
         DateTimeType, Enum16, Enum8, SqlType, Value,
@@ -69,7 +69,23 @@ impl<'a> Hash for ValueRef<'a> {
             Self::UInt32(i) => i.hash(state),
             Self::UInt64(i) => i.hash(state),
             Self::UInt128(i) => i.hash(state),
-            _ => unimplemented!(),
+            Self::Bool(b) => b.hash(state),
+            Self::Date(d) => d.hash(state),
+            Self::DateTime(t, _) => t.hash(state),
+            Self::DateTime64(t, (precision, _)) => split_stamp(*t, *precision).hash(state),
+            Self::Ipv4(v) => v.hash(state),
+            Self::Ipv6(v) => v.hash(state),
+            Self::Uuid(v) => v.hash(state),
+            Self::Enum8(_, v) => v.internal().hash(state),
+            Self::Enum16(_, v) => v.internal().hash(state),
+            Self::Nullable(Either::Right(v)) => v.hash(state),
+            Self::Array(_, vs) => vs.hash(state),
+            // Values which are equal can have different representations.
+            Self::Nullable(Either::Left(_))
+            | Self::Float32(_)
+            | Self::Float64(_)
+            | Self::Decimal(_)
+            | Self::Map(_, _, _) => (),
         }
     }
 }
@@ -79,6 +95,7 @@ impl<'a> Eq for ValueRef<'a> {}
 impl<'a> PartialEq for ValueRef<'a> {
     fn eq(&self, other: &Self) -> bool {
         match (self, other) {
+            (ValueRef::Bool(a), ValueRef::Bool(b)) => *a == *b,
             (ValueRef::UInt8(a), ValueRef::UInt8(b)) => *a == *b,
             (ValueRef::UInt16(a), ValueRef::UInt16(b)) => *a == *b,
             (ValueRef::UInt32(a), ValueRef::UInt32(b)) => *a == *b,
@@ -101,16 +118,16 @@ impl<'a> PartialEq for ValueRef<'a> {
             (ValueRef::Nullable(a), ValueRef::Nullable(b)) => *a == *b,
             (ValueRef::Array(ta, a), ValueRef::Array(tb, b)) => *ta == *tb && *a == *b,
             (ValueRef::Decimal(a), ValueRef::Decimal(b)) => *a == *b,
+            (ValueRef::Ipv4(a), ValueRef::Ipv4(b)) => *a == *b,
+            (ValueRef::Ipv6(a), ValueRef::Ipv6(b)) => *a == *b,
+            (ValueRef::Uuid(a), ValueRef::Uuid(b)) => *a == *b,
             (ValueRef::Enum8(a0, a1), ValueRef::Enum8(b0, b1)) => *a1 == *b1 && *a0 == *b0,
             (ValueRef::Enum16(a0, a1), ValueRef::Enum16(b0, b1)) => *a1 == *b1 && *a0 == *b0,
             (ValueRef::DateTime64(this, this_params), ValueRef::DateTime64(that, that_params)) => {
-                let (this_precision, this_tz) = **this_params;
-                let (that_precision2, that_tz) = **that_params;
+                let (this_precision, _) = **this_params;
+                let (that_precision, _) = **that_params;
 
-                let this_time = to_datetime(*this, this_precision, this_tz);
-                let that_time = to_datetime(*that, that_precision2, that_tz);
-
-                this_time == that_time
+                split_stamp(*this, this_precision) == split_stamp(*that, that_precision)
             }
             (ValueRef::Map(a1, a2, map1), ValueRef::Map(b1, b2, map2)) => {
                 if map1.len() != map2.len() || a1 != b1 || a2 != b2 {
-- 
2.43.0


From 1ac98da822c09ec7f9d625a8a028ed97882cd50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:21 +0000
Subject: [PATCH 20/63] fix: columns of a multi-block result can be inserted

---
 src/types/column/chrono_datetime.rs |  6 ++++--
 src/types/column/concat.rs          | 21 ++++++++++++++++++---
 src/types/column/datetime64.rs      |  6 ++++--
 3 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/src/types/column/chrono_datetime.rs b/src/types/column/chrono_datetime.rs
index 86eb16b..cc9c6e3 100644
--- a/src/types/column/chrono_datetime.rs
+++ b/src/types/column/chrono_datetime.rs
@@ -87,8 +87,10 @@ impl ColumnData for ChronoDateTimeColumnData {
         SqlType::DateTime(DateTimeType::Chrono)
     }
 
-    fn save(&self, _encoder: &mut Encoder, _start: usize, _end: usize) {
-        unimplemented!()
+    fn save(&self, encoder: &mut Encoder, start: usize, end: usize) {
+        for date in &self.data[start..end] {
+            encoder.write(date.timestamp() as u32);
+        }
     }
 
     fn len(&self) -> usize {
diff --git a/src/types/column/concat.rs b/src/types/column/concat.rs
index a547a61..2655283 100644
--- a/src/types/column/concat.rs
+++ b/src/types/column/concat.rs
@@ -6,7 +6,11 @@ use crate::{
     types::{SqlType, Value, ValueRef},
 };
 
-use super::column_data::{ArcColumnData, BoxColumnData, ColumnData};
+use super::{
+    column_data::{ArcColumnData, BoxColumnData, ColumnData},
+    datetime64::DEFAULT_TZ,
+    BoxColumnWrapper,
+};
 
 pub struct ConcatColumnData {
     data: Vec<ArcColumnData>,
@@ -44,8 +48,19 @@ impl ColumnData for ConcatColumnData {
         self.data[0].sql_type()
     }
 
-    fn save(&self, _: &mut Encoder, _: usize, _: usize) {
-        unimplemented!()
+    fn save(&self, encoder: &mut Encoder, start: usize, end: usize) {
+        // The encodings of the chunks can not simply follow one another (offsets, null maps, dictionaries).
+        let timezone = self.get_timezone().unwrap_or(*DEFAULT_TZ);
+        let mut column = <dyn ColumnData>::from_type::<BoxColumnWrapper>(
+            self.sql_type(),
+            timezone,
+            end - start,
+        )
+        .expect("a column of this type exists");
+        for index in start..end {
+            column.push(self.at(index).into());
+        }
+        column.save(encoder, 0, end - start);
     }
 
     fn len(&self) -> usize {
diff --git a/src/types/column/datetime64.rs b/src/types/column/datetime64.rs
index 42c9163..5230a48 100644
--- a/src/types/column/datetime64.rs
+++ b/src/types/column/datetime64.rs
@@ -56,8 +56,10 @@ impl ColumnData for DateTime64ColumnData {
         SqlType::DateTime(DateTimeType::DateTime64(precision, tz))
     }
 
-    fn save(&self, _encoder: &mut Encoder, _start: usize, _end: usize) {
-        unimplemented!()
+    fn save(&self, encoder: &mut Encoder, start: usize, end: usize) {
+        for index in start..end {
+            encoder.write(self.data.at(index));
+        }
     }
 
     fn len(&self) -> usize {
-- 
2.43.0


From 3a77eb64972cd373362dd70a4877068adb1a049b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:21 +0000
Subject: [PATCH 21/63] fix: maps holding timestamps built from rows can be
 inserted

---
 src/types/column/map.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/types/column/map.rs b/src/types/column/map.rs
index 364636c..a827cbb 100644
--- a/src/types/column/map.rs
+++ b/src/types/column/map.rs
@@ -146,8 +146,8 @@ impl ColumnData for MapColumnData {
 
     fn cast_to(&self, _this: &ArcColumnData, target: &SqlType) -> Option<ArcColumnData> {
         if let SqlType::Map(key, value) = target {
-            let keys = self.keys.cast_to(&self.keys, key)?;
-            let values = self.values.cast_to(&self.values, value)?;
+            let keys = cast_nested(&self.keys, key)?;
+            let values = cast_nested(&self.values, value)?;
             Some(Arc::new(Self {
                 keys,
                 values,
@@ -172,6 +172,13 @@ impl ColumnData for MapColumnData {
     }
 }
 
+fn cast_nested(column: &ArcColumnData, target: &SqlType) -> Option<ArcColumnData> {
+    if column.sql_type() == *target {
+        return Some(column.clone());
+    }
+    column.cast_to(column, target)
+}
+
 impl<V> ColumnFrom for Vec<HashMap<String, V>>
 where
     V: Copy
-- 
2.43.0


From 9a4ef196930a46752fd708146c7a6cb9e799aebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:21 +0000
Subject: [PATCH 22/63] fix: arrays of timestamps keep sub-seconds and instants
 before 1970

---
 src/types/column/date.rs | 2 +-
 src/types/value_ref.rs   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/types/column/date.rs b/src/types/column/date.rs
index 534ee44..422f4ac 100644
--- a/src/types/column/date.rs
+++ b/src/types/column/date.rs
@@ -126,7 +126,7 @@ impl ColumnFrom for Vec<Vec<DateTime<Tz>>> {
         for vs in source {
             let mut inner = Vec::with_capacity(vs.len());
             for v in vs {
-                let value: Value = Value::DateTime(v.timestamp() as u32, v.timezone());
+                let value: Value = Value::ChronoDateTime(v);
                 inner.push(value);
             }
             data.push(Value::Array(sql_type.clone().into(), Arc::new(inner)));
diff --git a/src/types/value_ref.rs b/src/types/value_ref.rs
index ba5990e..c831490 100644
--- a/src/types/value_ref.rs
+++ b/src/types/value_ref.rs
@@ -425,7 +425,7 @@ impl<'a> From<&'a Value> for ValueRef<'a> {
             Value::Ipv4(v) => ValueRef::Ipv4(*v),
             Value::Ipv6(v) => ValueRef::Ipv6(*v),
             Value::Uuid(v) => ValueRef::Uuid(*v),
-            Value::ChronoDateTime(_) => unimplemented!(),
+            Value::ChronoDateTime(v) => ValueRef::DateTime(v.timestamp() as u32, v.timezone()),
             Value::Map(k, v, vs) => {
                 let mut ref_map = HashMap::with_capacity(vs.len());
                 for (k, v) in vs.iter() {
-- 
2.43.0


From 8bd8beab48d84ed441958d596d78bac6c6575803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:44 +0000
Subject: [PATCH 23/63] fix: nullable and nested low-cardinality columns have
 ClickHouse's encoding

---
 src/types/column/factory.rs         | 38 ++++++++++++--
 src/types/column/low_cardinality.rs | 77 ++++++++++++++++++++++-------
 src/types/column/mod.rs             |  6 +++
 3 files changed, 101 insertions(+), 20 deletions(-)

diff --git a/src/types/column/factory.rs b/src/types/column/factory.rs
index 39351aa..815408a 100644
--- a/src/types/column/factory.rs
+++ b/src/types/column/factory.rs
@@ -9,7 +9,7 @@ use combine::{
 };
 
 use crate::{
-    binary::ReadEx,
+    binary::{Encoder, ReadEx},
     errors::Result,
     types::{
         column::{
@@ -23,7 +23,7 @@ use crate::{
             fixed_string::FixedStringColumnData,
             ip::{IpColumnData, Ipv4, Ipv6, Uuid},
             list::List,
-            low_cardinality::LowCardinalityColumnData,
+            low_cardinality::{self, LowCardinalityColumnData},
             map::MapColumnData,
             nullable::NullableColumnData,
             numeric::VectorColumnData,
@@ -115,6 +115,38 @@ impl dyn ColumnData {
         }))
     }
 
+    /// Reads what precedes the data of a column: the versions of the low-cardinality columns in it.
+    pub(crate) fn load_prefix<T: ReadEx>(reader: &mut T, type_name: &str) -> Result<()> {
+        let inner_type = parse_nullable_type(type_name)
+            .or_else(|| parse_array_type(type_name))
+            .or_else(|| parse_simple_agg_fun(type_name).map(|(_, inner_type)| inner_type));
+
+        if let Some(inner_type) = inner_type {
+            Self::load_prefix(reader, inner_type)
+        } else if let Some((key, value)) = parse_map_type(type_name) {
+            Self::load_prefix(reader, key)?;
+            Self::load_prefix(reader, value)
+        } else if parse_low_cardinality(type_name).is_some() {
+            low_cardinality::read_prefix(reader)
+        } else {
+            Ok(())
+        }
+    }
+
+    pub(crate) fn save_prefix(encoder: &mut Encoder, sql_type: &SqlType) {
+        match sql_type {
+            SqlType::Nullable(inner)
+            | SqlType::Array(inner)
+            | SqlType::SimpleAggregateFunction(_, inner) => Self::save_prefix(encoder, inner),
+            SqlType::Map(key, value) => {
+                Self::save_prefix(encoder, key);
+                Self::save_prefix(encoder, value);
+            }
+            SqlType::LowCardinality(_) => low_cardinality::save_prefix(encoder),
+            _ => (),
+        }
+    }
+
     pub(crate) fn from_type<W: ColumnWrapper>(
         sql_type: SqlType,
         timezone: Tz,
@@ -275,7 +307,7 @@ fn parse_fixed_string(source: &str) -> Option<usize> {
     parse_arguments(source, "FixedString")?.parse().ok()
 }
 
-fn parse_nullable_type(source: &str) -> Option<&str> {
+pub(crate) fn parse_nullable_type(source: &str) -> Option<&str> {
     let inner_type = parse_arguments(source, "Nullable")?;
 
     if inner_type.starts_with("Nullable") {
diff --git a/src/types/column/low_cardinality.rs b/src/types/column/low_cardinality.rs
index 741cc5e..475b21b 100644
--- a/src/types/column/low_cardinality.rs
+++ b/src/types/column/low_cardinality.rs
@@ -1,4 +1,5 @@
 use chrono_tz::Tz;
+use either::Either;
 use std::{borrow::Cow, collections::HashMap, mem, ptr, sync::Arc};
 
 use crate::{
@@ -7,6 +8,8 @@ use crate::{
     types::{
         column::{
             column_data::{ArcColumnData, BoxColumnData, LowCardinalityAccessor},
+            factory::parse_nullable_type,
+            nullable::NullableColumnData,
             ArcColumnWrapper, ColumnData, VectorColumnData,
         },
         SqlType, Value, ValueRef,
@@ -230,7 +233,6 @@ fn read_inner<R: ReadEx>(
         return Ok((inner, keys));
     }
 
-    read_prefix(reader)?;
     let flags: u64 = reader.read_scalar()?;
     let index_type = IndexType::from_flags(flags)?;
 
@@ -247,12 +249,7 @@ fn read_inner<R: ReadEx>(
     }
 
     let new_index_column: u64 = reader.read_scalar()?;
-    let inner = <dyn ColumnData>::load_data::<ArcColumnWrapper, _>(
-        reader,
-        inner_type,
-        new_index_column as usize,
-        tz,
-    )?;
+    let inner = read_keys(reader, inner_type, new_index_column as usize, tz)?;
 
     let keys_rows: u64 = reader.read_scalar()?;
     let keys = LowCardinalityIndex::load(reader, keys_rows as usize, index_type)?;
@@ -261,7 +258,26 @@ fn read_inner<R: ReadEx>(
     Ok((inner, keys))
 }
 
-fn read_prefix<R: ReadEx>(reader: &mut R) -> Result<()> {
+/// Reads a dictionary. Nullable keys come without a map of nulls, their first key stands for the null.
+fn read_keys<R: ReadEx>(
+    reader: &mut R,
+    inner_type: &str,
+    size: usize,
+    tz: Tz,
+) -> Result<ArcColumnData> {
+    let Some(key_type) = parse_nullable_type(inner_type) else {
+        return <dyn ColumnData>::load_data::<ArcColumnWrapper, _>(reader, inner_type, size, tz);
+    };
+    let inner = <dyn ColumnData>::load_data::<ArcColumnWrapper, _>(reader, key_type, size, tz)?;
+    let mut nulls = vec![0; size];
+    if let Some(first) = nulls.first_mut() {
+        *first = 1;
+    }
+    Ok(Arc::new(NullableColumnData { inner, nulls }))
+}
+
+/// Reads the version, which precedes all the data of a column.
+pub(crate) fn read_prefix<R: ReadEx>(reader: &mut R) -> Result<()> {
     let version: u64 = reader.read_scalar()?;
     if version != LOW_CARDINALITY_VERSION {
         return Err(Error::Driver(DriverError::Deserialize(Cow::from(
@@ -271,14 +287,14 @@ fn read_prefix<R: ReadEx>(reader: &mut R) -> Result<()> {
     Ok(())
 }
 
+pub(crate) fn save_prefix(encoder: &mut Encoder) {
+    encoder.write(LOW_CARDINALITY_VERSION);
+}
+
 impl LowCardinalityColumnData {
     fn get_value_map(&self) -> HashMap<Value, usize> {
-        (0..self.index.len())
-            .map(|index| {
-                let value_index = self.index.get_by_index(index);
-                let value: Value = self.inner.at(value_index).into();
-                (value, value_index)
-            })
+        (0..self.inner.len())
+            .map(|index| (self.inner.at(index).into(), index))
             .collect()
     }
 }
@@ -293,11 +309,14 @@ impl ColumnData for LowCardinalityColumnData {
             return;
         }
 
-        encoder.write(LOW_CARDINALITY_VERSION);
         encoder.write(self.index.get_flags());
 
-        encoder.write(self.inner.len() as u64);
-        self.inner.save(encoder, 0, self.inner.len());
+        let keys = match self.inner.sql_type() {
+            SqlType::Nullable(_) => self.inner.nested(0).unwrap_or(&self.inner),
+            _ => &self.inner,
+        };
+        encoder.write(keys.len() as u64);
+        keys.save(encoder, 0, keys.len());
 
         encoder.write((end - start) as u64);
         self.index.save(encoder, start, end)
@@ -308,6 +327,18 @@ impl ColumnData for LowCardinalityColumnData {
     }
 
     fn push(&mut self, value: Value) {
+        if self.inner.len() == 0 {
+            if let SqlType::Nullable(key_type) = self.inner.sql_type() {
+                Arc::get_mut(&mut self.inner)
+                    .expect("Column shouldn't be shared")
+                    .push(Value::Nullable(Either::Left(key_type.clone().into())));
+            }
+        }
+
+        if let Value::Nullable(Either::Left(_)) = value {
+            return self.index.push(0);
+        }
+
         let value_map = loop {
             match self.value_map {
                 None => self.value_map = Some(self.get_value_map()),
@@ -341,6 +372,18 @@ impl ColumnData for LowCardinalityColumnData {
         })
     }
 
+    fn cast_to(&self, _this: &ArcColumnData, target: &SqlType) -> Option<ArcColumnData> {
+        if let SqlType::LowCardinality(inner_target) = target {
+            let inner = self.inner.cast_to(&self.inner, inner_target)?;
+            return Some(Arc::new(Self {
+                inner,
+                index: self.index.clone(),
+                value_map: None,
+            }));
+        }
+        None
+    }
+
     fn get_timezone(&self) -> Option<Tz> {
         self.inner.get_timezone()
     }
diff --git a/src/types/column/mod.rs b/src/types/column/mod.rs
index 4449466..605e968 100644
--- a/src/types/column/mod.rs
+++ b/src/types/column/mod.rs
@@ -181,6 +181,9 @@ impl<K: ColumnType> Column<K> {
     pub(crate) fn read<R: ReadEx>(reader: &mut R, size: usize, tz: Tz) -> Result<Column<K>> {
         let name = reader.read_string()?;
         let type_name = reader.read_string()?;
+        if size > 0 {
+            <dyn ColumnData>::load_prefix(reader, &type_name)?;
+        }
         let data =
             <dyn ColumnData>::load_data::<ArcColumnWrapper, _>(reader, &type_name, size, tz)?;
         let column = Self {
@@ -210,6 +213,9 @@ impl<K: ColumnType> Column<K> {
         encoder.string(&self.name);
         encoder.string(self.data.sql_type().to_string().as_ref());
         let len = self.data.len();
+        if len > 0 {
+            <dyn ColumnData>::save_prefix(encoder, &self.data.sql_type());
+        }
         self.data.save(encoder, 0, len);
     }
 
-- 
2.43.0


From 08bd5cf0377efe275bb14ee94ebf99e602ad042e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:42 +0000
Subject: [PATCH 24/63] fix: an insert waits for the end of the reply

---
 src/io/transport.rs | 15 +++++++++++++++
 src/lib.rs          |  3 +--
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/io/transport.rs b/src/io/transport.rs
index 083a9cb..509b6f2 100644
--- a/src/io/transport.rs
+++ b/src/io/transport.rs
@@ -329,6 +329,21 @@ impl PacketStream {
         Ok((h, b))
     }
 
+    /// Waits for the end of a reply without data.
+    pub(crate) async fn read_end(mut self) -> Result<ClickhouseTransport> {
+        let mut h = None;
+        while let Some(package) = self.next().await {
+            match package {
+                Ok(Packet::Eof(inner)) => h = Some(inner),
+                Ok(Packet::Exception(e)) => return Err(Error::Server(e)),
+                Ok(Packet::TableColumns(_)) | Ok(Packet::Progress(_)) | Ok(Packet::ProfileInfo(_)) => {}
+                Err(e) => return Err(Error::Io(e)),
+                _ => return Err(Error::Driver(DriverError::UnexpectedPacket)),
+            }
+        }
+        h.ok_or(Error::Connection(ConnectionError::Broken))
+    }
+
     pub(crate) fn take_transport(&mut self) -> Option<ClickhouseTransport> {
         self.inner.take()
     }
diff --git a/src/lib.rs b/src/lib.rs
index bfc0e03..8d1122e 100755
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -518,8 +518,7 @@ impl ClientHandle {
         } else {
             Cmd::Union(Box::new(Cmd::SendData(block, context)), Box::new(end_cmd))
         };
-        let (transport, _) = transport.call(send_cmd).read_block().await?;
-        Ok(transport)
+        transport.call(send_cmd).read_end().await
     }
 
     fn make_query<Q>(table: Q, block: &Block) -> Result<Query>
-- 
2.43.0


From 0243a49350f9ea8af114e2725857681969678d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:42 +0000
Subject: [PATCH 25/63] fix: a backslash in a column name is escaped in the
 insert statement

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 8d1122e..60833f7 100755
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -628,7 +628,7 @@ fn column_name_to_string(name: &str) -> Result<String> {
         return Err(Error::Other(err.into()));
     }
 
-    Ok(format!("`{name}`"))
+    Ok(format!("`{}`", name.replace('\\', "\\\\")))
 }
 
 #[cfg(feature = "async_std")]
-- 
2.43.0


From 0d5d96d8a636cbab31827d03bf04ead2a5eb0aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:09 +0000
Subject: [PATCH 26/63] fix: inserting an unrelated type into a low-cardinality
 column is an error, not a panic

---
 src/types/column/mod.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/types/column/mod.rs b/src/types/column/mod.rs
index 605e968..4d09bb9 100644
--- a/src/types/column/mod.rs
+++ b/src/types/column/mod.rs
@@ -136,6 +136,18 @@ impl Column<Simple> {
     }
 }
 
+/// Whether values of the type can be put into the dictionary of a low-cardinality column.
+fn is_key_type(inner: &SqlType, src_type: &SqlType) -> bool {
+    let key_type = match inner {
+        SqlType::Nullable(key_type) => key_type,
+        key_type => key_type,
+    };
+    let is_string = |t: &SqlType| matches!(t, SqlType::String | SqlType::FixedString(_));
+    key_type == src_type
+        || (is_string(key_type) && is_string(src_type))
+        || (key_type.is_datetime() && src_type.is_datetime())
+}
+
 impl<K: ColumnType> Column<K> {
     /// Returns an iterator over the column.
     ///
@@ -241,7 +253,9 @@ impl<K: ColumnType> Column<K> {
         }
 
         match (dst_type.clone(), src_type.clone()) {
-            (SqlType::LowCardinality(inner), src_type) if src_type.is_inner_low_cardinality() => {
+            (SqlType::LowCardinality(inner), src_type)
+                if src_type.is_inner_low_cardinality() && is_key_type(inner, &src_type) =>
+            {
                 let name = self.name().to_owned();
                 let tz = self.data.get_timezone().unwrap_or(Tz::Zulu);
                 let mut low_card_data = LowCardinalityColumnData::empty(inner, tz, self.len())?;
-- 
2.43.0


From 8b8a050f9774c045adeb14b26cee01a1db8397aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:32 +0000
Subject: [PATCH 27/63] verification hook: size of insert chunks (cfg
 clickhouse_verif)

---
 src/types/block/chunk_iterator.rs |  2 ++
 src/verif.rs                      | 12 +++++++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/types/block/chunk_iterator.rs b/src/types/block/chunk_iterator.rs
index a225554..25c6751 100644
--- a/src/types/block/chunk_iterator.rs
+++ b/src/types/block/chunk_iterator.rs
@@ -39,6 +39,8 @@ impl<K: ColumnType> Iterator for ChunkIterator<K> {
 
 impl<K: ColumnType> ChunkIterator<K> {
     pub fn new(size: usize, block: Block<K>) -> ChunkIterator<K> {
+        #[cfg(clickhouse_verif)]
+        let size = crate::verif::chunk_size(size);
         ChunkIterator {
             position: 0,
             size,
diff --git a/src/verif.rs b/src/verif.rs
index ea90d0a..a75f111 100644
--- a/src/verif.rs
+++ b/src/verif.rs
@@ -5,7 +5,7 @@
 //! between threads announce themselves to a scheduler installed by the harness.
 
 use std::{
-    cell::RefCell,
+    cell::{Cell, RefCell},
     future::Future,
     io,
     net::SocketAddr,
@@ -32,6 +32,16 @@ pub type Scheduler = Arc<dyn Fn(&'static str, bool) + Send + Sync>;
 thread_local! {
     static CONNECTOR: RefCell<Option<Connector>> = const { RefCell::new(None) };
     static SCHEDULER: RefCell<Option<Scheduler>> = const { RefCell::new(None) };
+    static CHUNK_SIZE: Cell<Option<usize>> = const { Cell::new(None) };
+}
+
+/// Makes the inserts of the current thread use smaller chunks than the crate would.
+pub fn set_chunk_size(size: Option<usize>) {
+    CHUNK_SIZE.with(|s| s.set(size));
+}
+
+pub(crate) fn chunk_size(size: usize) -> usize {
+    CHUNK_SIZE.with(|s| s.get()).unwrap_or(size)
 }
 
 /// Installs the connector of the current thread.
-- 
2.43.0


From d51aa2dae575fa6b5c3ebb9a3d15654ff5858beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:47 +0000
Subject: [PATCH 28/63] fix: the query id is sent as the id of the query

---
 src/types/cmd.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/cmd.rs b/src/types/cmd.rs
index 74045c0..a70327e 100644
--- a/src/types/cmd.rs
+++ b/src/types/cmd.rs
@@ -81,7 +81,7 @@ fn encode_query(query: &Query, context: &Context) -> Result<Vec<u8>> {
     // DBMS_MIN_REVISION_WITH_CLIENT_INFO
     let mut encoder = Encoder::new();
     encoder.uvarint(protocol::CLIENT_QUERY);
-    encoder.string("");
+    encoder.string(query.get_id());
 
     {
         let hostname = &context.hostname;
-- 
2.43.0


From e6ff55073495bb2378c2b831f340e0e807dda9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:47 +0000
Subject: [PATCH 29/63] fix: sub-second timestamps are not cut when inserted
 into a low-cardinality DateTime column

---
 src/types/column/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/types/column/mod.rs b/src/types/column/mod.rs
index 4d09bb9..6d50e34 100644
--- a/src/types/column/mod.rs
+++ b/src/types/column/mod.rs
@@ -145,7 +145,8 @@ fn is_key_type(inner: &SqlType, src_type: &SqlType) -> bool {
     let is_string = |t: &SqlType| matches!(t, SqlType::String | SqlType::FixedString(_));
     key_type == src_type
         || (is_string(key_type) && is_string(src_type))
-        || (key_type.is_datetime() && src_type.is_datetime())
+        || (key_type.is_datetime()
+            && matches!(src_type, SqlType::DateTime(t) if !matches!(t, crate::types::DateTimeType::DateTime64(..))))
 }
 
 impl<K: ColumnType> Column<K> {
-- 
2.43.0


From 8dab4412109b8546d9b8a62a77aba621716cf0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:20 +0000
Subject: [PATCH 30/63] fix: decimals are compared, displayed and created
 without overflow or a lost sign

---
 src/types/decimal.rs | 52 ++++++++++++++++++++------------------------
 1 file changed, 24 insertions(+), 28 deletions(-)

diff --git a/src/types/decimal.rs b/src/types/decimal.rs
index 800ca1b..10ef5e1 100644
--- a/src/types/decimal.rs
+++ b/src/types/decimal.rs
@@ -70,11 +70,12 @@ impl Hash for Decimal {
 }
 
 macro_rules! base_for {
-    ( $( $t:ty: $cast:expr ),* ) => {
+    ( $( $t:ty: $wide:ty ),* ) => {
         $(
             impl Base for $t {
                 fn scale(self, scale: i64) -> i64 {
-                    $cast(self * (scale as $t)) as i64
+                    let scaled = <$wide>::from(self) * (scale as $wide);
+                    scaled.clamp(i64::MIN as $wide, i64::MAX as $wide) as i64
                 }
             }
         )*
@@ -82,16 +83,16 @@ macro_rules! base_for {
 }
 
 base_for! {
-    f32: std::convert::identity,
-    f64: std::convert::identity,
-    i8: i64::from,
-    i16: i64::from,
-    i32: i64::from,
-    i64: std::convert::identity,
-    u8: i64::from,
-    u16: i64::from,
-    u32: i64::from,
-    u64 : std::convert::identity
+    f32: f32,
+    f64: f64,
+    i8: i128,
+    i16: i128,
+    i32: i128,
+    i64: i128,
+    u8: i128,
+    u16: i128,
+    u32: i128,
+    u64: i128
 }
 
 impl InternalResult for i32 {
@@ -122,24 +123,15 @@ impl NoBits {
 
 impl PartialEq for Decimal {
     fn eq(&self, other: &Self) -> bool {
-        match self.scale.cmp(&other.scale) {
-            Ordering::Less => {
-                let delta = other.scale() - self.scale();
-                let underlying = self.underlying * FACTORS10[delta];
-                other.underlying == underlying
-            }
-            Ordering::Equal => self.underlying == other.underlying,
-            Ordering::Greater => {
-                let delta = self.scale() - other.scale();
-                let underlying = other.underlying * FACTORS10[delta];
-                self.underlying == underlying
-            }
-        }
+        let scale = std::cmp::max(self.scale, other.scale);
+        let at_scale =
+            |d: &Self| i128::from(d.underlying) * i128::from(FACTORS10[(scale - d.scale) as usize]);
+        at_scale(self) == at_scale(other)
     }
 }
 
 fn decimal2str(decimal: &Decimal) -> String {
-    let mut r = format!("{}", decimal.underlying);
+    let mut r = decimal.underlying.unsigned_abs().to_string();
     while r.len() < decimal.scale() {
         r.insert(0, '0');
     }
@@ -148,6 +140,9 @@ fn decimal2str(decimal: &Decimal) -> String {
     if r.starts_with('.') {
         r.insert(0, '0');
     }
+    if decimal.underlying < 0 {
+        r.insert(0, '-');
+    }
     r
 }
 
@@ -198,8 +193,9 @@ impl Decimal {
         }
 
         let underlying = source.scale(FACTORS10[scale as usize]);
-        if underlying > FACTORS10[precision as usize] {
-            panic!("{} > {}", underlying, FACTORS10[precision as usize]);
+        let limit = FACTORS10[precision as usize];
+        if !(-limit..=limit).contains(&underlying) {
+            panic!("{underlying} is not between -{limit} and {limit}");
         }
 
         Decimal {
-- 
2.43.0


From b5373aa7f945d99bdedc485629b7a08dcdc39ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:52 +0000
Subject: [PATCH 31/63] fix: inserting decimals that do not fit the requested
 column is an error

---
 src/types/column/mod.rs | 35 +++++++++++++++++++++++++++++++----
 src/types/decimal.rs    | 26 +++++++++++++++++++-------
 2 files changed, 50 insertions(+), 11 deletions(-)

diff --git a/src/types/column/mod.rs b/src/types/column/mod.rs
index 6d50e34..7aa72b9 100644
--- a/src/types/column/mod.rs
+++ b/src/types/column/mod.rs
@@ -23,8 +23,8 @@ use crate::{
             simple_agg_func::SimpleAggregateFunctionColumnData,
             string::StringAdapter,
         },
-        decimal::NoBits,
-        SqlType, Value, ValueRef,
+        decimal::{Decimal, NoBits},
+        FromSql, SqlType, Value, ValueRef,
     },
 };
 
@@ -320,7 +320,7 @@ impl<K: ColumnType> Column<K> {
             }
             (SqlType::Decimal(dst_p, dst_s), SqlType::Decimal(_, _)) => {
                 let name = self.name().to_owned();
-                let nobits = NoBits::from_precision(dst_p).unwrap();
+                let nobits = check_decimals(&self, &dst_type, dst_p, dst_s)?;
                 let adapter = DecimalAdapter {
                     column: self,
                     precision: dst_p,
@@ -394,7 +394,7 @@ impl<K: ColumnType> Column<K> {
                 SqlType::Nullable(SqlType::Decimal(_, _)),
             ) => {
                 let name = self.name().to_owned();
-                let nobits = NoBits::from_precision(*dst_p).unwrap();
+                let nobits = check_decimals(&self, &dst_type, *dst_p, *dst_s)?;
                 let adapter = NullableDecimalAdapter {
                     column: self,
                     precision: *dst_p,
@@ -515,6 +515,33 @@ impl<K: ColumnType> Column<K> {
     }
 }
 
+/// The width of the decimals of `dst_type`, if they can hold all values of the column.
+fn check_decimals<K: ColumnType>(
+    column: &Column<K>,
+    dst_type: &SqlType,
+    precision: u8,
+    scale: u8,
+) -> Result<NoBits> {
+    let invalid = |src: String| {
+        Error::FromSql(FromSqlError::InvalidType {
+            src: src.into(),
+            dst: dst_type.to_string(),
+        })
+    };
+    let nobits = NoBits::from_precision(precision)
+        .ok_or_else(|| invalid(column.sql_type().to_string().into()))?;
+    for i in 0..column.len() {
+        let value: Option<Decimal> = match column.at(i) {
+            ValueRef::Decimal(decimal) => Some(decimal),
+            value => Option::from_sql(value)?,
+        };
+        if let Some(decimal) = value.filter(|d| !d.fits(nobits, scale)) {
+            return Err(invalid(format!("{} ({decimal})", column.sql_type())));
+        }
+    }
+    Ok(nobits)
+}
+
 fn parse_ip<T: FromStr>(source: &ValueRef, dst_type: &SqlType) -> Result<T> {
     let source = source.as_str()?;
     source.parse().map_err(|_| {
diff --git a/src/types/decimal.rs b/src/types/decimal.rs
index 10ef5e1..5152f0c 100644
--- a/src/types/decimal.rs
+++ b/src/types/decimal.rs
@@ -237,21 +237,33 @@ impl Decimal {
         self.scale as usize
     }
 
-    pub(crate) fn set_scale(self, scale: u8) -> Self {
-        let underlying = match scale.cmp(&self.scale) {
+    fn rescaled(&self, scale: u8) -> i128 {
+        let underlying = i128::from(self.underlying);
+        match scale.cmp(&self.scale) {
             Ordering::Less => {
                 let delta = self.scale() - scale as usize;
-                self.underlying / FACTORS10[delta]
+                underlying / i128::from(FACTORS10[delta])
             }
-            Ordering::Equal => return self,
+            Ordering::Equal => underlying,
             Ordering::Greater => {
                 let delta = scale as usize - self.scale();
-                self.underlying * FACTORS10[delta]
+                underlying * i128::from(FACTORS10[delta])
             }
-        };
+        }
+    }
+
+    /// Whether the value at the given scale can be stored in the given width.
+    pub(crate) fn fits(&self, nobits: NoBits, scale: u8) -> bool {
+        let underlying = self.rescaled(scale);
+        match nobits {
+            NoBits::N32 => i32::try_from(underlying).is_ok(),
+            NoBits::N64 => i64::try_from(underlying).is_ok(),
+        }
+    }
 
+    pub(crate) fn set_scale(self, scale: u8) -> Self {
         Decimal {
-            underlying,
+            underlying: self.rescaled(scale) as i64,
             precision: self.precision,
             scale,
             nobits: self.nobits,
-- 
2.43.0


From 8b9c369073526d8336cc3a85425553723d00e34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:27 +0000
Subject: [PATCH 32/63] fix: compressed frames with impossible sizes are
 rejected

---
 src/types/block/compressed.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/types/block/compressed.rs b/src/types/block/compressed.rs
index d2c43a8..fe5b036 100644
--- a/src/types/block/compressed.rs
+++ b/src/types/block/compressed.rs
@@ -79,9 +79,12 @@ where
     let compressed: u32 = reader.read_scalar()?;
     let original: u32 = reader.read_scalar()?;
 
-    if compressed > DBMS_MAX_COMPRESSED_SIZE {
+    if compressed > DBMS_MAX_COMPRESSED_SIZE || original > DBMS_MAX_COMPRESSED_SIZE {
         return Err(raise_error("compressed data too big".to_string()));
     }
+    if compressed < 9 {
+        return Err(raise_error("compressed data too small".to_string()));
+    }
 
     buffer.resize(compressed as usize, 0_u8);
     {
@@ -106,7 +109,7 @@ where
         )
     };
 
-    if status < 0 {
+    if status != original as c_int {
         return Err(raise_error("can't decompress data".to_string()));
     }
 
-- 
2.43.0


From 259ec37b7b592b60fe0ac154df6fbb0ae33a0a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:09 +0000
Subject: [PATCH 33/63] fix: a block of any size is sent in compressed frames
 within the limits

---
 src/types/block/mod.rs | 57 ++++++++++++++++++++++++------------------
 1 file changed, 33 insertions(+), 24 deletions(-)

diff --git a/src/types/block/mod.rs b/src/types/block/mod.rs
index a343b3b..f8f2f68 100644
--- a/src/types/block/mod.rs
+++ b/src/types/block/mod.rs
@@ -36,6 +36,9 @@ mod row;
 
 pub(crate) const INSERT_BLOCK_SIZE: usize = 1_048_576;
 
+// A frame must not exceed the limits of LZ4 and of the server, whatever the size of the block.
+const COMPRESSED_FRAME_SIZE: usize = 1_048_576;
+
 const DEFAULT_CAPACITY: usize = 100;
 
 pub trait ColumnIdx {
@@ -341,31 +344,9 @@ impl<K: ColumnType> Block<K> {
             self.write(&mut tmp_encoder, false);
             let tmp = tmp_encoder.get_buffer();
 
-            let mut buf = Vec::new();
-            let size;
-            unsafe {
-                buf.resize(9 + LZ4_compressBound(tmp.len() as i32) as usize, 0_u8);
-                size = LZ4_compress_default(
-                    tmp.as_ptr() as *const c_char,
-                    (buf.as_mut_ptr() as *mut c_char).add(9),
-                    tmp.len() as i32,
-                    buf.len() as i32,
-                );
-            }
-            buf.resize(9 + size as usize, 0_u8);
-
-            let buf_len = buf.len() as u32;
-            {
-                let mut cursor = Cursor::new(&mut buf);
-                cursor.write_u8(0x82).unwrap();
-                cursor.write_u32::<LittleEndian>(buf_len).unwrap();
-                cursor.write_u32::<LittleEndian>(tmp.len() as u32).unwrap();
+            for part in tmp.chunks(COMPRESSED_FRAME_SIZE) {
+                write_compressed(encoder, part);
             }
-
-            let hash = city_hash_128(&buf);
-            encoder.write(hash.lo);
-            encoder.write(hash.hi);
-            encoder.write_bytes(buf.as_ref());
         } else {
             self.info.write(encoder);
             encoder.uvarint(self.column_count() as u64);
@@ -388,6 +369,34 @@ impl<K: ColumnType> Block<K> {
     }
 }
 
+fn write_compressed(encoder: &mut Encoder, data: &[u8]) {
+    let mut buf = Vec::new();
+    let size;
+    unsafe {
+        buf.resize(9 + LZ4_compressBound(data.len() as i32) as usize, 0_u8);
+        size = LZ4_compress_default(
+            data.as_ptr() as *const c_char,
+            (buf.as_mut_ptr() as *mut c_char).add(9),
+            data.len() as i32,
+            (buf.len() - 9) as i32,
+        );
+    }
+    buf.resize(9 + size as usize, 0_u8);
+
+    let buf_len = buf.len() as u32;
+    {
+        let mut cursor = Cursor::new(&mut buf);
+        cursor.write_u8(0x82).unwrap();
+        cursor.write_u32::<LittleEndian>(buf_len).unwrap();
+        cursor.write_u32::<LittleEndian>(data.len() as u32).unwrap();
+    }
+
+    let hash = city_hash_128(&buf);
+    encoder.write(hash.lo);
+    encoder.write(hash.hi);
+    encoder.write_bytes(buf.as_ref());
+}
+
 impl<K: ColumnType> fmt::Debug for Block<K> {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
         let titles: Vec<&str> = self.columns.iter().map(|column| column.name()).collect();
-- 
2.43.0


From 0f4dee2417c21a6451ed227562fe6f197d9c05b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:03 +0000
Subject: [PATCH 34/63] fix: the database name of a connection string is
 percent-decoded

---
 src/types/options.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/types/options.rs b/src/types/options.rs
index 5f02fb2..4c2b683 100644
--- a/src/types/options.rs
+++ b/src/types/options.rs
@@ -612,7 +612,7 @@ fn get_password_from_url(url: &Url) -> Option<Cow<'_, str>> {
     Some(percent_decode(password.as_bytes()).decode_utf8_lossy())
 }
 
-fn get_database_from_url(url: &Url) -> Result<Option<&str>> {
+fn get_database_from_url(url: &Url) -> Result<Option<Cow<'_, str>>> {
     match url.path_segments() {
         None => Ok(None),
         Some(mut segments) => {
@@ -623,7 +623,9 @@ fn get_database_from_url(url: &Url) -> Result<Option<&str>> {
             }
 
             match head {
-                Some(database) if !database.is_empty() => Ok(Some(database)),
+                Some(database) if !database.is_empty() => Ok(Some(
+                    percent_decode(database.as_bytes()).decode_utf8_lossy(),
+                )),
                 _ => Ok(None),
             }
         }
-- 
2.43.0


From a8d4cdefc23bfa9c18f8ec43cb744e100b2b113c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:04 +0000
Subject: [PATCH 35/63] fix: alternative hosts without a port use the default
 port

---
 src/types/options.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/types/options.rs b/src/types/options.rs
index 4c2b683..09de8c4 100644
--- a/src/types/options.rs
+++ b/src/types/options.rs
@@ -671,8 +671,13 @@ fn parse_hosts(source: &str) -> std::result::Result<Vec<Url>, ()> {
     let mut result = Vec::new();
     for host in source.split(',') {
         match Url::from_str(&format!("tcp://{host}")) {
-            Ok(url) => result.push(url),
-            Err(_) => return Err(()),
+            Ok(mut url) if url.has_host() => {
+                if url.port().is_none() {
+                    url.set_port(Some(9000))?;
+                }
+                result.push(url)
+            }
+            _ => return Err(()),
         }
     }
     Ok(result)
-- 
2.43.0


From 5ac4ebcd3812d0cda1a1f3dd621d7f320aeba916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:05 +0000
Subject: [PATCH 36/63] fix: a connection string with pool_max=0 is an error,
 not a panic

---
 src/types/options.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/types/options.rs b/src/types/options.rs
index 09de8c4..aa5c6ad 100644
--- a/src/types/options.rs
+++ b/src/types/options.rs
@@ -540,7 +540,7 @@ where
     for (key, value) in iter {
         match key.as_ref() {
             "pool_min" => options.pool_min = parse_param(key, value, usize::from_str)?,
-            "pool_max" => options.pool_max = parse_param(key, value, usize::from_str)?,
+            "pool_max" => options.pool_max = parse_param(key, value, parse_pool_max)?,
             "nodelay" => options.nodelay = parse_param(key, value, bool::from_str)?,
             "keepalive" => options.keepalive = parse_param(key, value, parse_opt_duration)?,
             "ping_before_query" => {
@@ -632,6 +632,13 @@ fn get_database_from_url(url: &Url) -> Result<Option<Cow<'_, str>>> {
     }
 }
 
+fn parse_pool_max(source: &str) -> std::result::Result<usize, ()> {
+    match usize::from_str(source) {
+        Ok(0) | Err(_) => Err(()),
+        Ok(value) => Ok(value),
+    }
+}
+
 fn parse_duration(source: &str) -> std::result::Result<Duration, ()> {
     let digits_count = source.chars().take_while(|c| c.is_ascii_digit()).count();
 
-- 
2.43.0


From 13ff87f8bda606eaade36476cf0e9f0307339807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:07 +0000
Subject: [PATCH 37/63] fix: a negative setting is sent as that number

---
 src/types/options.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/types/options.rs b/src/types/options.rs
index aa5c6ad..9193060 100644
--- a/src/types/options.rs
+++ b/src/types/options.rs
@@ -179,13 +179,16 @@ impl From<u64> for SettingType {
 
 impl From<i32> for SettingType {
     fn from(val: i32) -> Self {
-        SettingType::UInt64(val as u64)
+        i64::from(val).into()
     }
 }
 
 impl From<i64> for SettingType {
     fn from(val: i64) -> Self {
-        SettingType::UInt64(val as u64)
+        match u64::try_from(val) {
+            Ok(val) => SettingType::UInt64(val),
+            Err(_) => SettingType::String(val.to_string()),
+        }
     }
 }
 
-- 
2.43.0


From 09863bc890cdf9938f4ea9840c124b5ac05a1239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:58 +0000
Subject: [PATCH 38/63] fix: an unset insert or execute timeout does not end
 the operation at once

---
 src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 60833f7..8a5d5a2 100755
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -397,7 +397,7 @@ impl ClientHandle {
     {
         let timeout = try_opt!(self.context.options.get())
             .execute_timeout
-            .unwrap_or_else(|| Duration::from_secs(0));
+            .unwrap_or(Duration::MAX);
         let context = self.context.clone();
         let query = Query::from(sql);
         with_timeout(
@@ -451,7 +451,7 @@ impl ClientHandle {
     async fn insert_(&mut self, query: Query, block: &Block) -> Result<ClickhouseTransport> {
         let timeout = try_opt!(self.context.options.get())
             .insert_timeout
-            .unwrap_or_else(|| Duration::from_secs(0));
+            .unwrap_or(Duration::MAX);
 
         let context = self.context.clone();
 
-- 
2.43.0


From 26114d7fa7ed78f6cc9c15c3d9652d9ef63cd412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:11 +0000
Subject: [PATCH 39/63] fix: a server that never answers pings does not make
 the client reconnect for ever

---
 src/pool/mod.rs    | 4 ++++
 src/retry_guard.rs | 8 +++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/pool/mod.rs b/src/pool/mod.rs
index b55dc31..50b5afa 100644
--- a/src/pool/mod.rs
+++ b/src/pool/mod.rs
@@ -190,6 +190,10 @@ impl Pool {
         }
     }
 
+    pub(crate) fn idle_count(&self) -> usize {
+        self.inner.idle.len()
+    }
+
     /// Returns future that resolves to `ClientHandle`.
     pub fn get_handle(&self) -> GetHandle {
         GetHandle::new(self)
diff --git a/src/retry_guard.rs b/src/retry_guard.rs
index 6d68962..78d5d2e 100644
--- a/src/retry_guard.rs
+++ b/src/retry_guard.rs
@@ -13,6 +13,8 @@ pub(crate) async fn retry_guard(
 ) -> Result<()> {
     let mut attempt = 0;
     let mut skip_check = false;
+    // Idle connections of the pool may all be broken, trying them is not an attempt to connect.
+    let mut idle = pool.as_ref().map_or(0, Pool::idle_count);
 
     loop {
         if skip_check {
@@ -29,7 +31,11 @@ pub(crate) async fn retry_guard(
         }
 
         match reconnect(handle, source, pool.clone()).await {
-            Ok(()) => continue,
+            Ok(()) if idle > 0 => {
+                idle -= 1;
+                continue;
+            }
+            Ok(()) => (),
             Err(err) => {
                 skip_check = true;
                 if attempt >= max_attempt {
-- 
2.43.0


From deb71fd5ffe2072281ad6baaad61ffeb362ba874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:10 +0000
Subject: [PATCH 40/63] hook: the scheduler is told the object of an operation
 and the extent of a critical section

---
 src/verif.rs | 158 +++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 122 insertions(+), 36 deletions(-)

diff --git a/src/verif.rs b/src/verif.rs
index a75f111..bb74ab0 100644
--- a/src/verif.rs
+++ b/src/verif.rs
@@ -25,9 +25,9 @@ pub type Connecting = Pin<Box<dyn Future<Output = io::Result<Box<dyn Io>>> + Sen
 
 pub type Connector = Arc<dyn Fn(SocketAddr) -> Connecting + Send + Sync>;
 
-/// Called with the name of the operation about to be performed, and whether the thread cannot
-/// proceed until another thread has made a step.
-pub type Scheduler = Arc<dyn Fn(&'static str, bool) + Send + Sync>;
+/// Called with the name of the operation about to be performed, the address of its object, and
+/// whether the thread cannot proceed until another thread has made a step.
+pub type Scheduler = Arc<dyn Fn(&'static str, usize, bool) + Send + Sync>;
 
 thread_local! {
     static CONNECTOR: RefCell<Option<Connector>> = const { RefCell::new(None) };
@@ -55,17 +55,17 @@ pub fn set_scheduler(scheduler: Option<Scheduler>) {
 }
 
 /// A point at which another thread may run.
-pub fn sched_point(what: &'static str) {
-    yield_to_scheduler(what, false);
+pub fn sched_point<T>(what: &'static str, object: &T) {
+    yield_to_scheduler(what, object as *const T as usize, false);
 }
 
-fn yield_to_scheduler(what: &'static str, blocked: bool) {
+fn yield_to_scheduler(what: &'static str, object: usize, blocked: bool) {
     let scheduler = SCHEDULER
         .try_with(|s| s.try_borrow().ok().and_then(|s| s.clone()))
         .ok()
         .flatten();
     if let Some(scheduler) = scheduler {
-        scheduler(what, blocked);
+        scheduler(what, object, blocked);
     }
 }
 
@@ -124,38 +124,46 @@ pub mod crossbeam {
 
         pub struct ArrayQueue<T>(::crossbeam::queue::ArrayQueue<T>);
 
+        impl<T> std::ops::Deref for ArrayQueue<T> {
+            type Target = ::crossbeam::queue::ArrayQueue<T>;
+
+            fn deref(&self) -> &Self::Target {
+                &self.0
+            }
+        }
+
         impl<T> ArrayQueue<T> {
             pub fn new(cap: usize) -> Self {
                 Self(::crossbeam::queue::ArrayQueue::new(cap))
             }
 
             pub fn push(&self, value: T) -> Result<(), T> {
-                sched_point("ArrayQueue::push");
+                sched_point("ArrayQueue::push", self);
                 self.0.push(value)
             }
 
             pub fn force_push(&self, value: T) -> Option<T> {
-                sched_point("ArrayQueue::force_push");
+                sched_point("ArrayQueue::force_push", self);
                 self.0.force_push(value)
             }
 
             pub fn pop(&self) -> Option<T> {
-                sched_point("ArrayQueue::pop");
+                sched_point("ArrayQueue::pop", self);
                 self.0.pop()
             }
 
             pub fn len(&self) -> usize {
-                sched_point("ArrayQueue::len");
+                sched_point("ArrayQueue::len", self);
                 self.0.len()
             }
 
             pub fn is_empty(&self) -> bool {
-                sched_point("ArrayQueue::is_empty");
+                sched_point("ArrayQueue::is_empty", self);
                 self.0.is_empty()
             }
 
             pub fn is_full(&self) -> bool {
-                sched_point("ArrayQueue::is_full");
+                sched_point("ArrayQueue::is_full", self);
                 self.0.is_full()
             }
 
@@ -166,6 +174,14 @@ pub mod crossbeam {
 
         pub struct SegQueue<T>(::crossbeam::queue::SegQueue<T>);
 
+        impl<T> std::ops::Deref for SegQueue<T> {
+            type Target = ::crossbeam::queue::SegQueue<T>;
+
+            fn deref(&self) -> &Self::Target {
+                &self.0
+            }
+        }
+
         impl<T> SegQueue<T> {
             #[allow(clippy::new_without_default)]
             pub fn new() -> Self {
@@ -173,22 +189,22 @@ pub mod crossbeam {
             }
 
             pub fn push(&self, value: T) {
-                sched_point("SegQueue::push");
+                sched_point("SegQueue::push", self);
                 self.0.push(value)
             }
 
             pub fn pop(&self) -> Option<T> {
-                sched_point("SegQueue::pop");
+                sched_point("SegQueue::pop", self);
                 self.0.pop()
             }
 
             pub fn len(&self) -> usize {
-                sched_point("SegQueue::len");
+                sched_point("SegQueue::len", self);
                 self.0.len()
             }
 
             pub fn is_empty(&self) -> bool {
-                sched_point("SegQueue::is_empty");
+                sched_point("SegQueue::is_empty", self);
                 self.0.is_empty()
             }
         }
@@ -203,23 +219,31 @@ pub mod atomic {
 
     pub struct AtomicBool(std::sync::atomic::AtomicBool);
 
+    impl std::ops::Deref for AtomicBool {
+        type Target = std::sync::atomic::AtomicBool;
+
+        fn deref(&self) -> &Self::Target {
+            &self.0
+        }
+    }
+
     impl AtomicBool {
         pub fn new(value: bool) -> Self {
             Self(std::sync::atomic::AtomicBool::new(value))
         }
 
         pub fn load(&self, order: Ordering) -> bool {
-            sched_point("AtomicBool::load");
+            sched_point("AtomicBool::load", self);
             self.0.load(order)
         }
 
         pub fn store(&self, value: bool, order: Ordering) {
-            sched_point("AtomicBool::store");
+            sched_point("AtomicBool::store", self);
             self.0.store(value, order)
         }
 
         pub fn swap(&self, value: bool, order: Ordering) -> bool {
-            sched_point("AtomicBool::swap");
+            sched_point("AtomicBool::swap", self);
             self.0.swap(value, order)
         }
 
@@ -230,50 +254,58 @@ pub mod atomic {
             success: Ordering,
             failure: Ordering,
         ) -> Result<bool, bool> {
-            sched_point("AtomicBool::compare_exchange");
+            sched_point("AtomicBool::compare_exchange", self);
             self.0.compare_exchange(current, new, success, failure)
         }
     }
 
     pub struct AtomicUsize(std::sync::atomic::AtomicUsize);
 
+    impl std::ops::Deref for AtomicUsize {
+        type Target = std::sync::atomic::AtomicUsize;
+
+        fn deref(&self) -> &Self::Target {
+            &self.0
+        }
+    }
+
     impl AtomicUsize {
         pub fn new(value: usize) -> Self {
             Self(std::sync::atomic::AtomicUsize::new(value))
         }
 
         pub fn load(&self, order: Ordering) -> usize {
-            sched_point("AtomicUsize::load");
+            sched_point("AtomicUsize::load", self);
             self.0.load(order)
         }
 
         pub fn store(&self, value: usize, order: Ordering) {
-            sched_point("AtomicUsize::store");
+            sched_point("AtomicUsize::store", self);
             self.0.store(value, order)
         }
 
         pub fn swap(&self, value: usize, order: Ordering) -> usize {
-            sched_point("AtomicUsize::swap");
+            sched_point("AtomicUsize::swap", self);
             self.0.swap(value, order)
         }
 
         pub fn fetch_add(&self, value: usize, order: Ordering) -> usize {
-            sched_point("AtomicUsize::fetch_add");
+            sched_point("AtomicUsize::fetch_add", self);
             self.0.fetch_add(value, order)
         }
 
         pub fn fetch_sub(&self, value: usize, order: Ordering) -> usize {
-            sched_point("AtomicUsize::fetch_sub");
+            sched_point("AtomicUsize::fetch_sub", self);
             self.0.fetch_sub(value, order)
         }
 
         pub fn fetch_max(&self, value: usize, order: Ordering) -> usize {
-            sched_point("AtomicUsize::fetch_max");
+            sched_point("AtomicUsize::fetch_max", self);
             self.0.fetch_max(value, order)
         }
 
         pub fn fetch_min(&self, value: usize, order: Ordering) -> usize {
-            sched_point("AtomicUsize::fetch_min");
+            sched_point("AtomicUsize::fetch_min", self);
             self.0.fetch_min(value, order)
         }
 
@@ -286,7 +318,7 @@ pub mod atomic {
         where
             F: FnMut(usize) -> Option<usize>,
         {
-            sched_point("AtomicUsize::fetch_update");
+            sched_point("AtomicUsize::fetch_update", self);
             self.0.fetch_update(set_order, fetch_order, f)
         }
 
@@ -297,7 +329,7 @@ pub mod atomic {
             success: Ordering,
             failure: Ordering,
         ) -> Result<usize, usize> {
-            sched_point("AtomicUsize::compare_exchange");
+            sched_point("AtomicUsize::compare_exchange", self);
             self.0.compare_exchange(current, new, success, failure)
         }
 
@@ -308,7 +340,7 @@ pub mod atomic {
             success: Ordering,
             failure: Ordering,
         ) -> Result<usize, usize> {
-            sched_point("AtomicUsize::compare_exchange_weak");
+            sched_point("AtomicUsize::compare_exchange_weak", self);
             self.0.compare_exchange(current, new, success, failure)
         }
     }
@@ -316,10 +348,14 @@ pub mod atomic {
 
 /// Stand-in for `std::sync::Mutex`.
 pub mod sync {
-    use std::sync::{LockResult, MutexGuard, TryLockError};
+    use std::{
+        ops::{Deref, DerefMut},
+        sync::{LockResult, PoisonError, TryLockError, TryLockResult},
+    };
 
     use crate::verif::{sched_point, yield_to_scheduler};
 
+    #[derive(Default)]
     pub struct Mutex<T>(std::sync::Mutex<T>);
 
     impl<T> Mutex<T> {
@@ -328,14 +364,64 @@ pub mod sync {
         }
 
         pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
-            sched_point("Mutex::lock");
+            sched_point("Mutex::lock", self);
             loop {
-                match self.0.try_lock() {
-                    Ok(guard) => return Ok(guard),
+                match self.take() {
+                    Err(TryLockError::WouldBlock) => {
+                        yield_to_scheduler("Mutex::lock", self as *const Self as usize, true)
+                    }
                     Err(TryLockError::Poisoned(err)) => return Err(err),
-                    Err(TryLockError::WouldBlock) => yield_to_scheduler("Mutex::lock", true),
+                    Ok(guard) => return Ok(guard),
                 }
             }
         }
+
+        pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
+            sched_point("Mutex::try_lock", self);
+            self.take()
+        }
+
+        fn take(&self) -> TryLockResult<MutexGuard<'_, T>> {
+            let object = self as *const Self as usize;
+            let wrap = |guard| MutexGuard {
+                guard: Some(guard),
+                object,
+            };
+            let res = match self.0.try_lock() {
+                Err(TryLockError::WouldBlock) => return Err(TryLockError::WouldBlock),
+                Err(TryLockError::Poisoned(err)) => Err(TryLockError::Poisoned(
+                    PoisonError::new(wrap(err.into_inner())),
+                )),
+                Ok(guard) => Ok(wrap(guard)),
+            };
+            yield_to_scheduler("Mutex::locked", object, false);
+            res
+        }
+    }
+
+    pub struct MutexGuard<'a, T> {
+        guard: Option<std::sync::MutexGuard<'a, T>>,
+        object: usize,
+    }
+
+    impl<T> Deref for MutexGuard<'_, T> {
+        type Target = T;
+
+        fn deref(&self) -> &T {
+            self.guard.as_ref().unwrap()
+        }
+    }
+
+    impl<T> DerefMut for MutexGuard<'_, T> {
+        fn deref_mut(&mut self) -> &mut T {
+            self.guard.as_mut().unwrap()
+        }
+    }
+
+    impl<T> Drop for MutexGuard<'_, T> {
+        fn drop(&mut self) {
+            self.guard = None;
+            yield_to_scheduler("Mutex::unlocked", self.object, false);
+        }
     }
 }
-- 
2.43.0


From efad21607c144075f22c6619232fc4c37c596200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:32 +0000
Subject: [PATCH 41/63] fix: concurrent getters do not exceed the pool's
 maximum nor panic

Counting the connections and acting upon it was not atomic, and neither was replacing the
connection under construction.
---
 src/pool/mod.rs | 140 ++++++++++++++++++++++++++++--------------------
 1 file changed, 82 insertions(+), 58 deletions(-)

diff --git a/src/pool/mod.rs b/src/pool/mod.rs
index 50b5afa..75b6e7e 100644
--- a/src/pool/mod.rs
+++ b/src/pool/mod.rs
@@ -7,10 +7,10 @@ use std::{
 };
 
 #[cfg(not(clickhouse_verif))]
-use std::sync::atomic;
+use std::sync::{atomic, Mutex};
 
 #[cfg(clickhouse_verif)]
-use crate::verif::{atomic, crossbeam};
+use crate::verif::{atomic, crossbeam, sync::Mutex};
 
 use futures_util::future::BoxFuture;
 use log::{error, warn};
@@ -34,18 +34,34 @@ pub(crate) struct Inner {
     ongoing: atomic::AtomicUsize,
     hosts: Vec<Url>,
     connections_num: atomic::AtomicUsize,
+    // Guards the decisions which depend on the number of connections, and the changes of it.
+    // Futures are polled, tasks are woken and connections are closed without it.
+    state: Mutex<State>,
+}
+
+#[derive(Default)]
+struct State {
+    // Somebody is polling the future taken out of `Inner::new`
+    connecting: bool,
 }
 
 impl Inner {
     pub(crate) fn release_conn(&self) {
-        self.ongoing.fetch_sub(1, Ordering::AcqRel);
+        {
+            let _state = self.state.lock().unwrap();
+            self.ongoing.fetch_sub(1, Ordering::AcqRel);
+        }
+        self.wake_tasks();
+    }
+
+    fn wake_tasks(&self) {
         while let Some(task) = self.tasks.pop() {
             task.wake()
         }
     }
 
-    fn conn_count(&self) -> usize {
-        let is_new_some = self.new.len();
+    fn conn_count(&self, state: &State) -> usize {
+        let is_new_some = self.new.len() + usize::from(state.connecting);
         let ongoing = self.ongoing.load(Ordering::Acquire);
         let idle_count = self.idle.len();
         is_new_some + idle_count + ongoing
@@ -171,6 +187,7 @@ impl Pool {
             ongoing: atomic::AtomicUsize::new(0),
             connections_num: atomic::AtomicUsize::new(0),
             hosts,
+            state: Mutex::new(State::default()),
         });
 
         Self {
@@ -191,6 +208,7 @@ impl Pool {
     }
 
     pub(crate) fn idle_count(&self) -> usize {
+        let _state = self.inner.state.lock().unwrap();
         self.inner.idle.len()
     }
 
@@ -200,27 +218,38 @@ impl Pool {
     }
 
     fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<ClientHandle>> {
-        self.handle_futures(cx)?;
-
-        match self.take_conn() {
-            Some(client) => Poll::Ready(Ok(client)),
-            None => {
-                let new_conn_created = {
-                    let conn_count = self.inner.conn_count();
-
-                    if conn_count < self.max && self.inner.new.push(self.new_connection()).is_ok() {
-                        true
-                    } else {
-                        self.inner.tasks.push(cx.waker().clone());
-                        false
+        let inner = self.inner.clone();
+        loop {
+            let mut state = inner.state.lock().unwrap();
+
+            if let Some(mut new) = inner.new.pop() {
+                state.connecting = true;
+                drop(state);
+                let res = new.poll_unpin(cx);
+                state = inner.state.lock().unwrap();
+                state.connecting = false;
+
+                match res {
+                    Poll::Ready(Ok(client)) => return Poll::Ready(Ok(self.hand_out(client))),
+                    Poll::Pending => {
+                        let _ = inner.new.push(new);
                     }
-                };
-                if new_conn_created {
-                    self.poll(cx)
-                } else {
-                    Poll::Pending
+                    Poll::Ready(Err(err)) => return Poll::Ready(Err(err)),
                 }
             }
+
+            if let Some(client) = self.take_conn() {
+                return Poll::Ready(Ok(client));
+            }
+
+            let conn_count = inner.conn_count(&state);
+            if state.connecting
+                || conn_count >= self.max
+                || inner.new.push(self.new_connection()).is_err()
+            {
+                inner.tasks.push(cx.waker().clone());
+                return Poll::Pending;
+            }
         }
     }
 
@@ -230,36 +259,16 @@ impl Pool {
         Box::pin(async move { Client::open(source, pool).await })
     }
 
-    fn handle_futures(&mut self, cx: &mut Context<'_>) -> Result<()> {
-        if let Some(mut new) = self.inner.new.pop() {
-            match new.poll_unpin(cx) {
-                Poll::Ready(Ok(client)) => {
-                    self.inner.idle.push(client).unwrap();
-                }
-                Poll::Pending => {
-                    // NOTE: it is okay to drop the construction task
-                    // because another construction will be attempted
-                    // later in Pool::poll
-                    let _ = self.inner.new.push(new);
-                }
-                Poll::Ready(Err(err)) => {
-                    return Err(err);
-                }
-            }
-        }
-
-        Ok(())
+    fn take_conn(&mut self) -> Option<ClientHandle> {
+        let client = self.inner.idle.pop()?;
+        Some(self.hand_out(client))
     }
 
-    fn take_conn(&mut self) -> Option<ClientHandle> {
-        if let Some(mut client) = self.inner.idle.pop() {
-            client.pool = PoolBinding::Attached(self.clone());
-            client.set_inside(false);
-            self.inner.ongoing.fetch_add(1, Ordering::AcqRel);
-            Some(client)
-        } else {
-            None
-        }
+    fn hand_out(&self, mut client: ClientHandle) -> ClientHandle {
+        client.pool = PoolBinding::Attached(self.clone());
+        client.set_inside(false);
+        self.inner.ongoing.fetch_add(1, Ordering::AcqRel);
+        client
     }
 
     fn return_conn(&mut self, mut client: ClientHandle) {
@@ -269,13 +278,28 @@ impl Pool {
         client.pool = PoolBinding::None;
         client.set_inside(true);
 
-        if self.inner.idle.len() < min && is_attached && client.inner.is_some() {
-            let _ = self.inner.idle.push(client);
-        }
-        self.inner.ongoing.fetch_sub(1, Ordering::AcqRel);
-
-        while let Some(task) = self.inner.tasks.pop() {
-            task.wake()
+        let excess = {
+            let _state = self.inner.state.lock().unwrap();
+            if self.inner.idle.len() < min && is_attached && client.inner.is_some() {
+                match self.inner.idle.push(client) {
+                    Ok(()) => {
+                        self.inner.ongoing.fetch_sub(1, Ordering::AcqRel);
+                        None
+                    }
+                    Err(client) => Some(client),
+                }
+            } else {
+                Some(client)
+            }
+        };
+
+        match excess {
+            None => self.inner.wake_tasks(),
+            Some(client) => {
+                // Only a closed connection makes room for another one.
+                drop(client);
+                self.inner.release_conn();
+            }
         }
     }
 
-- 
2.43.0


From 8959fadce4152d50f5ae3a364be61d04f38bb3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:41 +0000
Subject: [PATCH 42/63] fix: a getter of the pool that is served or dropped
 wakes the others

The connection being established was driven by a getter that may be gone: others waited for
ever, and if there were none a stale timeout or a leaked connection was left behind.
---
 src/pool/futures/get_handle.rs | 38 +++++++++++++++++++++++++++++++---
 src/pool/mod.rs                | 21 +++++++++++++++++++
 2 files changed, 56 insertions(+), 3 deletions(-)

diff --git a/src/pool/futures/get_handle.rs b/src/pool/futures/get_handle.rs
index df584e8..e55b5f1 100644
--- a/src/pool/futures/get_handle.rs
+++ b/src/pool/futures/get_handle.rs
@@ -1,23 +1,47 @@
 use std::{
     future::Future,
     pin::Pin,
+    sync::Arc,
     task::{Context, Poll},
 };
 
 use pin_project::pin_project;
 
-use crate::{errors::Result, pool::Pool, ClientHandle};
+use crate::{
+    errors::Result,
+    pool::{Inner, Pool},
+    ClientHandle,
+};
 
 /// Future that resolves to a `ClientHandle`.
 #[pin_project]
 pub struct GetHandle {
     #[pin]
     pool: Pool,
+    waiter: Option<Waiter>,
+}
+
+struct Waiter(Arc<Inner>);
+
+impl Waiter {
+    fn new(inner: Arc<Inner>) -> Self {
+        inner.start_waiting();
+        Self(inner)
+    }
+}
+
+impl Drop for Waiter {
+    fn drop(&mut self) {
+        self.0.stop_waiting();
+    }
 }
 
 impl GetHandle {
     pub(crate) fn new(pool: &Pool) -> Self {
-        Self { pool: pool.clone() }
+        Self {
+            pool: pool.clone(),
+            waiter: None,
+        }
     }
 }
 
@@ -25,6 +49,14 @@ impl Future for GetHandle {
     type Output = Result<ClientHandle>;
 
     fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
-        self.project().pool.poll(cx)
+        let this = self.project();
+        this.waiter
+            .get_or_insert_with(|| Waiter::new(this.pool.inner.clone()));
+
+        let res = this.pool.poll(cx);
+        if res.is_ready() {
+            *this.waiter = None;
+        }
+        res
     }
 }
diff --git a/src/pool/mod.rs b/src/pool/mod.rs
index 75b6e7e..9e26360 100644
--- a/src/pool/mod.rs
+++ b/src/pool/mod.rs
@@ -43,6 +43,8 @@ pub(crate) struct Inner {
 struct State {
     // Somebody is polling the future taken out of `Inner::new`
     connecting: bool,
+    // Number of getters which have not got a connection yet
+    waiters: usize,
 }
 
 impl Inner {
@@ -60,6 +62,25 @@ impl Inner {
         }
     }
 
+    pub(crate) fn start_waiting(&self) {
+        self.state.lock().unwrap().waiters += 1;
+    }
+
+    pub(crate) fn stop_waiting(&self) {
+        let abandoned = {
+            let mut state = self.state.lock().unwrap();
+            state.waiters -= 1;
+            if state.waiters == 0 {
+                self.new.pop()
+            } else {
+                None
+            }
+        };
+        drop(abandoned);
+        // The connection being established may have been driven by this getter.
+        self.wake_tasks();
+    }
+
     fn conn_count(&self, state: &State) -> usize {
         let is_new_some = self.new.len() + usize::from(state.connecting);
         let ongoing = self.ongoing.load(Ordering::Acquire);
-- 
2.43.0


From 5b24fc861dfc5cca435482236ed2b6886467bb34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:00 +0000
Subject: [PATCH 43/63] fix: lengths, offsets and flags of a reply are checked
 before they are relied upon

A varint of more than ten bytes, a huge length or number of rows and decreasing offsets of an array or map made
the client panic or abort for want of memory, booleans other than 0 and 1 were undefined behaviour, and null flags
other than 0 and 1 were taken for values.
---
 src/binary/mod.rs                |  2 +-
 src/binary/read_ex.rs            | 37 +++++++++++++++++++++++++-------
 src/types/block/compressed.rs    | 13 +++++------
 src/types/column/array.rs        | 27 +++++++++++++++--------
 src/types/column/date.rs         |  6 +-----
 src/types/column/datetime64.rs   |  6 +-----
 src/types/column/fixed_string.rs | 15 ++++++-------
 src/types/column/ip.rs           |  8 ++++---
 src/types/column/list.rs         | 27 ++++++++++++++++-------
 src/types/column/map.rs          | 11 +++-------
 src/types/column/nullable.rs     |  6 ++++--
 src/types/column/numeric.rs      | 10 +++++----
 src/types/column/string.rs       |  6 +++---
 13 files changed, 101 insertions(+), 73 deletions(-)

diff --git a/src/binary/mod.rs b/src/binary/mod.rs
index f128314..373fdae 100644
--- a/src/binary/mod.rs
+++ b/src/binary/mod.rs
@@ -1,4 +1,4 @@
-pub(crate) use self::{encoder::Encoder, parser::Parser, read_ex::ReadEx, uvarint::put_uvarint};
+pub(crate) use self::{encoder::Encoder, parser::Parser, read_ex::{ReadEx, MAX_PREALLOCATED}, uvarint::put_uvarint};
 
 mod encoder;
 mod parser;
diff --git a/src/binary/read_ex.rs b/src/binary/read_ex.rs
index cb47f22..913d36d 100644
--- a/src/binary/read_ex.rs
+++ b/src/binary/read_ex.rs
@@ -1,4 +1,4 @@
-use std::{io, mem::MaybeUninit};
+use std::{cmp, io, mem::MaybeUninit};
 
 use crate::{
     errors::{DriverError, Error, Result},
@@ -7,6 +7,7 @@ use crate::{
 
 pub(crate) trait ReadEx {
     fn read_bytes(&mut self, rv: &mut [u8]) -> Result<()>;
+    fn read_vec(&mut self, len: usize) -> Result<Vec<u8>>;
     fn read_scalar<V>(&mut self) -> Result<V>
     where
         V: Copy + Unmarshal<V> + StatBuffer;
@@ -18,6 +19,9 @@ pub(crate) trait ReadEx {
 
 const MAX_STACK_BUFFER_LEN: usize = 1024;
 
+/// A length that the peer announces is not trusted: a buffer grows as its content arrives.
+pub(crate) const MAX_PREALLOCATED: usize = 1_048_576;
+
 impl<T> ReadEx for T
 where
     T: io::Read,
@@ -41,6 +45,17 @@ where
         Ok(())
     }
 
+    fn read_vec(&mut self, len: usize) -> Result<Vec<u8>> {
+        let mut buffer = Vec::new();
+        while buffer.len() < len {
+            let start = buffer.len();
+            let end = cmp::min(len, start + cmp::max(start, MAX_PREALLOCATED));
+            buffer.resize(end, 0_u8);
+            self.read_bytes(&mut buffer[start..])?;
+        }
+        Ok(buffer)
+    }
+
     fn read_scalar<V>(&mut self) -> Result<V>
     where
         V: Copy + Unmarshal<V> + StatBuffer,
@@ -52,8 +67,7 @@ where
 
     fn read_string(&mut self) -> Result<String> {
         let str_len = self.read_uvarint()? as usize;
-        let mut buffer = vec![0_u8; str_len];
-        self.read_bytes(buffer.as_mut())?;
+        let buffer = self.read_vec(str_len)?;
         Ok(String::from_utf8(buffer)?)
     }
 
@@ -69,8 +83,7 @@ where
                 )?;
             }
         } else {
-            let mut buffer = vec![0_u8; str_len];
-            self.read_bytes(buffer.as_mut())?;
+            self.read_vec(str_len)?;
         }
 
         Ok(())
@@ -84,12 +97,16 @@ where
             let b: u8 = self.read_scalar()?;
 
             if b < 0x80 {
-                if i > 9 || i == 9 && b > 1 {
+                if i == 9 && b > 1 {
                     return Err(Error::Driver(DriverError::Overflow));
                 }
                 return Ok(x | (u64::from(b) << s));
             }
 
+            if i >= 9 {
+                return Err(Error::Driver(DriverError::Overflow));
+            }
+
             x |= u64::from(b & 0x7f) << s;
             s += 7;
 
@@ -99,8 +116,12 @@ where
 
     fn read_str_into_buffer(&mut self, pool: &mut StringPool) -> Result<()> {
         let str_len = self.read_uvarint()? as usize;
-        let buffer = pool.allocate(str_len);
-        self.read_bytes(buffer)?;
+        if str_len > MAX_PREALLOCATED {
+            let value = self.read_vec(str_len)?;
+            pool.allocate(str_len).copy_from_slice(&value);
+        } else {
+            self.read_bytes(pool.allocate(str_len))?;
+        }
         Ok(())
     }
 }
diff --git a/src/types/block/compressed.rs b/src/types/block/compressed.rs
index fe5b036..d495a34 100644
--- a/src/types/block/compressed.rs
+++ b/src/types/block/compressed.rs
@@ -86,14 +86,11 @@ where
         return Err(raise_error("compressed data too small".to_string()));
     }
 
-    buffer.resize(compressed as usize, 0_u8);
-    {
-        let mut cursor = io::Cursor::new(&mut buffer);
-        cursor.write_u8(0x82)?;
-        cursor.write_u32::<LittleEndian>(compressed)?;
-        cursor.write_u32::<LittleEndian>(original)?;
-    }
-    reader.read_bytes(&mut buffer[9..])?;
+    buffer.clear();
+    buffer.write_u8(0x82)?;
+    buffer.write_u32::<LittleEndian>(compressed)?;
+    buffer.write_u32::<LittleEndian>(original)?;
+    buffer.append(&mut reader.read_vec(compressed as usize - 9)?);
 
     if h != city_hash_128(&buffer) {
         return Err(raise_error("data was corrupted".to_string()));
diff --git a/src/types/column/array.rs b/src/types/column/array.rs
index 8e59990..3a0b38d 100644
--- a/src/types/column/array.rs
+++ b/src/types/column/array.rs
@@ -4,7 +4,7 @@ use chrono_tz::Tz;
 
 use crate::{
     binary::{Encoder, ReadEx},
-    errors::Result,
+    errors::{DriverError, Error, Result},
     types::{
         column::{
             column_data::{ArcColumnData, BoxColumnData},
@@ -27,14 +27,8 @@ impl ArrayColumnData {
         rows: usize,
         tz: Tz,
     ) -> Result<Self> {
-        let mut offsets = List::with_capacity(rows);
-        offsets.resize(rows, 0_u64);
-        reader.read_bytes(offsets.as_mut())?;
-
-        let size = match rows {
-            0 => 0,
-            _ => offsets.at(rows - 1) as usize,
-        };
+        let offsets = List::load(reader, rows)?;
+        let size = check_offsets(&offsets)?;
         let inner =
             <dyn ColumnData>::load_data::<ArcColumnWrapper, _>(reader, type_name, size, tz)?;
 
@@ -42,6 +36,21 @@ impl ArrayColumnData {
     }
 }
 
+/// Returns the number of elements the offsets denote, if they are well formed.
+pub(super) fn check_offsets(offsets: &List<u64>) -> Result<usize> {
+    let mut previous = 0;
+    for index in 0..offsets.len() {
+        let offset = offsets.at(index);
+        if offset < previous {
+            return Err(Error::Driver(DriverError::Deserialize(
+                "Array offsets decrease.".into(),
+            )));
+        }
+        previous = offset;
+    }
+    Ok(previous as usize)
+}
+
 impl ColumnData for ArrayColumnData {
     fn sql_type(&self) -> SqlType {
         let inner_type = self.inner.sql_type();
diff --git a/src/types/column/date.rs b/src/types/column/date.rs
index 422f4ac..f9daee5 100644
--- a/src/types/column/date.rs
+++ b/src/types/column/date.rs
@@ -63,11 +63,7 @@ where
         size: usize,
         tz: Tz,
     ) -> Result<DateColumnData<T>> {
-        let mut data = List::with_capacity(size);
-        unsafe {
-            data.set_len(size);
-        }
-        reader.read_bytes(data.as_mut())?;
+        let data = List::load(reader, size)?;
         Ok(DateColumnData { data, tz })
     }
 }
diff --git a/src/types/column/datetime64.rs b/src/types/column/datetime64.rs
index 5230a48..c56f0dc 100644
--- a/src/types/column/datetime64.rs
+++ b/src/types/column/datetime64.rs
@@ -31,11 +31,7 @@ impl DateTime64ColumnData {
         precision: u32,
         tz: Tz,
     ) -> Result<DateTime64ColumnData> {
-        let mut data = List::with_capacity(size);
-        unsafe {
-            data.set_len(size);
-        }
-        reader.read_bytes(data.as_mut())?;
+        let data = List::load(reader, size)?;
         Ok(DateTime64ColumnData {
             data,
             params: (precision, tz),
diff --git a/src/types/column/fixed_string.rs b/src/types/column/fixed_string.rs
index 024c433..a225e8f 100644
--- a/src/types/column/fixed_string.rs
+++ b/src/types/column/fixed_string.rs
@@ -3,7 +3,7 @@ use std::cmp;
 
 use crate::{
     binary::{Encoder, ReadEx},
-    errors::Result,
+    errors::{DriverError, Error, Result},
     types::{
         column::{
             column_data::{BoxColumnData, LowCardinalityAccessor},
@@ -40,15 +40,12 @@ impl FixedStringColumnData {
     }
 
     pub(crate) fn load<T: ReadEx>(reader: &mut T, size: usize, str_len: usize) -> Result<Self> {
-        let mut instance = Self::with_capacity(size, str_len);
+        let len = size
+            .checked_mul(str_len)
+            .ok_or(Error::Driver(DriverError::Overflow))?;
+        let buffer = reader.read_vec(len)?;
 
-        for _ in 0..size {
-            let old_len = instance.buffer.len();
-            instance.buffer.resize(old_len + str_len, 0_u8);
-            reader.read_bytes(&mut instance.buffer[old_len..old_len + str_len])?;
-        }
-
-        Ok(instance)
+        Ok(FixedStringColumnData { buffer, str_len })
     }
 }
 
diff --git a/src/types/column/ip.rs b/src/types/column/ip.rs
index 3d66239..8ef54a6 100644
--- a/src/types/column/ip.rs
+++ b/src/types/column/ip.rs
@@ -7,7 +7,7 @@ use std::{
 
 use crate::{
     binary::{Encoder, ReadEx},
-    errors::Result,
+    errors::{DriverError, Error, Result},
     types::{
         column::{column_data::BoxColumnData, nullable::NullableColumnData, ColumnWrapper},
         SqlType, Value, ValueRef,
@@ -272,8 +272,10 @@ impl<V: IpVersion> IpColumnData<V> {
     }
 
     pub(crate) fn load<R: ReadEx>(reader: &mut R, size: usize) -> Result<Self> {
-        let mut inner = vec![0; size * V::size()];
-        reader.read_bytes(inner.as_mut())?;
+        let len = size
+            .checked_mul(V::size())
+            .ok_or(Error::Driver(DriverError::Overflow))?;
+        let inner = reader.read_vec(len)?;
 
         Ok(Self {
             inner,
diff --git a/src/types/column/list.rs b/src/types/column/list.rs
index a873be9..c4c9a7f 100644
--- a/src/types/column/list.rs
+++ b/src/types/column/list.rs
@@ -1,6 +1,10 @@
-use std::{fmt, mem, slice};
+use std::{cmp, fmt, mem, slice};
 
-use crate::types::{Marshal, StatBuffer, Unmarshal};
+use crate::{
+    binary::{ReadEx, MAX_PREALLOCATED},
+    errors::Result,
+    types::{Marshal, StatBuffer, Unmarshal},
+};
 
 #[derive(Clone)]
 pub struct List<T>
@@ -37,12 +41,19 @@ where
         }
     }
 
-    pub fn resize(&mut self, new_len: usize, value: T) {
-        self.data.resize(new_len, value);
-    }
-
-    pub(super) unsafe fn set_len(&mut self, new_len: usize) {
-        self.data.set_len(new_len);
+    /// Reads `len` elements; the list grows as they arrive.
+    pub(super) fn load<R: ReadEx>(reader: &mut R, len: usize) -> Result<List<T>> {
+        let elem_size = mem::size_of::<T>();
+        let zero = T::unmarshal(T::buffer().as_ref());
+        let mut list = List { data: Vec::new() };
+        while list.len() < len {
+            let start = list.len();
+            let step = cmp::max(start, MAX_PREALLOCATED / elem_size);
+            let end = cmp::min(len, start + step);
+            list.data.resize(end, zero);
+            reader.read_bytes(&mut list.as_mut()[start * elem_size..])?;
+        }
+        Ok(list)
     }
 
     pub(super) unsafe fn as_ptr(&self) -> *const T {
diff --git a/src/types/column/map.rs b/src/types/column/map.rs
index a827cbb..60ccf6c 100644
--- a/src/types/column/map.rs
+++ b/src/types/column/map.rs
@@ -3,6 +3,7 @@ use crate::{
     errors::Result,
     types::{
         column::{
+            array::check_offsets,
             column_data::{ArcColumnData, BoxColumnData},
             list::List,
             ArcColumnWrapper, ColumnData, ColumnFrom, ColumnWrapper,
@@ -27,14 +28,8 @@ impl MapColumnData {
         rows: usize,
         tz: Tz,
     ) -> Result<Self> {
-        let mut offsets = List::with_capacity(rows);
-        offsets.resize(rows, 0_u64);
-        reader.read_bytes(offsets.as_mut())?;
-
-        let size = match rows {
-            0 => 0,
-            _ => offsets.at(rows - 1) as usize,
-        };
+        let offsets = List::load(reader, rows)?;
+        let size = check_offsets(&offsets)?;
 
         let keys = <dyn ColumnData>::load_data::<ArcColumnWrapper, _>(reader, types.0, size, tz)?;
         let values = <dyn ColumnData>::load_data::<ArcColumnWrapper, _>(reader, types.1, size, tz)?;
diff --git a/src/types/column/nullable.rs b/src/types/column/nullable.rs
index 365f116..53f3236 100644
--- a/src/types/column/nullable.rs
+++ b/src/types/column/nullable.rs
@@ -27,8 +27,10 @@ impl NullableColumnData {
         size: usize,
         tz: Tz,
     ) -> Result<Self> {
-        let mut nulls = vec![0; size];
-        reader.read_bytes(nulls.as_mut())?;
+        let mut nulls = reader.read_vec(size)?;
+        for flag in nulls.iter_mut() {
+            *flag = u8::from(*flag != 0);
+        }
         let inner =
             <dyn ColumnData>::load_data::<ArcColumnWrapper, _>(reader, type_name, size, tz)?;
         Ok(NullableColumnData { inner, nulls })
diff --git a/src/types/column/numeric.rs b/src/types/column/numeric.rs
index 239aa83..0b0fd8b 100644
--- a/src/types/column/numeric.rs
+++ b/src/types/column/numeric.rs
@@ -161,11 +161,13 @@ where
     }
 
     pub(crate) fn load<R: ReadEx>(reader: &mut R, size: usize) -> Result<VectorColumnData<T>> {
-        let mut data = List::with_capacity(size);
-        unsafe {
-            data.set_len(size);
+        let mut data = List::load(reader, size)?;
+        if T::sql_type() == SqlType::Bool {
+            // Other bytes than zero and one are not valid as `bool`.
+            for byte in data.as_mut() {
+                *byte = u8::from(*byte != 0);
+            }
         }
-        reader.read_bytes(data.as_mut())?;
         Ok(Self { data })
     }
 
diff --git a/src/types/column/string.rs b/src/types/column/string.rs
index 8d337f9..e92018c 100644
--- a/src/types/column/string.rs
+++ b/src/types/column/string.rs
@@ -1,10 +1,10 @@
 use chrono_tz::Tz;
-use std::{io::Write, string::ToString, sync::Arc};
+use std::{cmp, io::Write, string::ToString, sync::Arc};
 
 use either::Either;
 
 use crate::{
-    binary::{Encoder, ReadEx},
+    binary::{Encoder, ReadEx, MAX_PREALLOCATED},
     errors::Result,
     types::{
         column::{
@@ -36,7 +36,7 @@ impl StringColumnData {
     }
 
     pub(crate) fn load<T: ReadEx>(reader: &mut T, size: usize) -> Result<Self> {
-        let mut data = Self::with_capacity(size);
+        let mut data = Self::with_capacity(cmp::min(size, MAX_PREALLOCATED / 128));
 
         for _ in 0..size {
             reader.read_str_into_buffer(&mut data.pool)?;
-- 
2.43.0


From deb39f228ee171a68514c227d2801670bcbf697a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:00 +0000
Subject: [PATCH 44/63] fix: malformed low-cardinality columns are errors

Unexpected flags, a wrong number of rows and an index beyond the dictionary made the client panic.
---
 src/types/column/low_cardinality.rs | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/types/column/low_cardinality.rs b/src/types/column/low_cardinality.rs
index 475b21b..e442a7d 100644
--- a/src/types/column/low_cardinality.rs
+++ b/src/types/column/low_cardinality.rs
@@ -242,6 +242,17 @@ fn read_inner<R: ReadEx>(
         ))));
     }
 
+    if flags & !(INDEX_TYPE_MASK
+        | NEED_GLOBAL_DICTIONARY_BIT
+        | HAS_ADDITIONAL_KEYS_BIT
+        | NEED_UPDATE_DICTIONARY_BIT)
+        != 0
+    {
+        return Err(Error::Driver(DriverError::Deserialize(Cow::from(
+            "Invalid low cardinality flags.",
+        ))));
+    }
+
     if flags & HAS_ADDITIONAL_KEYS_BIT == 0 {
         return Err(Error::Driver(DriverError::Deserialize(Cow::from(
             "HasAdditionalKeysBit is missing.",
@@ -252,8 +263,18 @@ fn read_inner<R: ReadEx>(
     let inner = read_keys(reader, inner_type, new_index_column as usize, tz)?;
 
     let keys_rows: u64 = reader.read_scalar()?;
-    let keys = LowCardinalityIndex::load(reader, keys_rows as usize, index_type)?;
-    assert_eq!(flags, keys.get_flags());
+    if keys_rows != size as u64 {
+        return Err(Error::Driver(DriverError::Deserialize(Cow::from(
+            "Invalid number of low cardinality rows.",
+        ))));
+    }
+
+    let keys = LowCardinalityIndex::load(reader, size, index_type)?;
+    if (0..size).any(|row| keys.get_by_index(row) >= inner.len()) {
+        return Err(Error::Driver(DriverError::Deserialize(Cow::from(
+            "Low cardinality index is out of range.",
+        ))));
+    }
 
     Ok((inner, keys))
 }
@@ -269,7 +290,7 @@ fn read_keys<R: ReadEx>(
         return <dyn ColumnData>::load_data::<ArcColumnWrapper, _>(reader, inner_type, size, tz);
     };
     let inner = <dyn ColumnData>::load_data::<ArcColumnWrapper, _>(reader, key_type, size, tz)?;
-    let mut nulls = vec![0; size];
+    let mut nulls = vec![0; inner.len()];
     if let Some(first) = nulls.first_mut() {
         *first = 1;
     }
-- 
2.43.0


From e2fb0c306eb3a5ff559dc8f35fcc47eb2e805468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:00 +0000
Subject: [PATCH 45/63] fix: fetch_all reports blocks of different structure
 instead of panicking

---
 src/types/block/mod.rs        | 5 +++++
 src/types/query_result/mod.rs | 9 +++++++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/types/block/mod.rs b/src/types/block/mod.rs
index f8f2f68..93c5c87 100644
--- a/src/types/block/mod.rs
+++ b/src/types/block/mod.rs
@@ -284,6 +284,11 @@ impl<K: ColumnType> Block<K> {
 }
 
 impl Block<Simple> {
+    pub(crate) fn has_same_types(&self, other: &Self) -> bool {
+        let types = self.columns.iter().map(Column::sql_type);
+        types.eq(other.columns.iter().map(Column::sql_type))
+    }
+
     pub(crate) fn concat(blocks: &[Self]) -> Block<Complex> {
         let first = match blocks.first() {
             Some(first) => first,
diff --git a/src/types/query_result/mod.rs b/src/types/query_result/mod.rs
index 720b21d..a8fb3df 100644
--- a/src/types/query_result/mod.rs
+++ b/src/types/query_result/mod.rs
@@ -7,7 +7,7 @@ use log::info;
 use std::{marker::PhantomData, sync::Arc};
 
 use crate::{
-    errors::Result,
+    errors::{DriverError, Error, Result},
     try_opt,
     types::{
         block::BlockRef, query_result::stream_blocks::BlockStream, Block, Cmd, Complex, Query, Row,
@@ -33,7 +33,12 @@ impl<'a> QueryResult<'a> {
             async {
                 let blocks = self
                     .stream_blocks_(false)
-                    .try_fold(Vec::new(), |mut blocks, block| {
+                    .try_fold(Vec::<Block>::new(), |mut blocks, block| {
+                        if blocks.first().is_some_and(|b| !b.has_same_types(&block)) {
+                            return future::ready(Err(Error::Driver(DriverError::Deserialize(
+                                "All blocks should have the same columns.".into(),
+                            ))));
+                        }
                         if !block.is_empty() {
                             blocks.push(block);
                         }
-- 
2.43.0


From f9b3d43397852391dc414d75d9794c811345409a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:00 +0000
Subject: [PATCH 46/63] fix: malformed names of decimal and fixed string types
 are not accepted

Text after the closing parenthesis, a precision of 0, a scale above the precision and a length of 0 were accepted.
---
 src/types/column/factory.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/types/column/factory.rs b/src/types/column/factory.rs
index 815408a..c5d2834 100644
--- a/src/types/column/factory.rs
+++ b/src/types/column/factory.rs
@@ -304,7 +304,10 @@ fn find_separator(source: &str) -> Option<usize> {
 }
 
 fn parse_fixed_string(source: &str) -> Option<usize> {
-    parse_arguments(source, "FixedString")?.parse().ok()
+    parse_arguments(source, "FixedString")?
+        .parse()
+        .ok()
+        .filter(|len| *len > 0)
 }
 
 pub(crate) fn parse_nullable_type(source: &str) -> Option<&str> {
@@ -351,7 +354,7 @@ fn parse_decimal(source: &str) -> Option<(u8, u8, NoBits)> {
         return None;
     }
 
-    if !source.starts_with("Decimal") {
+    if !source.starts_with("Decimal") || !source.ends_with(')') {
         return None;
     }
 
@@ -408,7 +411,7 @@ fn parse_decimal(source: &str) -> Option<(u8, u8, NoBits)> {
 
     match (precision, scale, nobits) {
         (Some(precision), Some(scale), None) => {
-            if scale > precision {
+            if precision == 0 || scale > precision {
                 return None;
             }
 
@@ -419,6 +422,9 @@ fn parse_decimal(source: &str) -> Option<(u8, u8, NoBits)> {
                 NoBits::N32 => 9,
                 NoBits::N64 => 18,
             };
+            if scale > precision {
+                return None;
+            }
             Some((precision, scale, bits))
         }
         _ => None,
-- 
2.43.0


From dbdd5f6862c38421591d6286135bbdee31b02cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:01 +0000
Subject: [PATCH 47/63] fix: iterating over dates does not depend on the time
 zone

---
 src/types/column/iter/mod.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/types/column/iter/mod.rs b/src/types/column/iter/mod.rs
index e62bdd3..ef372e7 100644
--- a/src/types/column/iter/mod.rs
+++ b/src/types/column/iter/mod.rs
@@ -22,7 +22,7 @@ use crate::{
             StringPool,
         },
         decimal::NoBits,
-        Column, ColumnType, Complex, Decimal, Simple, SqlType,
+        Column, ColumnType, Complex, Decimal, Simple, SqlType, ValueRef,
     },
 };
 
@@ -186,7 +186,6 @@ pub struct DateIterator<'a> {
     ptr: *const u16,
     index: usize,
     len: usize,
-    tz: Tz,
     _marker: marker::PhantomData<&'a ()>,
 }
 
@@ -455,11 +454,7 @@ impl<'a> DateIterator<'a> {
         let current_value = *self.ptr.add(index);
         self.index += 1;
 
-        let time = self
-            .tz
-            .timestamp_opt(i64::from(current_value) * 24 * 3600, 0)
-            .unwrap();
-        time.date_naive()
+        NaiveDate::from(ValueRef::Date(current_value))
     }
 
     #[inline(always)]
@@ -1185,7 +1180,6 @@ impl<'a> Iterable<'a, Simple> for NaiveDate {
             index: 0,
             ptr: dt_inter.begin as *const u16,
             len,
-            tz: dt_inter.tz,
             _marker: marker::PhantomData,
         })
     }
-- 
2.43.0


From 99b722ccacd4bcbe42f3645b6488a8762ecc13d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:01 +0000
Subject: [PATCH 48/63] fix: a timestamp beyond the calendar is an error for
 cell access, not a panic

---
 src/types/from_sql.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/types/from_sql.rs b/src/types/from_sql.rs
index a5e580d..5796cfa 100644
--- a/src/types/from_sql.rs
+++ b/src/types/from_sql.rs
@@ -10,7 +10,7 @@ use std::{
 use crate::{
     errors::{Error, FromSqlError, Result},
     types::{
-        column::datetime64::to_datetime,
+        column::datetime64::to_datetime_opt,
         value::{decode_ipv4, decode_ipv6},
         Decimal, Enum16, Enum8, SqlType, ValueRef,
     },
@@ -210,7 +210,7 @@ from_sql_vec_impl! {
     &'a [u8]: SqlType::String => |r| r.as_bytes(),
     Vec<u8>: SqlType::String => |r| r.as_bytes().map(<[u8]>::to_vec),
     NaiveDate: SqlType::Date => |r| Ok(r.into()),
-    DateTime<Tz>: SqlType::DateTime(_) => |r| Ok(r.into()),
+    DateTime<Tz>: SqlType::DateTime(_) => DateTime::<Tz>::from_sql,
     Enum8: SqlType::Enum8(_) => |r| Ok(r.into()),
     Enum16: SqlType::Enum16(_) => |r| Ok(r.into())
 }
@@ -323,7 +323,9 @@ impl<'a> FromSql<'a> for DateTime<Tz> {
             }
             ValueRef::DateTime64(v, params) => {
                 let (precision, tz) = *params;
-                Ok(to_datetime(v, precision, tz))
+                to_datetime_opt(v, precision, tz)
+                    .single()
+                    .ok_or(Error::FromSql(FromSqlError::OutOfRange))
             }
             _ => {
                 let from = SqlType::from(value).to_string();
-- 
2.43.0


From e65a944416eeeff2582f4e111f42da285c809ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:10 +0000
Subject: [PATCH 49/63] fix: iterating over addresses and UUIDs checks the type
 of the column

---
 src/types/column/iter/mod.rs | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/types/column/iter/mod.rs b/src/types/column/iter/mod.rs
index ef372e7..01b0c5f 100644
--- a/src/types/column/iter/mod.rs
+++ b/src/types/column/iter/mod.rs
@@ -811,9 +811,16 @@ impl<'a> Iterable<'a, Simple> for Ipv4Addr {
 
     fn iter_with_props(
         column: &'a Column<Simple>,
-        _column_type: SqlType,
+        column_type: SqlType,
         props: u32,
     ) -> Result<Self::Iter> {
+        if !check_type(&column_type, &SqlType::Ipv4) {
+            return Err(Error::FromSql(FromSqlError::InvalidType {
+                src: column.sql_type().to_string(),
+                dst: SqlType::Ipv4.to_string(),
+            }));
+        }
+
         let inner = unsafe {
             let mut inner: *const u8 = ptr::null();
             column.get_internal(&[&mut inner], 0, props)?;
@@ -836,9 +843,16 @@ impl<'a> Iterable<'a, Simple> for Ipv6Addr {
 
     fn iter_with_props(
         column: &'a Column<Simple>,
-        _column_type: SqlType,
+        column_type: SqlType,
         props: u32,
     ) -> Result<Self::Iter> {
+        if !check_type(&column_type, &SqlType::Ipv6) {
+            return Err(Error::FromSql(FromSqlError::InvalidType {
+                src: column.sql_type().to_string(),
+                dst: SqlType::Ipv6.to_string(),
+            }));
+        }
+
         let inner = unsafe {
             let mut inner: *const u8 = ptr::null();
             column.get_internal(&[&mut inner], 0, props)?;
@@ -861,9 +875,16 @@ impl<'a> Iterable<'a, Simple> for uuid::Uuid {
 
     fn iter_with_props(
         column: &'a Column<Simple>,
-        _column_type: SqlType,
+        column_type: SqlType,
         props: u32,
     ) -> Result<Self::Iter> {
+        if !check_type(&column_type, &SqlType::Uuid) {
+            return Err(Error::FromSql(FromSqlError::InvalidType {
+                src: column.sql_type().to_string(),
+                dst: SqlType::Uuid.to_string(),
+            }));
+        }
+
         let inner = unsafe {
             let mut inner: *const u8 = ptr::null();
             column.get_internal(&[&mut inner], 0, props)?;
-- 
2.43.0


From 5617d8a0dc5c261f4612e2a119e0f1599959b530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:40 +0000
Subject: [PATCH 50/63] fix: iterating over a column of a locally built complex
 block neither panics nor reads other memory

---
 src/types/column/column_data.rs |  5 +++++
 src/types/column/concat.rs      | 15 ++-------------
 src/types/column/iter/mod.rs    | 21 +++++++--------------
 3 files changed, 14 insertions(+), 27 deletions(-)

diff --git a/src/types/column/column_data.rs b/src/types/column/column_data.rs
index 9ffb522..f5f9a17 100644
--- a/src/types/column/column_data.rs
+++ b/src/types/column/column_data.rs
@@ -48,6 +48,11 @@ pub trait ColumnData {
         None
     }
 
+    /// The parts of a column made of the columns of several blocks.
+    fn chunks(&self) -> Option<&[ArcColumnData]> {
+        None
+    }
+
     fn get_timezone(&self) -> Option<Tz>;
 
     fn get_low_cardinality_accessor(&self) -> Option<&dyn LowCardinalityAccessor> {
diff --git a/src/types/column/concat.rs b/src/types/column/concat.rs
index 2655283..21edf1e 100644
--- a/src/types/column/concat.rs
+++ b/src/types/column/concat.rs
@@ -2,7 +2,6 @@ use chrono_tz::Tz;
 
 use crate::{
     binary::Encoder,
-    errors::{Error, FromSqlError, Result},
     types::{SqlType, Value, ValueRef},
 };
 
@@ -81,18 +80,8 @@ impl ColumnData for ConcatColumnData {
         unimplemented!()
     }
 
-    unsafe fn get_internal(
-        &self,
-        pointers: &[*mut *const u8],
-        level: u8,
-        _props: u32,
-    ) -> Result<()> {
-        if level == 0xff {
-            *pointers[0] = &self.data as *const Vec<ArcColumnData> as *mut u8;
-            Ok(())
-        } else {
-            Err(Error::FromSql(FromSqlError::UnsupportedOperation))
-        }
+    fn chunks(&self) -> Option<&[ArcColumnData]> {
+        Some(&self.data)
     }
 
     fn get_timezone(&self) -> Option<Tz> {
diff --git a/src/types/column/iter/mod.rs b/src/types/column/iter/mod.rs
index 01b0c5f..ea0c70a 100644
--- a/src/types/column/iter/mod.rs
+++ b/src/types/column/iter/mod.rs
@@ -1371,7 +1371,7 @@ where
 {
     column_type: SqlType,
 
-    data: &'a Vec<ArcColumnData>,
+    data: &'a [ArcColumnData],
 
     current_index: usize,
     current: Option<<T as Iterable<'a, Simple>>::Iter>,
@@ -1436,20 +1436,13 @@ where
     type Iter = ComplexIterator<'a, T>;
 
     fn iter_with_props(
-        column: &Column<Complex>,
+        column: &'a Column<Complex>,
         column_type: SqlType,
-        props: u32,
+        _props: u32,
     ) -> Result<Self::Iter> {
-        let data: &Vec<ArcColumnData> = unsafe {
-            let mut data: *const Vec<ArcColumnData> = ptr::null();
-
-            column.get_internal(
-                &[&mut data as *mut *const Vec<ArcColumnData> as *mut *const u8],
-                0xff,
-                props,
-            )?;
-
-            &*data
+        let data: &[ArcColumnData] = match column.data.chunks() {
+            Some(chunks) => chunks,
+            None => slice::from_ref(&column.data),
         };
 
         // Reports a wrong type here rather than while iterating.
@@ -1460,7 +1453,7 @@ where
                 _marker: marker::PhantomData,
             };
 
-            unsafe { T::iter(mem::transmute(&column), column_type.clone()) }?;
+            unsafe { T::iter(mem::transmute(&column), column_type.clone()) }.map(drop)?;
         }
 
         Ok(ComplexIterator {
-- 
2.43.0


From 4f0783796e491b294891091ce0caf217d84b4cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:06 +0000
Subject: [PATCH 51/63] fix: pushing to a block that was cloned does not panic

---
 src/types/column/array.rs           |  4 ++--
 src/types/column/column_data.rs     |  8 ++++++++
 src/types/column/low_cardinality.rs | 18 ++++++++----------
 src/types/column/map.rs             |  6 +++---
 src/types/column/nullable.rs        |  4 ++--
 src/types/column/simple_agg_func.rs |  5 ++---
 6 files changed, 25 insertions(+), 20 deletions(-)

diff --git a/src/types/column/array.rs b/src/types/column/array.rs
index 3a0b38d..eb1fe3e 100644
--- a/src/types/column/array.rs
+++ b/src/types/column/array.rs
@@ -7,7 +7,7 @@ use crate::{
     errors::{DriverError, Error, Result},
     types::{
         column::{
-            column_data::{ArcColumnData, BoxColumnData},
+            column_data::{make_mut, ArcColumnData, BoxColumnData},
             list::List,
             ArcColumnWrapper, ColumnData,
         },
@@ -85,7 +85,7 @@ impl ColumnData for ArrayColumnData {
                 self.offsets.at(offsets_len - 1) as usize
             };
 
-            let inner_column = Arc::get_mut(&mut self.inner).unwrap();
+            let inner_column = make_mut(&mut self.inner);
             self.offsets.push((prev + vs.len()) as u64);
             for v in vs.iter() {
                 inner_column.push(v.clone());
diff --git a/src/types/column/column_data.rs b/src/types/column/column_data.rs
index f5f9a17..6befb39 100644
--- a/src/types/column/column_data.rs
+++ b/src/types/column/column_data.rs
@@ -11,6 +11,14 @@ pub(crate) type ArcColumnData = Arc<dyn ColumnData + Send + Sync>;
 
 pub(crate) type BoxColumnData = Box<dyn ColumnData + Send + Sync>;
 
+/// Gives access to the data of a column; data shared with another column are copied first.
+pub(crate) fn make_mut(data: &mut ArcColumnData) -> &mut (dyn ColumnData + Send + Sync) {
+    if Arc::get_mut(data).is_none() {
+        *data = Arc::from(data.clone_instance());
+    }
+    Arc::get_mut(data).expect("the data are not shared any more")
+}
+
 pub trait LowCardinalityAccessor {
     fn get_string(&self, _index: usize) -> &[u8] {
         unimplemented!()
diff --git a/src/types/column/low_cardinality.rs b/src/types/column/low_cardinality.rs
index e442a7d..0fc0405 100644
--- a/src/types/column/low_cardinality.rs
+++ b/src/types/column/low_cardinality.rs
@@ -7,7 +7,7 @@ use crate::{
     errors::{DriverError, Error, FromSqlError, Result},
     types::{
         column::{
-            column_data::{ArcColumnData, BoxColumnData, LowCardinalityAccessor},
+            column_data::{make_mut, ArcColumnData, BoxColumnData, LowCardinalityAccessor},
             factory::parse_nullable_type,
             nullable::NullableColumnData,
             ArcColumnWrapper, ColumnData, VectorColumnData,
@@ -242,10 +242,11 @@ fn read_inner<R: ReadEx>(
         ))));
     }
 
-    if flags & !(INDEX_TYPE_MASK
-        | NEED_GLOBAL_DICTIONARY_BIT
-        | HAS_ADDITIONAL_KEYS_BIT
-        | NEED_UPDATE_DICTIONARY_BIT)
+    if flags
+        & !(INDEX_TYPE_MASK
+            | NEED_GLOBAL_DICTIONARY_BIT
+            | HAS_ADDITIONAL_KEYS_BIT
+            | NEED_UPDATE_DICTIONARY_BIT)
         != 0
     {
         return Err(Error::Driver(DriverError::Deserialize(Cow::from(
@@ -350,8 +351,7 @@ impl ColumnData for LowCardinalityColumnData {
     fn push(&mut self, value: Value) {
         if self.inner.len() == 0 {
             if let SqlType::Nullable(key_type) = self.inner.sql_type() {
-                Arc::get_mut(&mut self.inner)
-                    .expect("Column shouldn't be shared")
+                make_mut(&mut self.inner)
                     .push(Value::Nullable(Either::Left(key_type.clone().into())));
             }
         }
@@ -370,9 +370,7 @@ impl ColumnData for LowCardinalityColumnData {
         match value_map.get_mut(&value) {
             None => {
                 let new_index = self.inner.len();
-                Arc::get_mut(&mut self.inner)
-                    .expect("Column shouldn't be shared")
-                    .push(value.clone());
+                make_mut(&mut self.inner).push(value.clone());
                 value_map.insert(value, new_index);
                 self.index.push(new_index);
             }
diff --git a/src/types/column/map.rs b/src/types/column/map.rs
index 60ccf6c..56018a9 100644
--- a/src/types/column/map.rs
+++ b/src/types/column/map.rs
@@ -4,7 +4,7 @@ use crate::{
     types::{
         column::{
             array::check_offsets,
-            column_data::{ArcColumnData, BoxColumnData},
+            column_data::{make_mut, ArcColumnData, BoxColumnData},
             list::List,
             ArcColumnWrapper, ColumnData, ColumnFrom, ColumnWrapper,
         },
@@ -77,8 +77,8 @@ impl ColumnData for MapColumnData {
                 self.offsets.at(offsets_len - 1) as usize
             };
 
-            let key_column = Arc::get_mut(&mut self.keys).unwrap();
-            let value_column = Arc::get_mut(&mut self.values).unwrap();
+            let key_column = make_mut(&mut self.keys);
+            let value_column = make_mut(&mut self.values);
 
             self.offsets.push((prev + vs.len()) as u64);
             for (k, v) in vs.iter() {
diff --git a/src/types/column/nullable.rs b/src/types/column/nullable.rs
index 53f3236..d74de5a 100644
--- a/src/types/column/nullable.rs
+++ b/src/types/column/nullable.rs
@@ -5,7 +5,7 @@ use crate::{
     errors::Result,
     types::{
         column::{
-            column_data::{ArcColumnData, BoxColumnData},
+            column_data::{make_mut, ArcColumnData, BoxColumnData},
             ArcColumnWrapper, ColumnData,
         },
         SqlType, Value, ValueRef,
@@ -55,7 +55,7 @@ impl ColumnData for NullableColumnData {
     }
 
     fn push(&mut self, value: Value) {
-        let inner_column: &mut dyn ColumnData = Arc::get_mut(&mut self.inner).unwrap();
+        let inner_column = make_mut(&mut self.inner);
 
         if let Value::Nullable(e) = value {
             match e {
diff --git a/src/types/column/simple_agg_func.rs b/src/types/column/simple_agg_func.rs
index dfe24c3..2e353ec 100644
--- a/src/types/column/simple_agg_func.rs
+++ b/src/types/column/simple_agg_func.rs
@@ -3,7 +3,7 @@ use crate::{
     errors::Result,
     types::{
         column::{
-            column_data::{ArcColumnData, BoxColumnData},
+            column_data::{make_mut, ArcColumnData, BoxColumnData},
             ArcColumnWrapper, ColumnData,
         },
         SimpleAggFunc, SqlType, Value, ValueRef,
@@ -47,8 +47,7 @@ impl ColumnData for SimpleAggregateFunctionColumnData {
     }
 
     fn push(&mut self, value: Value) {
-        let inner_column: &mut dyn ColumnData = Arc::get_mut(&mut self.inner).unwrap();
-        inner_column.push(value);
+        make_mut(&mut self.inner).push(value);
     }
 
     fn at(&self, index: usize) -> ValueRef {
-- 
2.43.0


From ea73681878d27dd558d8c63f4c2480301df545d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:07 +0000
Subject: [PATCH 52/63] fix: rows can be pushed to the block of a fetched
 result

---
 src/types/column/concat.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/types/column/concat.rs b/src/types/column/concat.rs
index 21edf1e..1378cd4 100644
--- a/src/types/column/concat.rs
+++ b/src/types/column/concat.rs
@@ -6,7 +6,7 @@ use crate::{
 };
 
 use super::{
-    column_data::{ArcColumnData, BoxColumnData, ColumnData},
+    column_data::{make_mut, ArcColumnData, BoxColumnData, ColumnData},
     datetime64::DEFAULT_TZ,
     BoxColumnWrapper,
 };
@@ -66,8 +66,11 @@ impl ColumnData for ConcatColumnData {
         *self.index.last().unwrap()
     }
 
-    fn push(&mut self, _value: Value) {
-        unimplemented!()
+    fn push(&mut self, value: Value) {
+        if let (Some(chunk), Some(len)) = (self.data.last_mut(), self.index.last_mut()) {
+            make_mut(chunk).push(value);
+            *len += 1;
+        }
     }
 
     fn at(&self, index: usize) -> ValueRef {
@@ -77,7 +80,10 @@ impl ColumnData for ConcatColumnData {
     }
 
     fn clone_instance(&self) -> BoxColumnData {
-        unimplemented!()
+        Box::new(Self {
+            data: self.data.clone(),
+            index: self.index.clone(),
+        })
     }
 
     fn chunks(&self) -> Option<&[ArcColumnData]> {
-- 
2.43.0


From 11f96df86e897b51c986b6358aa2b8c89e96e949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:07 +0000
Subject: [PATCH 53/63] fix: an index of a low cardinality column is as wide as
 the dictionary needs

---
 src/types/column/low_cardinality.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/types/column/low_cardinality.rs b/src/types/column/low_cardinality.rs
index 0fc0405..753fb42 100644
--- a/src/types/column/low_cardinality.rs
+++ b/src/types/column/low_cardinality.rs
@@ -116,7 +116,7 @@ impl LowCardinalityIndex {
         }
     }
 
-    fn max_len(&self) -> usize {
+    fn max_index(&self) -> usize {
         match self {
             LowCardinalityIndex::UInt8(_) => u8::MAX as usize,
             LowCardinalityIndex::UInt16(_) => u16::MAX as usize,
@@ -125,7 +125,7 @@ impl LowCardinalityIndex {
         }
     }
 
-    fn inc_max_len(&self) -> Self {
+    fn widen(&self) -> Self {
         match self {
             LowCardinalityIndex::UInt8(u) => {
                 let data = u.data.map(|v| v as u16);
@@ -146,8 +146,8 @@ impl LowCardinalityIndex {
     }
 
     fn push(&mut self, value: usize) {
-        if self.len() + 1 > self.max_len() {
-            *self = self.inc_max_len();
+        while value > self.max_index() {
+            *self = self.widen();
         }
         match self {
             LowCardinalityIndex::UInt8(u) => u.data.push(value as u8),
-- 
2.43.0


From 743eee4c63f581b14ba3df7b91f86186084f4f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:56 +0000
Subject: [PATCH 54/63] fix: pushing a decimal to a column of another scale
 keeps its value

---
 src/types/column/decimal.rs | 1 +
 src/types/column/factory.rs | 5 +++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/types/column/decimal.rs b/src/types/column/decimal.rs
index cab49c8..51aaa4e 100644
--- a/src/types/column/decimal.rs
+++ b/src/types/column/decimal.rs
@@ -152,6 +152,7 @@ impl ColumnData for DecimalColumnData {
 
     fn push(&mut self, value: Value) {
         if let Value::Decimal(decimal) = value {
+            let decimal = decimal.set_scale(self.scale);
             match self.nobits {
                 NoBits::N32 => {
                     let internal: i32 = decimal.internal();
diff --git a/src/types/column/factory.rs b/src/types/column/factory.rs
index c5d2834..c21bcdf 100644
--- a/src/types/column/factory.rs
+++ b/src/types/column/factory.rs
@@ -10,7 +10,7 @@ use combine::{
 
 use crate::{
     binary::{Encoder, ReadEx},
-    errors::Result,
+    errors::{Error, FromSqlError, Result},
     types::{
         column::{
             array::ArrayColumnData,
@@ -209,7 +209,8 @@ impl dyn ColumnData {
                 })
             }
             SqlType::Decimal(precision, scale) => {
-                let nobits = NoBits::from_precision(precision).unwrap();
+                let nobits = NoBits::from_precision(precision)
+                    .ok_or(Error::FromSql(FromSqlError::UnsupportedOperation))?;
 
                 let inner_type = match nobits {
                     NoBits::N32 => SqlType::Int32,
-- 
2.43.0


From 12df8a622de28562d82222d84b8ba70f28d2a2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:31 +0000
Subject: [PATCH 55/63] fix: pushing a row that does not fit reports an error
 and leaves the block as it was

---
 src/types/block/builder.rs | 132 ++++++++++++++++++++++++++-----------
 src/types/value.rs         |  52 ++++++++++++++-
 2 files changed, 145 insertions(+), 39 deletions(-)

diff --git a/src/types/block/builder.rs b/src/types/block/builder.rs
index 3ed3a2e..7761b63 100644
--- a/src/types/block/builder.rs
+++ b/src/types/block/builder.rs
@@ -8,13 +8,22 @@ use crate::{
     types::{
         block::ColumnIdx,
         column::{datetime64::DEFAULT_TZ, ArcColumnWrapper, ColumnData},
-        Column, ColumnType, Value,
+        Column, ColumnType, SqlType, Value,
     },
     Block,
 };
 
+type Cells = Vec<(Cow<'static, str>, Value)>;
+
 pub trait RowBuilder {
     fn apply<K: ColumnType>(self, block: &mut Block<K>) -> Result<()>;
+
+    #[doc(hidden)]
+    fn collect(self, _cells: &mut Cells)
+    where
+        Self: Sized,
+    {
+    }
 }
 
 pub struct RNil;
@@ -64,56 +73,103 @@ where
 {
     #[inline(always)]
     fn apply<K: ColumnType>(self, block: &mut Block<K>) -> Result<()> {
-        put_param(self.key, self.value, block)?;
-        self.tail.apply(block)
+        let mut cells = Cells::new();
+        self.collect(&mut cells);
+        put_row(cells, block)
+    }
+
+    fn collect(self, cells: &mut Cells) {
+        cells.push((self.key, self.value));
+        self.tail.collect(cells);
     }
 }
 
 impl RowBuilder for Vec<(String, Value)> {
     fn apply<K: ColumnType>(self, block: &mut Block<K>) -> Result<()> {
-        for (k, v) in self {
-            put_param(k.into(), v, block)?;
-        }
-        Ok(())
+        let cells = self.into_iter().map(|(key, value)| (key.into(), value));
+        put_row(cells.collect(), block)
     }
 }
 
-fn put_param<K: ColumnType>(
-    key: Cow<'static, str>,
-    value: Value,
-    block: &mut Block<K>,
-) -> Result<()> {
-    let col_index = match key.as_ref().get_index(&block.columns) {
-        Ok(col_index) => col_index,
-        Err(Error::FromSql(FromSqlError::OutOfRange)) => {
-            if block.row_count() <= 1 {
-                let sql_type = From::from(value.clone());
-
-                let timezone = extract_timezone(&value);
-
-                let column = Column {
-                    name: key.clone().into(),
-                    data: <dyn ColumnData>::from_type::<ArcColumnWrapper>(
-                        sql_type,
-                        timezone,
-                        block.capacity,
-                    )?,
-                    _marker: marker::PhantomData,
-                };
-
-                block.columns.push(column);
-                return put_param(key, value, block);
-            } else {
-                return Err(Error::FromSql(FromSqlError::OutOfRange));
-            }
+/// Adds a row, or reports an error and leaves the block as it was.
+fn put_row<K: ColumnType>(row: Cells, block: &mut Block<K>) -> Result<()> {
+    if row.is_empty() {
+        return Ok(());
+    }
+
+    let old_count = block.columns.len();
+    let mut new_columns: Vec<Column<K>> = Vec::new();
+    let mut cells: Vec<Option<Value>> = vec![None; old_count];
+
+    for (key, value) in row {
+        let index = match find_column(&key, &block.columns)? {
+            Some(index) => index,
+            None => match find_column(&key, &new_columns)? {
+                Some(index) => old_count + index,
+                None if block.row_count() == 0 => {
+                    new_columns.push(make_column(key, &value, block.capacity)?);
+                    cells.push(None);
+                    old_count + new_columns.len() - 1
+                }
+                None => return Err(Error::FromSql(FromSqlError::OutOfRange)),
+            },
+        };
+
+        let column = match index.checked_sub(old_count) {
+            None => &block.columns[index],
+            Some(new_index) => &new_columns[new_index],
+        };
+
+        let sql_type = column.sql_type();
+        if !value.fits(&sql_type) {
+            return Err(Error::FromSql(FromSqlError::InvalidType {
+                src: SqlType::from(value).to_string(),
+                dst: sql_type.to_string(),
+            }));
         }
-        Err(err) => return Err(err),
-    };
 
-    block.columns[col_index].push(value);
+        if cells[index].replace(value).is_some() {
+            return Err(Error::Other(
+                "The row has several values for a column.".into(),
+            ));
+        }
+    }
+
+    if cells.iter().any(Option::is_none) {
+        return Err(Error::Other("The row has no value for a column.".into()));
+    }
+
+    block.columns.append(&mut new_columns);
+    for (column, value) in block.columns.iter_mut().zip(cells.into_iter().flatten()) {
+        column.push(value);
+    }
     Ok(())
 }
 
+fn find_column<K: ColumnType>(key: &str, columns: &[Column<K>]) -> Result<Option<usize>> {
+    match key.get_index(columns) {
+        Ok(index) => Ok(Some(index)),
+        Err(Error::FromSql(FromSqlError::OutOfRange)) => Ok(None),
+        Err(err) => Err(err),
+    }
+}
+
+fn make_column<K: ColumnType>(
+    key: Cow<'static, str>,
+    value: &Value,
+    capacity: usize,
+) -> Result<Column<K>> {
+    Ok(Column {
+        name: key.into(),
+        data: <dyn ColumnData>::from_type::<ArcColumnWrapper>(
+            SqlType::from(value.clone()),
+            extract_timezone(value),
+            capacity,
+        )?,
+        _marker: marker::PhantomData,
+    })
+}
+
 fn extract_timezone(value: &Value) -> Tz {
     match value {
         Value::Date(_) => *DEFAULT_TZ,
diff --git a/src/types/value.rs b/src/types/value.rs
index dc01953..5256478 100644
--- a/src/types/value.rs
+++ b/src/types/value.rs
@@ -14,7 +14,7 @@ use either::Either;
 use uuid::Uuid;
 
 use crate::types::{
-    column::datetime64::{to_datetime, DEFAULT_TZ},
+    column::datetime64::{to_datetime, to_datetime_opt, DEFAULT_TZ},
     decimal::{Decimal, NoBits},
     DateConverter, DateTimeType, Enum16, Enum8, HasSqlType, SqlType,
 };
@@ -184,6 +184,56 @@ impl Value {
     }
 }
 
+impl Value {
+    /// Whether a column of the given type can store this value.
+    pub(crate) fn fits(&self, column_type: &SqlType) -> bool {
+        match (column_type, self) {
+            (SqlType::Nullable(inner), Value::Nullable(Either::Left(sql_type))) => {
+                Value::default((*sql_type).clone()).fits(inner)
+            }
+            (SqlType::Nullable(inner), Value::Nullable(Either::Right(value))) => value.fits(inner),
+            (SqlType::Nullable(inner), value)
+            | (SqlType::LowCardinality(inner), value)
+            | (SqlType::SimpleAggregateFunction(_, inner), value) => value.fits(inner),
+            (SqlType::Array(inner), Value::Array(_, values)) => {
+                values.iter().all(|value| value.fits(inner))
+            }
+            (SqlType::Map(key_type, value_type), Value::Map(_, _, items)) => items
+                .iter()
+                .all(|(key, value)| key.fits(key_type) && value.fits(value_type)),
+            (SqlType::FixedString(len), Value::String(bytes)) => bytes.len() <= *len,
+            (SqlType::Decimal(precision, scale), Value::Decimal(decimal)) => {
+                NoBits::from_precision(*precision)
+                    .map_or(false, |nobits| decimal.fits(nobits, *scale))
+            }
+            (SqlType::DateTime(DateTimeType::DateTime64(precision, _)), value) => {
+                value.timestamp().map_or(false, |seconds| {
+                    *precision <= 9 && 10_i64.pow(*precision).checked_mul(seconds + 1).is_some()
+                })
+            }
+            (SqlType::DateTime(_), value) => value
+                .timestamp()
+                .map_or(false, |seconds| u32::try_from(seconds).is_ok()),
+            (SqlType::Enum8(_), Value::Enum8(_, _)) | (SqlType::Enum16(_), Value::Enum16(_, _)) => {
+                true
+            }
+            (column_type, value) => *column_type == SqlType::from(value.clone()),
+        }
+    }
+
+    /// Whole seconds since the epoch.
+    fn timestamp(&self) -> Option<i64> {
+        match self {
+            Value::DateTime(seconds, _) => Some(i64::from(*seconds)),
+            Value::ChronoDateTime(time) => Some(time.timestamp()),
+            Value::DateTime64(stamp, (precision, tz)) => to_datetime_opt(*stamp, *precision, *tz)
+                .single()
+                .map(|time| time.timestamp()),
+            _ => None,
+        }
+    }
+}
+
 impl fmt::Display for Value {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
         match self {
-- 
2.43.0


From 8ed3e05baa7cd1c32bde1a9abfc706f8eaadfcaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:24 +0000
Subject: [PATCH 56/63] fix: labels of enums are escaped in the names of their
 types

---
 src/types/column/factory.rs | 11 ++++++++++-
 src/types/mod.rs            | 23 +++++++++++++++++++++--
 2 files changed, 31 insertions(+), 3 deletions(-)

diff --git a/src/types/column/factory.rs b/src/types/column/factory.rs
index c21bcdf..0c2a32b 100644
--- a/src/types/column/factory.rs
+++ b/src/types/column/factory.rs
@@ -470,7 +470,16 @@ fn parse_enum(size: EnumSize, input: &str) -> Option<Vec<(String, i16)>> {
                 .map_err(|_| StringStreamError::UnexpectedParse)
         });
 
-    let word_syms = token('\\').with(any()).or(none_of("'".chars()));
+    let escaped = any().map(|c| match c {
+        '0' => '\0',
+        'b' => '\x08',
+        'f' => '\x0c',
+        'n' => '\n',
+        'r' => '\r',
+        't' => '\t',
+        c => c,
+    });
+    let word_syms = token('\\').with(escaped).or(none_of("'".chars()));
     let word = token('\'').with(many(word_syms)).skip(token('\''));
 
     let pair = spaces()
diff --git a/src/types/mod.rs b/src/types/mod.rs
index dcab805..bd38319 100644
--- a/src/types/mod.rs
+++ b/src/types/mod.rs
@@ -429,14 +429,14 @@ impl SqlType {
             SqlType::Enum8(values) => {
                 let a: Vec<String> = values
                     .iter()
-                    .map(|(name, value)| format!("'{name}' = {value}"))
+                    .map(|(name, value)| format!("'{}' = {value}", escape(name)))
                     .collect();
                 format!("Enum8({})", a.join(",")).into()
             }
             SqlType::Enum16(values) => {
                 let a: Vec<String> = values
                     .iter()
-                    .map(|(name, value)| format!("'{name}' = {value}"))
+                    .map(|(name, value)| format!("'{}' = {value}", escape(name)))
                     .collect();
                 format!("Enum16({})", a.join(",")).into()
             }
@@ -455,6 +455,25 @@ impl SqlType {
     }
 }
 
+/// Escapes a label of an enum the way ClickHouse does.
+fn escape(label: &str) -> String {
+    let mut result = String::with_capacity(label.len());
+    for c in label.chars() {
+        match c {
+            '\0' => result.push_str("\\0"),
+            '\x08' => result.push_str("\\b"),
+            '\x0c' => result.push_str("\\f"),
+            '\n' => result.push_str("\\n"),
+            '\r' => result.push_str("\\r"),
+            '\t' => result.push_str("\\t"),
+            '\'' => result.push_str("\\'"),
+            '\\' => result.push_str("\\\\"),
+            c => result.push(c),
+        }
+    }
+    result
+}
+
 impl fmt::Display for SqlType {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
         write!(f, "{}", Self::to_string(self))
-- 
2.43.0


From 572702ead52d68ab973bf3580df13201dd794885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:24 +0000
Subject: [PATCH 57/63] fix: a DateTime64 of more than nine digits is not a
 supported type

---
 src/types/column/factory.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/column/factory.rs b/src/types/column/factory.rs
index 0c2a32b..e05728e 100644
--- a/src/types/column/factory.rs
+++ b/src/types/column/factory.rs
@@ -563,7 +563,7 @@ fn parse_date_time64(source: &str) -> Option<(u32, Option<String>)> {
         .skip(token(')'));
 
     match parser.parse(source) {
-        Ok((pair, remain)) if remain.is_empty() => Some(pair),
+        Ok((pair, remain)) if remain.is_empty() && pair.0 <= 9 => Some(pair),
         _ => None,
     }
 }
-- 
2.43.0


From 75c96318573219f0e0528f43a84933dafb539ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:39 +0000
Subject: [PATCH 58/63] fix: equal decimals have equal hashes

---
 src/types/decimal.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/types/decimal.rs b/src/types/decimal.rs
index 5152f0c..1866b0c 100644
--- a/src/types/decimal.rs
+++ b/src/types/decimal.rs
@@ -62,10 +62,14 @@ impl Default for Decimal {
 
 impl Hash for Decimal {
     fn hash<H: Hasher>(&self, state: &mut H) {
-        self.underlying.hash(state);
-        self.nobits.hash(state);
-        self.precision.hash(state);
-        self.scale.hash(state);
+        // Equal values of different scales have the same hash.
+        let (mut underlying, mut scale) = (self.underlying, self.scale);
+        while scale > 0 && underlying % 10 == 0 {
+            underlying /= 10;
+            scale -= 1;
+        }
+        underlying.hash(state);
+        scale.hash(state);
     }
 }
 
-- 
2.43.0


From 3b95d4fe52cb31ba318f0fa50f4b4eede41664ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:18 +0000
Subject: [PATCH 59/63] fix: a decimal is not made of a float that is not a
 number

---
 src/types/decimal.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/types/decimal.rs b/src/types/decimal.rs
index 1866b0c..b202b2a 100644
--- a/src/types/decimal.rs
+++ b/src/types/decimal.rs
@@ -79,6 +79,10 @@ macro_rules! base_for {
             impl Base for $t {
                 fn scale(self, scale: i64) -> i64 {
                     let scaled = <$wide>::from(self) * (scale as $wide);
+                    #[allow(clippy::eq_op)]
+                    if scaled != scaled {
+                        panic!("{self} is not a number");
+                    }
                     scaled.clamp(i64::MIN as $wide, i64::MAX as $wide) as i64
                 }
             }
-- 
2.43.0


From a48ad930830246ae0bbf429c3931c4f4aba75584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:08 +0000
Subject: [PATCH 60/63] fix: a local column of times takes any time again

---
 src/types/value.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/types/value.rs b/src/types/value.rs
index 5256478..bb07d38 100644
--- a/src/types/value.rs
+++ b/src/types/value.rs
@@ -211,6 +211,7 @@ impl Value {
                     *precision <= 9 && 10_i64.pow(*precision).checked_mul(seconds + 1).is_some()
                 })
             }
+            (SqlType::DateTime(DateTimeType::Chrono), value) => value.timestamp().is_some(),
             (SqlType::DateTime(_), value) => value
                 .timestamp()
                 .map_or(false, |seconds| u32::try_from(seconds).is_ok()),
-- 
2.43.0


From b800b7e40df151a5d3bd78b9efe675be9d26ea03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:12 +0000
Subject: [PATCH 61/63] fix: a time before 1970 or after 2106 in a local column
 is read as it is

---
 src/types/column/chrono_datetime.rs | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/types/column/chrono_datetime.rs b/src/types/column/chrono_datetime.rs
index cc9c6e3..0dc3bc5 100644
--- a/src/types/column/chrono_datetime.rs
+++ b/src/types/column/chrono_datetime.rs
@@ -18,13 +18,17 @@ use crate::{
 
 pub struct ChronoDateTimeColumnData {
     data: Vec<DateTime<Tz>>,
-    tz: Tz,
+    // Precision and time zone
+    params: (u32, Tz),
 }
 
 impl ChronoDateTimeColumnData {
     pub(crate) fn with_capacity(capacity: usize, tz: Tz) -> ChronoDateTimeColumnData {
         let data = Vec::with_capacity(capacity);
-        ChronoDateTimeColumnData { data, tz }
+        ChronoDateTimeColumnData {
+            data,
+            params: (0, tz),
+        }
     }
 }
 
@@ -46,7 +50,10 @@ impl ColumnFrom for Vec<DateTime<Tz>> {
         } else {
             data[0].timezone()
         };
-        W::wrap(ChronoDateTimeColumnData { data, tz })
+        W::wrap(ChronoDateTimeColumnData {
+            data,
+            params: (0, tz),
+        })
     }
 }
 
@@ -104,13 +111,17 @@ impl ColumnData for ChronoDateTimeColumnData {
 
     fn at(&self, index: usize) -> ValueRef {
         let v = &self.data[index];
-        ValueRef::DateTime(v.timestamp() as u32, v.timezone())
+        let seconds = v.timestamp();
+        match u32::try_from(seconds) {
+            Ok(seconds) => ValueRef::DateTime(seconds, v.timezone()),
+            Err(_) => ValueRef::DateTime64(seconds, &self.params),
+        }
     }
 
     fn clone_instance(&self) -> BoxColumnData {
         Box::new(Self {
             data: self.data.clone(),
-            tz: self.tz,
+            params: self.params,
         })
     }
 
@@ -122,7 +133,7 @@ impl ColumnData for ChronoDateTimeColumnData {
     ) -> Result<()> {
         assert_eq!(level, 0);
         *pointers[0] = self.data.as_ptr() as *const u8;
-        *pointers[1] = &self.tz as *const Tz as *const u8;
+        *pointers[1] = &self.params.1 as *const Tz as *const u8;
         *(pointers[2] as *mut usize) = self.len();
         Ok(())
     }
@@ -138,7 +149,7 @@ impl ColumnData for ChronoDateTimeColumnData {
     }
 
     fn get_timezone(&self) -> Option<Tz> {
-        Some(self.tz)
+        Some(self.params.1)
     }
 }
 
-- 
2.43.0


From 624384e8321ad4749c4f2aea9d0c49df82fbf81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:56 +0000
Subject: [PATCH 62/63] fix: inserting a time which the column of the server
 cannot store is an error

---
 src/types/column/chrono_datetime.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/types/column/chrono_datetime.rs b/src/types/column/chrono_datetime.rs
index 0dc3bc5..14a7ad7 100644
--- a/src/types/column/chrono_datetime.rs
+++ b/src/types/column/chrono_datetime.rs
@@ -139,7 +139,8 @@ impl ColumnData for ChronoDateTimeColumnData {
     }
 
     fn cast_to(&self, this: &ArcColumnData, target: &SqlType) -> Option<ArcColumnData> {
-        if target.is_datetime() {
+        let fits = |time: &DateTime<Tz>| Value::ChronoDateTime(*time).fits(target);
+        if target.is_datetime() && self.data.iter().all(fits) {
             let clone = this.clone();
             let adapter = ChronoDateTimeAdapter::new(clone, target.clone());
             Some(Arc::new(adapter))
-- 
2.43.0


From 98675b233a5547264df839d70d372bde30ec4a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:32 +0000
Subject: [PATCH 63/63] fix: a time before 1970 or after 2106 is not stored as
 another one

---
 src/types/column/mod.rs | 9 ++++++++-
 src/types/value.rs      | 5 ++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/types/column/mod.rs b/src/types/column/mod.rs
index 7aa72b9..2f1d1c0 100644
--- a/src/types/column/mod.rs
+++ b/src/types/column/mod.rs
@@ -261,7 +261,14 @@ impl<K: ColumnType> Column<K> {
                 let tz = self.data.get_timezone().unwrap_or(Tz::Zulu);
                 let mut low_card_data = LowCardinalityColumnData::empty(inner, tz, self.len())?;
                 for i in 0..self.len() {
-                    low_card_data.push(self.at(i).into());
+                    let value: Value = self.at(i).into();
+                    if src_type.is_datetime() && !value.fits(inner) {
+                        return Err(Error::FromSql(FromSqlError::InvalidType {
+                            src: src_type.to_string(),
+                            dst: dst_type.to_string(),
+                        }));
+                    }
+                    low_card_data.push(value);
                 }
 
                 if inner.is_datetime() {
diff --git a/src/types/value.rs b/src/types/value.rs
index bb07d38..d8cc651 100644
--- a/src/types/value.rs
+++ b/src/types/value.rs
@@ -432,7 +432,10 @@ impl From<AppDateTime> for Value {
 
 impl From<DateTime<Utc>> for Value {
     fn from(v: DateTime<Utc>) -> Value {
-        Value::DateTime(v.timestamp() as u32, Tz::UTC)
+        match u32::try_from(v.timestamp()) {
+            Ok(seconds) => Value::DateTime(seconds, Tz::UTC),
+            Err(_) => Value::ChronoDateTime(v.with_timezone(&Tz::UTC)),
+        }
     }
 }
 
-- 
2.43.0

