From 3e7aea78500ab8b538171ec894fd0902a0955504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:04 +0000
Subject: [PATCH 1/3] fix: anchor the regex of the `*` route

The pattern for the asterisk path was unanchored, so a `*` route also matched
every path that merely contains a `*` (for example `/a*b`), which answered such
requests with the wrong route, or with 405 instead of 404, and tripped the
overlapping-regexes assertion when another route matched the path as well.
---
 derive/src/from_request/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/derive/src/from_request/parse.rs b/derive/src/from_request/parse.rs
index e882822..fa0f145 100644
--- a/derive/src/from_request/parse.rs
+++ b/derive/src/from_request/parse.rs
@@ -426,7 +426,7 @@ impl RoutePath {
         if path == "*" {
             return Self {
                 raw: path,
-                regex: Regex::new("\\*").unwrap(),
+                regex: Regex::new("^\\*$").unwrap(),
                 segments: Vec::new(),
                 placeholders: Vec::new(),
                 placeholders_sorted: Vec::new(),
-- 
2.43.0


From 0c75fd9738bbabfd2a6438b080658b595957677d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:04 +0000
Subject: [PATCH 2/3] fix: do not panic on a `*` route after other routes

`find_overlap` handled `self` being the asterisk path, but not `other`, so
declaring a `*` route after any other route (or a `GET *` route next to an
explicit HEAD route) aborted the derive with an internal assertion.
---
 derive/src/from_request/parse.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/derive/src/from_request/parse.rs b/derive/src/from_request/parse.rs
index fa0f145..07ec635 100644
--- a/derive/src/from_request/parse.rs
+++ b/derive/src/from_request/parse.rs
@@ -507,6 +507,11 @@ impl RoutePath {
             }
         }
 
+        if other.segments.is_empty() {
+            // only other is "*"
+            return None;
+        }
+
         let mut overlap = String::new();
         let mut saw_rest = false;
         for (a, b) in self.segments_fused().zip(other.segments_fused()) {
-- 
2.43.0


From dadb19a5e5a2beed07c43d840fcc68e5f2d1a78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:04 +0000
Subject: [PATCH 3/3] fix: make `CatchUnwind` report the readiness of the
 wrapped service

The adapter used the default `poll_ready`, so it claimed to be ready when the
wrapped service was not, pushed requests into it, and swallowed its readiness
errors.
---
 src/service.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/service.rs b/src/service.rs
index 585e495..be1ac78 100644
--- a/src/service.rs
+++ b/src/service.rs
@@ -15,7 +15,7 @@
 //! [`FromRequest`]: ../trait.FromRequest.html
 
 use crate::{BoxedError, DefaultFuture, Error, FromRequest, NoContext};
-use futures::{future::FutureResult, Future, IntoFuture};
+use futures::{future::FutureResult, Future, IntoFuture, Poll};
 use hyper::{
     service::{MakeService, Service},
     Body, Method, Request, Response,
@@ -597,6 +597,10 @@ where
     type Error = BoxedError;
     type Future = DefaultFuture<Response<Body>, BoxedError>;
 
+    fn poll_ready(&mut self) -> Poll<(), Self::Error> {
+        self.inner.poll_ready()
+    }
+
     fn call(&mut self, req: Request<Self::ReqBody>) -> Self::Future {
         // We need to make sure that we don't just catch panics that happen while *polling* the
         // inner service's `Future`, but also those that happen when the inner `Future`s are
-- 
2.43.0

