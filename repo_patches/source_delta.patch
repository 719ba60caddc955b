From c781e9b7692e9edc99480818997691f889bc6bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:48 +0000
Subject: [PATCH 01/84] fix: embedftp: answer a failed LIST, NLST or RETR with
 a single final reply

The error branches sent their 4xx/5xx reply and then fell through to
"226 Transfer done" (or left the data connection open), so every later
reply was off by one for the client.
---
 embedftp/src/client.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/embedftp/src/client.rs b/embedftp/src/client.rs
index 7144235..dcdd89a 100644
--- a/embedftp/src/client.rs
+++ b/embedftp/src/client.rs
@@ -371,6 +371,7 @@ where
               }
             }
             Err(_) => {
+              self.close_data_connection();
               self
                 .send(Answer::new(ResultCode::InvalidParameterOrArgument, "No such file or directory"))
                 .await?;
@@ -383,6 +384,7 @@ where
         self.send_data(out).await?;
       } else {
         warn!("No such file or directory");
+        self.close_data_connection();
         self
           .send(Answer::new(ResultCode::InvalidParameterOrArgument, "No such file or directory"))
           .await?;
@@ -422,6 +424,7 @@ where
         let matches = match pattern.to_str().map(|s| glob(s).map_err(|_| Error::from("Invalid glob pattern"))) {
           Some(Ok(matches)) => matches,
           _ => {
+            self.close_data_connection();
             self
               .send(Answer::new(ResultCode::InvalidParameterOrArgument, "Invalid pattern specified"))
               .await?;
@@ -455,6 +458,7 @@ where
 
         self.send_data(out).await?;
       } else {
+        self.close_data_connection();
         self.send(Answer::new(ResultCode::FileNotFound, "No such file or directory")).await?;
       }
     } else {
@@ -580,6 +584,7 @@ where
             Ok(file) => file,
             Err(e) => {
               error!("Failed to open file {:?}, {}", path, e);
+              self.close_data_connection();
               self
                 .send(Answer::new(
                   ResultCode::LocalErrorInProcessing,
@@ -596,6 +601,7 @@ where
           }
         } else {
           warn!("No path, not exist");
+          self.close_data_connection();
           self
             .send(Answer::new(
               ResultCode::LocalErrorInProcessing,
@@ -605,6 +611,7 @@ where
         }
       } else {
         warn!("No path");
+        self.close_data_connection();
         self
           .send(Answer::new(
             ResultCode::LocalErrorInProcessing,
-- 
2.43.0


From e7b479982b69c5c4384b40fdb956fda1fdd1908b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:48 +0000
Subject: [PATCH 02/84] fix: embedftp: do not answer twice when the active data
 connection fails

A failed connect sent 425 and the command then continued with the stale
state, adding a second final reply (426).
---
 embedftp/src/client.rs | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/embedftp/src/client.rs b/embedftp/src/client.rs
index dcdd89a..cf9811f 100644
--- a/embedftp/src/client.rs
+++ b/embedftp/src/client.rs
@@ -226,7 +226,11 @@ where
     Ok(())
   }
 
-  async fn initiate_data_connection(&mut self) -> Result<()> {
+  /// Open the data connection when in active mode.
+  ///
+  /// Returns `false` if the connection failed, in which case the client
+  /// has already been answered.
+  async fn initiate_data_connection(&mut self) -> Result<bool> {
     // only open when we are in active mode
     if let Some(port) = self.active_data_port {
       let mut addr = self.remote_addr;
@@ -236,14 +240,14 @@ where
         Err(e) => {
           error!("Connection failed to {}, {}", addr, e);
           self.send(Answer::new(ResultCode::CantOpenDataConnection, "Unable to connect")).await?;
-          return Ok(());
+          return Ok(false);
         }
       };
       let (r, w) = stream.into_split();
       self.data_writer = Some(w);
       self.data_reader = Some(r);
     }
-    Ok(())
+    Ok(true)
   }
 
   fn close_data_connection(&mut self) {
@@ -352,7 +356,9 @@ where
   }
 
   async fn list(&mut self, path: Option<PathBuf>) -> Result<()> {
-    self.initiate_data_connection().await?;
+    if !self.initiate_data_connection().await? {
+      return Ok(());
+    }
     if self.data_writer.is_some() {
       let path = self.cwd.join(path.unwrap_or_default());
       let directory = PathBuf::from(&path);
@@ -401,7 +407,9 @@ where
   }
 
   async fn nlst(&mut self, path: Option<PathBuf>) -> Result<()> {
-    self.initiate_data_connection().await?;
+    if !self.initiate_data_connection().await? {
+      return Ok(());
+    }
     if self.data_writer.is_some() {
       let cwd = self.cwd.clone();
       let res = self.complete_path(&cwd).await;
@@ -569,7 +577,9 @@ where
   }
 
   async fn retr(&mut self, path: PathBuf) -> Result<()> {
-    self.initiate_data_connection().await?;
+    if !self.initiate_data_connection().await? {
+      return Ok(());
+    }
     // TODO: check if multiple data connection can be opened at the same time.
     if self.data_writer.is_some() {
       let path = self.cwd.join(path);
@@ -631,7 +641,9 @@ where
   }
 
   async fn stor(&mut self, path: PathBuf) -> Result<()> {
-    self.initiate_data_connection().await?;
+    if !self.initiate_data_connection().await? {
+      return Ok(());
+    }
     if self.data_reader.is_some() {
       if invalid_path(&path) {
         return Err(Error::Io(io::ErrorKind::PermissionDenied.into()));
-- 
2.43.0


From 7af5d1aa4c5527e4c8c5e9fc37cff63efae2fb14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:48 +0000
Subject: [PATCH 03/84] fix: embedftp: answer EPSV ALL and drop both halves of
 the data connection

EPSV ALL got no reply at all, and kept the read half, so a following STOR
used a stale connection.
---
 embedftp/src/client.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/embedftp/src/client.rs b/embedftp/src/client.rs
index cf9811f..14fcd25 100644
--- a/embedftp/src/client.rs
+++ b/embedftp/src/client.rs
@@ -532,8 +532,8 @@ where
 
     if let Some(proto) = proto {
       if proto.to_uppercase().eq("ALL") {
-        self.data_writer = None;
-        return Ok(());
+        self.close_data_connection();
+        return self.send(Answer::new(ResultCode::Ok, "EPSV ALL ok")).await;
       }
     }
 
-- 
2.43.0


From 6e33738b913b7d04b0517ec7ff6aa2091c97f104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:49 +0000
Subject: [PATCH 04/84] fix: embedftp: keep STOR inside the server root

The upload path was only checked for ".." components. A symlink inside the
root (to a directory or to a file) let a client write outside of it, which
all other commands already prevent.
---
 embedftp/src/client.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/embedftp/src/client.rs b/embedftp/src/client.rs
index 14fcd25..60b8bfb 100644
--- a/embedftp/src/client.rs
+++ b/embedftp/src/client.rs
@@ -673,7 +673,18 @@ where
 
   /// Put file directly or delegate to a filter
   async fn put_file(&mut self, path: PathBuf, content: Arc<Vec<u8>>) -> Result<()> {
-    let path = PathBuf::from(&self.server_root).join(path.iter().skip(1).collect::<PathBuf>());
+    // Resolve symlinks in the parent and in the target, so that data is never written outside of the server root.
+    let parent = self.complete_path(path.parent().unwrap_or(Path::new("/"))).await?;
+    let mut path = match path.file_name() {
+      Some(name) => parent.join(name),
+      None => return Err(Error::Io(io::ErrorKind::PermissionDenied.into())),
+    };
+    if tokio::fs::symlink_metadata(&path).await.map(|md| md.file_type().is_symlink()).unwrap_or(false) {
+      path = canonicalize(&path).await?;
+      if !path.starts_with(&self.server_root) {
+        return Err(Error::Io(io::ErrorKind::PermissionDenied.into()));
+      }
+    }
     let handled = self.env.stor_file(&path, content.clone()).await?;
     if !handled {
       tokio::fs::write(&path, content.as_ref()).await?;
-- 
2.43.0


From 637ba2c601f082355cdbae587a1bb64f8ca37837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:09 +0000
Subject: [PATCH 05/84] fix: embedftp: refuse to remove the server root itself

"RMD /" (or "RMD .." in a top-level directory) deleted the directory the
server was started on, an entry of a directory outside of the root.
---
 embedftp/src/client.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/embedftp/src/client.rs b/embedftp/src/client.rs
index 60b8bfb..62b525c 100644
--- a/embedftp/src/client.rs
+++ b/embedftp/src/client.rs
@@ -300,7 +300,8 @@ where
     let path = self.cwd.join(&directory);
     let res = self.complete_path(&path).await;
     if let Ok(dir) = res {
-      if remove_dir_all(dir).await.is_ok() {
+      // The root itself is not part of the client's view
+      if dir != self.server_root && remove_dir_all(dir).await.is_ok() {
         self
           .send(Answer::new(ResultCode::RequestedFileActionOkay, "Folder successfully removed"))
           .await?;
-- 
2.43.0


From 5fbb8f0887f13f59df9834a2a7816717499b9a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:09 +0000
Subject: [PATCH 06/84] fix: embedftp: CWD only accepts directories

CWD to a regular file was answered with 250 and left the session in a
working directory in which nothing can be listed or created.
---
 embedftp/src/client.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/embedftp/src/client.rs b/embedftp/src/client.rs
index 62b525c..06d601a 100644
--- a/embedftp/src/client.rs
+++ b/embedftp/src/client.rs
@@ -337,7 +337,11 @@ where
   async fn cwd(&mut self, directory: PathBuf) -> Result<()> {
     let path = self.cwd.join(&directory);
     let res = self.complete_path(&path).await;
-    if let Ok(dir) = res {
+    let is_dir = match &res {
+      Ok(dir) => metadata(dir).await.map(|m| m.is_dir()).unwrap_or(false),
+      Err(_) => false,
+    };
+    if let (Ok(dir), true) = (res, is_dir) {
       let res = self.strip_prefix(dir);
       if let Ok(prefix) = res {
         self.cwd = prefix.to_path_buf();
-- 
2.43.0


From 9b7391ab94183271b2d6df94496f1cedd95ad05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:09 +0000
Subject: [PATCH 07/84] fix: embedftp: stop executing commands after QUIT

Commands pipelined behind QUIT were still executed (MKD, DELE, RMD, ...)
although the session was closed and they could not be answered.
---
 embedftp/src/client.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/embedftp/src/client.rs b/embedftp/src/client.rs
index 06d601a..86fba10 100644
--- a/embedftp/src/client.rs
+++ b/embedftp/src/client.rs
@@ -734,7 +734,11 @@ where
 
   let mut client = Client::new(handle, writer, server_root, config, env, local_addr, remote_addr);
   while let Some(cmd) = reader.try_next().await? {
+    let quit = cmd == Command::Quit;
     client.handle_cmd(cmd).await?;
+    if quit {
+      break;
+    }
   }
 
   debug!("Client {} closed connection", remote_addr);
-- 
2.43.0


From a2bee76c745b8148c72db844766b8778fd066963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:09 +0000
Subject: [PATCH 08/84] fix: embedftp: enabling anonymous access must not void
 user passwords

With anonymous login enabled, PASS accepted any password for every named
user, not only for the anonymous one.
---
 embedftp/src/client.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/embedftp/src/client.rs b/embedftp/src/client.rs
index 86fba10..6af92e0 100644
--- a/embedftp/src/client.rs
+++ b/embedftp/src/client.rs
@@ -134,7 +134,7 @@ where
     } else if self.name.is_some() && self.waiting_password {
       if let Command::Pass(content) = cmd {
         let mut ok = false;
-        if self.config.anonymous {
+        if self.config.anonymous && self.name.as_deref() == Some("anonymous") {
           ok = true;
         } else {
           for user in &self.config.users {
-- 
2.43.0


From bf0c7b98899ddefa6afeef661da8d571cf05e8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:09 +0000
Subject: [PATCH 09/84] fix: embedftp: resolve the server root once at startup

With a relative root ("dnglab ftpserver .") or one reached through a
symlink, every canonicalized client path failed the prefix check and all
of CWD, LIST, NLST, RETR, MKD, RMD and DELE were refused.
---
 embedftp/src/server.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/embedftp/src/server.rs b/embedftp/src/server.rs
index dea0999..ba19a6e 100644
--- a/embedftp/src/server.rs
+++ b/embedftp/src/server.rs
@@ -22,6 +22,8 @@ pub async fn serve<T>(handle: Handle, server_root: PathBuf, config: Config, env:
 where
   T: FtpCallback + Clone + Send + Sync + 'static,
 {
+  // Paths sent by clients are resolved and compared against the root, so it must be absolute and free of symlinks.
+  let server_root = tokio::fs::canonicalize(server_root).await?;
   let port = config.server_port;
   let addr = SocketAddr::new(config.server_addr, port);
   let listener = TcpListener::bind(&addr).await?;
-- 
2.43.0


From 93d6faf1e8e528715cdfaff15ea90f9ff30eb948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:24 +0000
Subject: [PATCH 10/84] fix: embedftp: NLST in a directory whose name contains
 glob characters

The server-side directory was made part of the glob pattern, so in a
directory named e.g. "a [b]" NLST never listed anything.
---
 embedftp/src/client.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/embedftp/src/client.rs b/embedftp/src/client.rs
index 6af92e0..763b592 100644
--- a/embedftp/src/client.rs
+++ b/embedftp/src/client.rs
@@ -421,6 +421,9 @@ where
       if let Ok(cwd) = res {
         let mut out = vec![];
 
+        // Only the client's argument is a pattern, not the names of the directories above.
+        let base = cwd.to_str().map(|s| PathBuf::from(glob::Pattern::escape(s))).unwrap_or(cwd);
+
         let pattern = if let Some(p) = path {
           if p.is_absolute() {
             self
@@ -429,9 +432,9 @@ where
             self.close_data_connection();
             return Ok(());
           }
-          cwd.join(p)
+          base.join(p)
         } else {
-          cwd.join("*")
+          base.join("*")
         };
 
         let matches = match pattern.to_str().map(|s| glob(s).map_err(|_| Error::from("Invalid glob pattern"))) {
-- 
2.43.0


From 31727ecce862df150f2a3d4e85cc77f8df3dc103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:53 +0000
Subject: [PATCH 11/84] fix: ppg demosaic: images smaller than 6 pixels in one
 dimension hung or were read out of bounds

---
 rawler/src/imgop/sensor/bayer/ppg.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/rawler/src/imgop/sensor/bayer/ppg.rs b/rawler/src/imgop/sensor/bayer/ppg.rs
index 7fb0cf7..2df3ed3 100644
--- a/rawler/src/imgop/sensor/bayer/ppg.rs
+++ b/rawler/src/imgop/sensor/bayer/ppg.rs
@@ -76,8 +76,8 @@ fn interpolate_borders(input: &mut RgbF32, shifted: &CFA) {
     let mut col = 0;
     while col < w {
       // Full process first 3 and last 3 rows, process only left and right 3 pixels for all other
-      if col == 3 && row >= 3 && row < h - 3 {
-        col = w - 3 // go to right border
+      if col == 3 && row >= 3 && row < h.saturating_sub(3) {
+        col = w.saturating_sub(3).max(col) // go to right border
       }
       // Store the pixel sum and count for each RGB channel (R=0, G=1, B=2)
       let mut sum = [(0.0, 0_usize); 3];
@@ -117,8 +117,8 @@ fn interpolate_green(img: &mut RgbF32, shifted: &CFA) {
   // image. This is not possible in Rust without unsafe code.
   let dataptr = img.data_ptr();
 
-  img.pixels_mut().par_chunks_exact_mut(w).enumerate().skip(3).take(h - 6).for_each(|(row, buf)| {
-    for (col, pixel) in buf.iter_mut().enumerate().skip(3).take(w - 6) {
+  img.pixels_mut().par_chunks_exact_mut(w).enumerate().skip(3).take(h.saturating_sub(6)).for_each(|(row, buf)| {
+    for (col, pixel) in buf.iter_mut().enumerate().skip(3).take(w.saturating_sub(6)) {
       if shifted.color_at(row, col) != CFA_COLOR_G {
         let ch = shifted.color_at(row, col); // It's R or B
         let x = pixel[ch];
@@ -176,8 +176,8 @@ fn interpolate_rb_at_green(img: &mut RgbF32, shifted: &CFA) {
   // image. This is not possible in Rust without unsafe code.
   let dataptr = img.data_ptr();
 
-  img.pixels_mut().par_chunks_exact_mut(w).enumerate().skip(3).take(h - 6).for_each(|(row, buf)| {
-    for (col, pixel) in buf.iter_mut().enumerate().skip(3).take(w - 6) {
+  img.pixels_mut().par_chunks_exact_mut(w).enumerate().skip(3).take(h.saturating_sub(6)).for_each(|(row, buf)| {
+    for (col, pixel) in buf.iter_mut().enumerate().skip(3).take(w.saturating_sub(6)) {
       if shifted.color_at(row, col) == CFA_COLOR_G {
         let h_ch = shifted.color_at(row, col + 1); // horizontal corresponding channel
         let v_ch = shifted.color_at(row + 1, col); // vertical corresponding channel
@@ -213,8 +213,8 @@ fn interpolate_rb_at_non_green(img: &mut RgbF32, shifted: &CFA) {
   // image. This is not possible in Rust without unsafe code.
   let dataptr = img.data_ptr();
 
-  img.pixels_mut().par_chunks_exact_mut(w).enumerate().skip(3).take(h - 6).for_each(|(row, buf)| {
-    for (col, pixel) in buf.iter_mut().enumerate().skip(3).take(w - 6) {
+  img.pixels_mut().par_chunks_exact_mut(w).enumerate().skip(3).take(h.saturating_sub(6)).for_each(|(row, buf)| {
+    for (col, pixel) in buf.iter_mut().enumerate().skip(3).take(w.saturating_sub(6)) {
       if shifted.color_at(row, col) != CFA_COLOR_G {
         let x_ch = shifted.color_at(row, col); // current
         let y_ch = if x_ch == CFA_COLOR_R { CFA_COLOR_B } else { CFA_COLOR_R };
-- 
2.43.0


From 63175a4c12169b977493c5c4168d6be25661ef09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:40 +0000
Subject: [PATCH 12/84] fix: convert: a panicking decoder or a failing final
 write only fails its own job and leaves no partial DNG

---
 bin/dnglab/dnglab-lib/src/jobs/raw2dng.rs | 31 ++++++++++++++++-------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/bin/dnglab/dnglab-lib/src/jobs/raw2dng.rs b/bin/dnglab/dnglab-lib/src/jobs/raw2dng.rs
index 144b7b7..35e694f 100644
--- a/bin/dnglab/dnglab-lib/src/jobs/raw2dng.rs
+++ b/bin/dnglab/dnglab-lib/src/jobs/raw2dng.rs
@@ -16,6 +16,7 @@ use std::{
   fmt::Display,
   fs::{File, remove_file},
   io::BufWriter,
+  panic::{AssertUnwindSafe, catch_unwind},
   time::SystemTime,
 };
 use std::{path::PathBuf, time::Instant};
@@ -97,18 +98,30 @@ impl Raw2DngJob {
     }
     let mut dng = BufWriter::new(file);
 
-    match convert_raw_file(&self.input, &mut dng, &self.params) {
+    // A panic in a decoder must only fail this job, it must not take down the whole batch.
+    let converted = catch_unwind(AssertUnwindSafe(|| convert_raw_file(&self.input, &mut dng, &self.params)))
+      .unwrap_or_else(|_| Err(RawlerError::DecoderFailed("Decoder panicked".into())));
+
+    match converted {
       Ok(info) => {
-        let file = dng.into_inner().map_err(|e| AppError::General(format!("Can't access DNG inner file: {e}")))?;
-        if self.params.keep_mtime {
-          let fallback = std::fs::metadata(&self.input).and_then(|md| md.modified()).ok();
-          if let Some(ts) = info.last_modified.or(fallback) {
-            file.set_modified(ts)?;
-            let datetime: chrono::DateTime<Local> = ts.into();
-            log::debug!("Set mtime for DNG file to {}", datetime.format("%d/%m/%Y %T"));
+        let finish = || -> Result<()> {
+          let file = dng.into_inner().map_err(|e| AppError::General(format!("Can't access DNG inner file: {e}")))?;
+          if self.params.keep_mtime {
+            let fallback = std::fs::metadata(&self.input).and_then(|md| md.modified()).ok();
+            if let Some(ts) = info.last_modified.or(fallback) {
+              file.set_modified(ts)?;
+              let datetime: chrono::DateTime<Local> = ts.into();
+              log::debug!("Set mtime for DNG file to {}", datetime.format("%d/%m/%Y %T"));
+            }
+          }
+          Ok(())
+        };
+        if let Err(err) = finish() {
+          if let Err(err) = remove_file(&self.output) {
+            log::error!("Failed to delete incomplete DNG file: {:?}", err);
           }
+          return Err(err);
         }
-        drop(file);
         Ok(JobResult {
           job: self.clone(),
           duration: 0.0,
-- 
2.43.0


From 1bcd58a2dce7b677ed1525a2561fe606679dbc62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:02 +0000
Subject: [PATCH 13/84] fix: convert --override never replaces an input file of
 the same run

---
 bin/dnglab/dnglab-lib/src/convert.rs | 35 ++++++++++++++--------------
 bin/dnglab/dnglab-lib/src/filemap.rs | 10 ++++++++
 2 files changed, 27 insertions(+), 18 deletions(-)

diff --git a/bin/dnglab/dnglab-lib/src/convert.rs b/bin/dnglab/dnglab-lib/src/convert.rs
index 6ba0e22..e0e2f25 100644
--- a/bin/dnglab/dnglab-lib/src/convert.rs
+++ b/bin/dnglab/dnglab-lib/src/convert.rs
@@ -10,7 +10,7 @@ use std::path::PathBuf;
 
 use std::time::Instant;
 
-use crate::filemap::{FileMap, MapMode};
+use crate::filemap::{FileMap, MapMode, resolve_location};
 use crate::jobs::Job;
 use crate::jobs::raw2dng::{JobResult, Raw2DngJob};
 use crate::{AppError, PKG_VERSION, Result};
@@ -39,24 +39,22 @@ pub async fn convert(options: &ArgMatches) -> crate::Result<()> {
   // (e.g. FOO.CR3 and FOO.NEF -> FOO.dng / FOO_1.dng).
   let mut claimed: HashSet<PathBuf> = HashSet::new();
 
-  match proc {
+  let list = match proc {
     // We have only one input file, so output must be a file, too.
-    MapMode::File(sd) => {
-      jobs.append(&mut generate_job(&sd, options, &mut claimed)?);
-    }
+    MapMode::File(sd) => vec![sd],
     // Input is directory, to process all files
-    MapMode::Dir(sd) => {
-      let list = sd.file_list(recursive, |file| {
-        if let Some(ext) = file.extension().map(|ext| ext.to_string_lossy()) {
-          is_ext_supported(ext)
-        } else {
-          false
-        }
-      })?;
-      for entry in list {
-        jobs.append(&mut generate_job(&entry, options, &mut claimed)?);
+    MapMode::Dir(sd) => sd.file_list(recursive, |file| {
+      if let Some(ext) = file.extension().map(|ext| ext.to_string_lossy()) {
+        is_ext_supported(ext)
+      } else {
+        false
       }
-    }
+    })?,
+  };
+  // Input files of this run, these are never replaced by an output.
+  let inputs: HashSet<PathBuf> = list.iter().filter_map(|entry| resolve_location(&entry.src)).collect();
+  for entry in &list {
+    jobs.append(&mut generate_job(entry, options, &inputs, &mut claimed)?);
   }
 
   let verbose = options.get_flag("verbose");
@@ -101,7 +99,7 @@ pub async fn convert(options: &ArgMatches) -> crate::Result<()> {
 }
 
 /// Convert given raw file to dng file
-fn generate_job(entry: &FileMap, options: &ArgMatches, claimed: &mut HashSet<PathBuf>) -> Result<Vec<Raw2DngJob>> {
+fn generate_job(entry: &FileMap, options: &ArgMatches, inputs: &HashSet<PathBuf>, claimed: &mut HashSet<PathBuf>) -> Result<Vec<Raw2DngJob>> {
   let (do_batch, index) = match options.get_one::<String>("index") {
     Some(index) => {
       if index.to_lowercase().eq("all") {
@@ -221,10 +219,11 @@ fn generate_job(entry: &FileMap, options: &ArgMatches, claimed: &mut HashSet<Pat
       apply_scaling: false,
       keep_mtime: options.get_flag("keep_mtime"),
     };
+    let is_input = resolve_location(&out).is_some_and(|path| inputs.contains(&path));
     jobs.push(Raw2DngJob {
       input: input.clone(),
       output: out,
-      replace,
+      replace: replace && !is_input,
       params,
     });
   }
diff --git a/bin/dnglab/dnglab-lib/src/filemap.rs b/bin/dnglab/dnglab-lib/src/filemap.rs
index 92786b6..313dcd6 100644
--- a/bin/dnglab/dnglab-lib/src/filemap.rs
+++ b/bin/dnglab/dnglab-lib/src/filemap.rs
@@ -107,6 +107,16 @@ impl MapMode {
   }
 }
 
+/// Location of a directory entry: the directory is resolved, the entry itself
+/// is not followed if it is a symbolic link.
+pub(crate) fn resolve_location(path: &Path) -> Option<PathBuf> {
+  let parent = match path.parent() {
+    Some(parent) if !parent.as_os_str().is_empty() => parent,
+    _ => Path::new("."),
+  };
+  Some(parent.canonicalize().ok()?.join(path.file_name()?))
+}
+
 /// Read directory (optionally recursive) and filter entries
 fn read_filtered_dir<F>(input: &Path, recursive: bool, filter: F) -> Result<Vec<PathBuf>>
 where
-- 
2.43.0


From 4522c0a255e59c0e1a461165912bf76980f356b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:17 +0000
Subject: [PATCH 14/84] fix: convert: one unusable directory entry, image count
 or output directory no longer aborts the whole batch

---
 bin/dnglab/dnglab-lib/src/convert.rs |  9 ++++++---
 bin/dnglab/dnglab-lib/src/filemap.rs | 12 +++++++++++-
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/bin/dnglab/dnglab-lib/src/convert.rs b/bin/dnglab/dnglab-lib/src/convert.rs
index e0e2f25..7b97bb6 100644
--- a/bin/dnglab/dnglab-lib/src/convert.rs
+++ b/bin/dnglab/dnglab-lib/src/convert.rs
@@ -111,7 +111,8 @@ fn generate_job(entry: &FileMap, options: &ArgMatches, inputs: &HashSet<PathBuf>
     None => (false, 0),
   };
 
-  let batch_count = if do_batch { rawler::raw_image_count_file(&entry.src)? } else { 1 };
+  // If the count is unknown, the job itself reports the failure.
+  let batch_count = if do_batch { rawler::raw_image_count_file(&entry.src).unwrap_or(1) } else { 1 };
   let multi_frame = do_batch && batch_count > 1;
   let replace = options.get_flag("override");
 
@@ -188,8 +189,10 @@ fn generate_job(entry: &FileMap, options: &ArgMatches, inputs: &HashSet<PathBuf>
   // Ensure the parent directory exists once for the resolved outputs.
   if let Some(parent) = final_outputs[0].parent() {
     if !parent.exists() {
-      create_dir_all(parent)?;
-      if options.get_flag("verbose") {
+      if let Err(err) = create_dir_all(parent) {
+        // The job itself reports the failure.
+        log::error!("Failed to create output directory '{}': {}", parent.display(), err);
+      } else if options.get_flag("verbose") {
         println!("Creating output directory '{}'", parent.display());
       }
     }
diff --git a/bin/dnglab/dnglab-lib/src/filemap.rs b/bin/dnglab/dnglab-lib/src/filemap.rs
index 313dcd6..f976a75 100644
--- a/bin/dnglab/dnglab-lib/src/filemap.rs
+++ b/bin/dnglab/dnglab-lib/src/filemap.rs
@@ -126,7 +126,17 @@ where
   let dir = read_dir(input)?;
   for entry in dir {
     let entry = entry?;
-    let in_md = fs::metadata(entry.path())?;
+    let in_md = match fs::metadata(entry.path()) {
+      Ok(md) => md,
+      Err(err) => {
+        // For example a dangling symbolic link. If it looks like an input file, let the job for it fail.
+        warn!("Unable to determine type of {}: {}", entry.path().display(), err);
+        if filter(&entry.path()) {
+          result.push(entry.path());
+        }
+        continue;
+      }
+    };
     if in_md.is_file() {
       if filter(&entry.path()) {
         result.push(entry.path());
-- 
2.43.0


From 46b17248257195f9e5dde9b127173fa327c842c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:47 +0000
Subject: [PATCH 15/84] fix: process-raw: create outputs exclusively and leave
 no partial image behind

---
 bin/dnglab/dnglab-lib/src/jobs/process_raw.rs | 47 ++++++++++++++-----
 1 file changed, 34 insertions(+), 13 deletions(-)

diff --git a/bin/dnglab/dnglab-lib/src/jobs/process_raw.rs b/bin/dnglab/dnglab-lib/src/jobs/process_raw.rs
index fadcdef..547be3e 100644
--- a/bin/dnglab/dnglab-lib/src/jobs/process_raw.rs
+++ b/bin/dnglab/dnglab-lib/src/jobs/process_raw.rs
@@ -16,6 +16,7 @@ use std::{
   fmt::Display,
   fs::{File, remove_file},
   io::BufWriter,
+  panic::{AssertUnwindSafe, catch_unwind},
   time::SystemTime,
 };
 use std::{path::PathBuf, time::Instant};
@@ -69,9 +70,6 @@ pub(crate) fn copy_mtime_from_rawsource(rawfile: &RawSource, file: &File, fallba
 
 impl Raw2Image {
   fn internal_exec(&self) -> Result<JobResult> {
-    if self.output.exists() && !self.replace {
-      return Err(AppError::AlreadyExists(self.output.clone()));
-    }
     // File name for embedding
     let orig_filename = self
       .input
@@ -81,19 +79,42 @@ impl Raw2Image {
       .to_string_lossy()
       .to_string();
 
-    let mut image_file = BufWriter::new(File::create(&self.output)?);
+    let file = if self.replace {
+      File::create(&self.output)?
+    } else {
+      match std::fs::OpenOptions::new().write(true).create_new(true).open(&self.output) {
+        Ok(f) => f,
+        Err(e) if e.kind() == std::io::ErrorKind::AlreadyExists => {
+          return Err(AppError::AlreadyExists(self.output.clone()));
+        }
+        Err(e) => return Err(e.into()),
+      }
+    };
+    let mut image_file = BufWriter::new(file);
 
-    match process_raw_image(&self.input, &mut image_file, &self.params) {
+    // A panic in a decoder must only fail this job and not leave a partial file.
+    let processed = catch_unwind(AssertUnwindSafe(|| process_raw_image(&self.input, &mut image_file, &self.params)))
+      .unwrap_or_else(|_| Err(RawlerError::DecoderFailed("Decoder panicked".into())));
+
+    match processed {
       Ok(_) => {
-        let file = image_file
-          .into_inner()
-          .map_err(|e| AppError::General(format!("Can't access image inner file: {e}")))?;
-        if self.params.keep_mtime {
-          let file_mtime = std::fs::metadata(&self.input).and_then(|md| md.modified()).ok();
-          let rawfile = RawSource::new(&self.input)?;
-          copy_mtime_from_rawsource(&rawfile, &file, file_mtime, &self.params)?;
+        let finish = || -> Result<()> {
+          let file = image_file
+            .into_inner()
+            .map_err(|e| AppError::General(format!("Can't access image inner file: {e}")))?;
+          if self.params.keep_mtime {
+            let file_mtime = std::fs::metadata(&self.input).and_then(|md| md.modified()).ok();
+            let rawfile = RawSource::new(&self.input)?;
+            copy_mtime_from_rawsource(&rawfile, &file, file_mtime, &self.params)?;
+          }
+          Ok(())
+        };
+        if let Err(err) = finish() {
+          if let Err(err) = remove_file(&self.output) {
+            log::error!("Failed to delete incomplete output file: {:?}", err);
+          }
+          return Err(err);
         }
-        drop(file);
         Ok(JobResult {
           job: self.clone(),
           duration: 0.0,
-- 
2.43.0


From 563872b771d330aa3d341d005b44d1ec26d44966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:23 +0000
Subject: [PATCH 16/84] fix: process-raw: distinct sources get distinct
 outputs, inputs are never replaced and one bad entry does not abort the batch

---
 bin/dnglab/dnglab-lib/src/process_raw.rs | 47 +++++++++++++++++-------
 1 file changed, 33 insertions(+), 14 deletions(-)

diff --git a/bin/dnglab/dnglab-lib/src/process_raw.rs b/bin/dnglab/dnglab-lib/src/process_raw.rs
index 2d786b4..1a1fbb7 100644
--- a/bin/dnglab/dnglab-lib/src/process_raw.rs
+++ b/bin/dnglab/dnglab-lib/src/process_raw.rs
@@ -5,12 +5,13 @@ use clap::ArgMatches;
 use futures::future::join_all;
 use rawler::decoders::supported_extensions;
 use rawler::imgop::develop::RawProcessingParams;
+use std::collections::HashSet;
 use std::fs::create_dir_all;
 use std::path::PathBuf;
 
 use std::time::Instant;
 
-use crate::filemap::{FileMap, MapMode};
+use crate::filemap::{FileMap, MapMode, resolve_location};
 use crate::jobs::Job;
 use crate::jobs::process_raw::{JobResult, Raw2Image};
 use crate::{AppError, PKG_VERSION, Result};
@@ -33,11 +34,13 @@ pub async fn process_raw(options: &ArgMatches) -> crate::Result<()> {
 
   // List of jobs
   let mut jobs: Vec<Raw2Image> = Vec::new();
+  // Output paths already assigned to a job in this run (see convert).
+  let mut claimed: HashSet<PathBuf> = HashSet::new();
 
   match proc {
     // We have only one input file, so output must be a file, too.
     MapMode::File(sd) => {
-      jobs.append(&mut generate_job(&sd, options)?);
+      jobs.append(&mut generate_job(&sd, options, &mut claimed)?);
     }
     // Input is directory, to process all files
     MapMode::Dir(sd) => {
@@ -49,7 +52,7 @@ pub async fn process_raw(options: &ArgMatches) -> crate::Result<()> {
         }
       })?;
       for entry in list {
-        jobs.append(&mut generate_job(&entry, options)?);
+        jobs.append(&mut generate_job(&entry, options, &mut claimed)?);
       }
     }
   }
@@ -95,7 +98,7 @@ pub async fn process_raw(options: &ArgMatches) -> crate::Result<()> {
 }
 
 /// Convert given raw file to dng file
-fn generate_job(entry: &FileMap, options: &ArgMatches) -> Result<Vec<Raw2Image>> {
+fn generate_job(entry: &FileMap, options: &ArgMatches, claimed: &mut HashSet<PathBuf>) -> Result<Vec<Raw2Image>> {
   let (do_batch, index) = match options.get_one::<String>("index") {
     Some(index) => {
       if index.to_lowercase().eq("all") {
@@ -107,7 +110,8 @@ fn generate_job(entry: &FileMap, options: &ArgMatches) -> Result<Vec<Raw2Image>>
     None => (false, 0),
   };
 
-  let batch_count = if do_batch { rawler::raw_image_count_file(&entry.src)? } else { 1 };
+  // If the count is unknown, the job itself reports the failure.
+  let batch_count = if do_batch { rawler::raw_image_count_file(&entry.src).unwrap_or(1) } else { 1 };
 
   let mut jobs = Vec::new();
 
@@ -134,21 +138,34 @@ fn generate_job(entry: &FileMap, options: &ArgMatches) -> Result<Vec<Raw2Image>>
 
     output.set_extension("tif");
 
+    let file_name = String::from(
+      output
+        .file_stem()
+        .ok_or_else(|| anyhow::anyhow!("output path has no file stem"))?
+        .to_string_lossy(),
+    );
     if do_batch && batch_count > 1 {
-      let file_name = String::from(
-        output
-          .file_stem()
-          .ok_or_else(|| anyhow::anyhow!("output path has no file stem"))?
-          .to_string_lossy(),
-      );
       output.set_file_name(format!("{}_{:04}.tif", file_name, i));
     }
+    // Distinct sources must not share an output (e.g. FOO.CR3 and FOO.NEF -> FOO.tif / FOO_1.tif).
+    let mut suffix = 0usize;
+    while claimed.contains(&output) {
+      suffix += 1;
+      if do_batch && batch_count > 1 {
+        output.set_file_name(format!("{}_{}_{:04}.tif", file_name, suffix, i));
+      } else {
+        output.set_file_name(format!("{}_{}.tif", file_name, suffix));
+      }
+    }
+    claimed.insert(output.clone());
 
     match output.parent() {
       Some(parent) => {
         if !parent.exists() {
-          create_dir_all(parent)?;
-          if options.get_flag("verbose") {
+          if let Err(err) = create_dir_all(parent) {
+            // The job itself reports the failure.
+            log::error!("Failed to create output directory '{}': {}", parent.display(), err);
+          } else if options.get_flag("verbose") {
             println!("Creating output directory '{}'", parent.display());
           }
         }
@@ -158,10 +175,12 @@ fn generate_job(entry: &FileMap, options: &ArgMatches) -> Result<Vec<Raw2Image>>
       }
     }
 
+    // Never replace the input file itself.
+    let is_input = resolve_location(&output).is_some_and(|path| Some(path) == resolve_location(&input));
     jobs.push(Raw2Image {
       input,
       output,
-      replace: options.get_flag("override"),
+      replace: options.get_flag("override") && !is_input,
       params,
     });
   }
-- 
2.43.0


From 298fc0d1565e9d06d10e12a6645a4c55b7d9308a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:29 +0000
Subject: [PATCH 17/84] fix: extract: ignore directories in the embedded
 original file name

---
 bin/dnglab/dnglab-lib/src/extract.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bin/dnglab/dnglab-lib/src/extract.rs b/bin/dnglab/dnglab-lib/src/extract.rs
index 2e98566..7cef66a 100644
--- a/bin/dnglab/dnglab-lib/src/extract.rs
+++ b/bin/dnglab/dnglab-lib/src/extract.rs
@@ -9,7 +9,7 @@ use rawler::tags::DngTag;
 use rayon::iter::{IntoParallelRefIterator, ParallelIterator};
 use std::fs::File;
 use std::io::BufReader;
-use std::path::PathBuf;
+use std::path::{Path, PathBuf};
 use std::time::Instant;
 
 use crate::filemap::{FileMap, MapMode};
@@ -141,7 +141,9 @@ fn get_original_name(file: &GenericTiffReader) -> Option<String> {
     ..
   }) = file.get_entry(DngTag::OriginalRawFileName)
   {
-    Some(orig_name.strings()[0].clone())
+    // Only a plain file name is accepted, the extracted file must not leave the output directory.
+    let name = orig_name.strings().first()?;
+    Path::new(name).file_name().map(|name| name.to_string_lossy().into_owned())
   } else {
     None
   }
-- 
2.43.0


From 00550df9b603d6ad007df516770b05fe458f8355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:37 +0000
Subject: [PATCH 18/84] fix: extract: create the output exclusively and remove
 it if the final write fails

---
 bin/dnglab/dnglab-lib/src/jobs/extractraw.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/bin/dnglab/dnglab-lib/src/jobs/extractraw.rs b/bin/dnglab/dnglab-lib/src/jobs/extractraw.rs
index a4bcccf..71bd706 100644
--- a/bin/dnglab/dnglab-lib/src/jobs/extractraw.rs
+++ b/bin/dnglab/dnglab-lib/src/jobs/extractraw.rs
@@ -12,7 +12,7 @@ use rawler::{
 };
 use std::{
   fmt::Display,
-  fs::remove_file,
+  fs::{OpenOptions, remove_file},
   io::{BufReader, BufWriter, Cursor, Write},
 };
 use std::{fs::File, path::PathBuf, time::Instant};
@@ -73,15 +73,25 @@ impl ExtractRawJob {
           .and_then(|data| OriginalDigest::try_from(data).ok());
 
         let original = OriginalCompressed::new(&mut Cursor::new(val), digest)?;
-        let mut stream = BufWriter::new(File::create(&self.output)?);
-        if let Err(err) = original.decompress(&mut stream, !self.skip_checks) {
-          drop(original);
+        let file = if self.replace {
+          File::create(&self.output)?
+        } else {
+          match OpenOptions::new().write(true).create_new(true).open(&self.output) {
+            Ok(f) => f,
+            Err(e) if e.kind() == std::io::ErrorKind::AlreadyExists => {
+              return Err(AppError::AlreadyExists(self.output.clone()));
+            }
+            Err(e) => return Err(e.into()),
+          }
+        };
+        let mut stream = BufWriter::new(file);
+        if let Err(err) = original.decompress(&mut stream, !self.skip_checks).and_then(|_| stream.flush()) {
+          drop(stream);
           if let Err(err) = remove_file(&self.output) {
             log::error!("Failed to delete original file after decompress error: {:?}", err);
           }
           return Err(err.into());
         }
-        stream.flush()?;
         Ok(JobResult {
           job: self.clone(),
           duration: 0.0, // TODO: fixme
-- 
2.43.0


From 56fd9469d989c339b6650ea187eebe8fac7cbe5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:28 +0000
Subject: [PATCH 19/84] fix: extract: one bad DNG does not abort the batch, sub
 directories are created and no file of the run is overwritten

---
 bin/dnglab/dnglab-lib/src/extract.rs | 39 ++++++++++++++++++++++++----
 1 file changed, 34 insertions(+), 5 deletions(-)

diff --git a/bin/dnglab/dnglab-lib/src/extract.rs b/bin/dnglab/dnglab-lib/src/extract.rs
index 7cef66a..ba08c79 100644
--- a/bin/dnglab/dnglab-lib/src/extract.rs
+++ b/bin/dnglab/dnglab-lib/src/extract.rs
@@ -7,12 +7,13 @@ use rawler::formats::tiff::reader::TiffReader;
 use rawler::formats::tiff::{Entry, GenericTiffReader, Value};
 use rawler::tags::DngTag;
 use rayon::iter::{IntoParallelRefIterator, ParallelIterator};
-use std::fs::File;
+use std::collections::HashSet;
+use std::fs::{File, create_dir_all};
 use std::io::BufReader;
 use std::path::{Path, PathBuf};
 use std::time::Instant;
 
-use crate::filemap::{FileMap, MapMode};
+use crate::filemap::{FileMap, MapMode, resolve_location};
 use crate::jobs::Job;
 use crate::jobs::extractraw::{ExtractRawJob, JobResult};
 use crate::{AppError, Result};
@@ -36,6 +37,7 @@ pub async fn extract(options: &ArgMatches) -> crate::Result<()> {
   let recursive = options.get_flag("recursive");
 
   let mut jobs = Vec::new();
+  let mut results: Vec<JobResult> = Vec::new();
 
   match proc {
     // We have only one input file, so output must be a file, too.
@@ -54,14 +56,41 @@ pub async fn extract(options: &ArgMatches) -> crate::Result<()> {
         }
       })?;
 
-      let tmp: Result<Vec<ExtractRawJob>> = list.par_iter().map(|entry| generate_job(entry, options, true)).collect();
-      jobs.extend(tmp?.into_iter());
+      let tmp: Vec<Result<ExtractRawJob>> = list.par_iter().map(|entry| generate_job(entry, options, true)).collect();
+      for (entry, job) in list.iter().zip(tmp) {
+        match job {
+          Ok(job) => jobs.push(job),
+          // Only this file fails, not the whole batch.
+          Err(err) => results.push(JobResult {
+            job: ExtractRawJob {
+              input: entry.src.clone(),
+              output: entry.dest.clone(),
+              replace: false,
+              skip_checks: false,
+            },
+            duration: 0.0,
+            error: Some(err),
+          }),
+        }
+      }
+    }
+  }
+  // Neither an input nor an output of this run is ever replaced.
+  let mut taken: HashSet<PathBuf> = jobs.iter().filter_map(|job| resolve_location(&job.input)).collect();
+  for job in jobs.iter_mut() {
+    if let Some(parent) = job.output.parent().filter(|parent| !parent.exists()) {
+      if let Err(err) = create_dir_all(parent) {
+        // The job itself reports the failure.
+        log::error!("Failed to create output directory '{}': {}", parent.display(), err);
+      }
+    }
+    if resolve_location(&job.output).is_some_and(|path| !taken.insert(path)) {
+      job.replace = false;
     }
   }
 
   let verbose = options.get_flag("verbose");
 
-  let mut results: Vec<JobResult> = Vec::new();
   for chunks in jobs.chunks(8) {
     let mut temp: Vec<JobResult> = join_all(chunks.iter().map(|j| j.execute()))
       .await
-- 
2.43.0


From 293e5497052cd25d4d9f8e6475e84f958b1a0857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:05 +0000
Subject: [PATCH 20/84] fix: ftpserver: a failed conversion leaves no partial
 DNG, keeps an existing one and stays inside the server root

---
 bin/dnglab/dnglab-lib/src/ftpconv.rs | 35 +++++++++++++++++-----------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/bin/dnglab/dnglab-lib/src/ftpconv.rs b/bin/dnglab/dnglab-lib/src/ftpconv.rs
index 57e8864..8ae813d 100644
--- a/bin/dnglab/dnglab-lib/src/ftpconv.rs
+++ b/bin/dnglab/dnglab-lib/src/ftpconv.rs
@@ -7,10 +7,12 @@ use embedftp::server::serve;
 use rawler::decoders::supported_extensions;
 use rawler::rawsource::RawSource;
 use std::ffi::OsStr;
-use std::fs::File;
+use std::fs::{OpenOptions, remove_file};
 use std::io::BufWriter;
+use std::panic::{AssertUnwindSafe, catch_unwind};
 use std::path::{Path, PathBuf};
 use std::sync::Arc;
+use std::sync::atomic::{AtomicUsize, Ordering};
 
 use tokio::runtime::Handle;
 
@@ -38,20 +40,27 @@ impl FtpCallback for FtpState {
       let original_filename = path.file_name().and_then(OsStr::to_str).unwrap_or_default();
       let rawfile = RawSource::new_from_shared_vec(data).with_path(original_filename);
       let out_path = path.with_extension("dng");
-      let mut dng = BufWriter::new(File::create(out_path)?);
-      let _info =
+      // Convert into a temporary file first: a failed conversion neither leaves a partial DNG nor
+      // destroys an existing one, and a symlink at the final location is replaced instead of followed.
+      static COUNTER: AtomicUsize = AtomicUsize::new(0);
+      let tmp_path = path.with_file_name(format!(".dnglab-{}-{}.tmp", std::process::id(), COUNTER.fetch_add(1, Ordering::Relaxed)));
+      let convert = || -> std::io::Result<()> {
+        let mut dng = BufWriter::new(OpenOptions::new().write(true).create_new(true).open(&tmp_path)?);
         convert_raw_source(&rawfile, &mut dng, original_filename, &state.params).map_err(|err| std::io::Error::new(std::io::ErrorKind::Other, err))?;
-      if state.params.keep_mtime {
-        if let Err(err) = copy_mtime_from_rawsource(
-          &rawfile,
-          &dng
-            .into_inner()
-            .map_err(|e| std::io::Error::new(std::io::ErrorKind::Other, format!("Can't access inner file: {e}")))?,
-          None,
-          &state.params,
-        ) {
-          log::warn!("Failed to set mtime, continue anyway: {}", err);
+        let file = dng
+          .into_inner()
+          .map_err(|e| std::io::Error::new(std::io::ErrorKind::Other, format!("Can't access inner file: {e}")))?;
+        if state.params.keep_mtime {
+          if let Err(err) = copy_mtime_from_rawsource(&rawfile, &file, None, &state.params) {
+            log::warn!("Failed to set mtime, continue anyway: {}", err);
+          }
         }
+        std::fs::rename(&tmp_path, &out_path)
+      };
+      let converted = catch_unwind(AssertUnwindSafe(convert)).unwrap_or_else(|_| Err(std::io::Error::new(std::io::ErrorKind::Other, "Decoder panicked")));
+      if let Err(err) = converted {
+        let _ = remove_file(&tmp_path);
+        return Err(err);
       }
       Ok(!state.keep_orig)
     })
-- 
2.43.0


From 1e373bb7278cd983bfa9dfac035f08f4961731fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:26 +0000
Subject: [PATCH 21/84] fix: ljpeg: accept sample precisions below 10 bit, as
 written by the own compressor

---
 rawler/src/decompressors/ljpeg/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rawler/src/decompressors/ljpeg/mod.rs b/rawler/src/decompressors/ljpeg/mod.rs
index c1b9178..ee24283 100644
--- a/rawler/src/decompressors/ljpeg/mod.rs
+++ b/rawler/src/decompressors/ljpeg/mod.rs
@@ -194,7 +194,7 @@ impl<'a> LjpegDecompressor<'a> {
       if marker == m(Marker::SOF3) {
         // Start of the frame, giving us the basic info
         sof.parse_sof(&mut input)?;
-        if sof.precision > 16 || sof.precision < 10 {
+        if sof.precision > 16 || sof.precision < 2 {
           return Err(format!("ljpeg: sof.precision {}", sof.precision));
         }
       } else if marker == m(Marker::DHT) {
-- 
2.43.0


From 397838584472a6d6ddf14c2b675c105c54d0d3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:54 +0000
Subject: [PATCH 22/84] fix: packed: rows of packed 10, 12 and generic bit
 depths start on a byte boundary

---
 rawler/src/decompressors/packed.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/rawler/src/decompressors/packed.rs b/rawler/src/decompressors/packed.rs
index 53fcd7e..65f4a41 100644
--- a/rawler/src/decompressors/packed.rs
+++ b/rawler/src/decompressors/packed.rs
@@ -1,7 +1,7 @@
 //! Unpacking of packed bits.
 //!
 //! Raw image data stored with `CompressionMethod::None` packs samples
-//! back-to-back with no padding between them. This module provides
+//! back-to-back within a row; each row starts on a byte boundary. This module provides
 //! [`PackedDecompressor`], which dispatches to a bit-depth-specific
 //! unpacker based on the bits-per-sample and byte order declared in the
 //! TIFF IFD:
@@ -59,9 +59,9 @@ impl<'a> Decompressor<'a, u16> for PackedDecompressor {
       (Endian::Big, 16) => unpack_16be(lines, src, skip_rows, line_width),
       (Endian::Little, 16) => unpack_16le(lines, src, skip_rows, line_width),
       // 12 Bits, DNG spec says it must be always encoded as big-endian
-      (_, 12) => unpack_12be(lines, src, skip_rows, line_width),
+      (_, 12) if line_width % 2 == 0 => unpack_12be(lines, src, skip_rows, line_width),
       // 10 Bits, DNG spec says it must be always encoded as big-endian
-      (_, 10) => unpack_10be(lines, src, skip_rows, line_width),
+      (_, 10) if line_width % 4 == 0 => unpack_10be(lines, src, skip_rows, line_width),
       // 8 bits
       (_, 8) => unpack_8bit(lines, src, skip_rows, line_width),
       // Generic MSB decoder for exotic packed bit sizes
@@ -173,17 +173,15 @@ fn unpack_8bit<'a>(lines: impl LineIteratorMut<'a, u16>, src: &[u8], skip_rows:
 
 #[multiversion(targets("x86_64+avx+avx2+fma", "x86+sse", "aarch64+neon"))]
 fn unpack_generic_msb<'a>(lines: impl LineIteratorMut<'a, u16>, src: &[u8], skip_rows: usize, width: usize, bits: u32) -> std::result::Result<(), String> {
-  let need = ((skip_rows + lines.len()) * width * bits as usize).div_ceil(u8::BITS as usize);
+  // Each row starts on a byte boundary (TIFF 6.0, Compression = 1).
+  let row_bytes = (width * bits as usize).div_ceil(u8::BITS as usize);
+  let need = (skip_rows + lines.len()) * row_bytes;
   if src.len() < need {
     return Err(format!("unpack_generic_msb(): buffer too short ({} < {})", src.len(), need));
   }
   assert!(bits <= 16);
-  let skip_bits = skip_rows * width * bits as usize;
-  let offset = skip_bits / 8;
-  let bias = skip_bits % 8;
-  let mut pump = BitPumpMSB::new(&src[offset..]);
-  pump.consume_bits(bias as u32);
-  for line in lines {
+  for (row, line) in lines.enumerate() {
+    let mut pump = BitPumpMSB::new(&src[(skip_rows + row) * row_bytes..]);
     for p in line {
       *p = pump.get_bits(bits) as u16;
     }
-- 
2.43.0


From c08dccac3dfe51939745c4de6071b814164b7e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:59 +0000
Subject: [PATCH 23/84] fix: DNG decoder: monochrome (BlackIsZero) images have
 no CFA pattern

---
 rawler/src/decoders/dng.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rawler/src/decoders/dng.rs b/rawler/src/decoders/dng.rs
index 0003314..ccebdb1 100644
--- a/rawler/src/decoders/dng.rs
+++ b/rawler/src/decoders/dng.rs
@@ -258,8 +258,8 @@ impl<'a> DngDecoder<'a> {
       None
     };
 
-    let linear = fetch_tiff_tag!(raw, TiffCommonTag::PhotometricInt).force_usize(0) == 34892;
-    let cfa = if linear { CFA::default() } else { self.get_cfa(raw)? };
+    let is_cfa = fetch_tiff_tag!(raw, TiffCommonTag::PhotometricInt).force_usize(0) == 32803;
+    let cfa = if is_cfa { self.get_cfa(raw)? } else { CFA::default() };
     let color_matrix = self.get_color_matrix()?;
     let real_bps = if raw.has_entry(TiffCommonTag::Linearization) {
       // If DNG contains linearization table, output is always 16 bits
-- 
2.43.0


From 2d35b5cb8f4c5cd36392ee543c16453f711533d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:19 +0000
Subject: [PATCH 24/84] fix: DNG writer: 8 bit monochrome LJPEG data is stored
 with 16 bit precision

---
 rawler/src/dng/writer.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/rawler/src/dng/writer.rs b/rawler/src/dng/writer.rs
index 1bbed0f..aa01848 100644
--- a/rawler/src/dng/writer.rs
+++ b/rawler/src/dng/writer.rs
@@ -573,6 +573,12 @@ where
   let tile_w = 256 & !0b111; // ensure div 16
   let tile_h = 256 & !0b111;
 
+  let bps = match rawimage.photometric {
+    // By DNG specification, 8 bit BlackIsZero data with this compression is baseline DCT JPEG.
+    RawPhotometricInterpretation::BlackIsZero if rawimage.bps == 8 => 16,
+    _ => rawimage.bps,
+  };
+
   let lj92_data = match rawimage.data {
     RawImageData::Integer(ref data) => {
       // Only merge two lines into one for higher predictors, if image is CFA
@@ -596,7 +602,7 @@ where
         }
       };
 
-      debug!("LJPEG compression: bit depth: {}", rawimage.bps);
+      debug!("LJPEG compression: bit depth: {}", bps);
 
       // Build and compress each tile in one parallel pass: tile materialization
       // overlaps with LJPEG encoding instead of pre-collecting `Vec<Vec<u16>>`
@@ -604,12 +610,12 @@ where
       // staging to roughly O(threads × tile).
       let tiler = ImageTiler::new(data, rawimage.width, rawimage.height, rawimage.cpp, tile_w, tile_h);
       let n_tiles = tiler.tile_count();
-      let bps = rawimage.bps as u8;
+      let precision = bps as u8;
       let tiles_compr: Vec<Vec<u8>> = (0..n_tiles)
         .into_par_iter()
         .map(|idx| {
           let tile = tiler.build_tile(idx);
-          let state = LjpegCompressor::new(&tile, j_width * realign, j_height / realign, components, bps, predictor, 0, 0)
+          let state = LjpegCompressor::new(&tile, j_width * realign, j_height / realign, components, precision, predictor, 0, 0)
             .map_err(|e| DngError::General(format!("LJPEG compressor init failed: {}", e)))?;
           state.encode().map_err(|e| DngError::General(format!("LJPEG encoding failed: {}", e)))
         })
@@ -632,7 +638,7 @@ where
 
   subframe
     .ifd_mut()
-    .add_tag(TiffCommonTag::BitsPerSample, &vec![rawimage.bps as u16; rawimage.cpp]);
+    .add_tag(TiffCommonTag::BitsPerSample, &vec![bps as u16; rawimage.cpp]);
   subframe.ifd_mut().add_tag(TiffCommonTag::SampleFormat, &vec![1_u16; rawimage.cpp]);
   subframe.ifd_mut().add_tag(TiffCommonTag::TileOffsets, &tile_offsets);
   subframe.ifd_mut().add_tag(TiffCommonTag::TileByteCounts, &tile_sizes);
-- 
2.43.0


From 2303b7e897cee53dbd64a16781b21462a964f974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:42 +0000
Subject: [PATCH 25/84] fix: DNG writer: RowsPerStrip has a single value

---
 rawler/src/dng/writer.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/rawler/src/dng/writer.rs b/rawler/src/dng/writer.rs
index aa01848..a427fb6 100644
--- a/rawler/src/dng/writer.rs
+++ b/rawler/src/dng/writer.rs
@@ -658,7 +658,6 @@ where
 {
   let mut strip_offsets: Vec<u32> = Vec::new();
   let mut strip_sizes: Vec<u32> = Vec::new();
-  let mut strip_rows: Vec<u32> = Vec::new();
 
   let rows_per_strip = if rawimage.height > rawler_dng_multistrip_threshold().unwrap_or(100) {
     rawler_dng_rows_per_strip().unwrap_or(256)
@@ -672,7 +671,6 @@ where
         let offset = subframe.writer.dng.write_data_u16_le(strip)?;
         strip_offsets.push(offset);
         strip_sizes.push(std::mem::size_of_val(strip) as u32);
-        strip_rows.push((strip.len() / (rawimage.width * rawimage.cpp)) as u32);
       }
       subframe.ifd_mut().add_tag(TiffCommonTag::SampleFormat, &vec![1_u16; rawimage.cpp]); // Unsigned Integer
       subframe.ifd_mut().add_tag(TiffCommonTag::BitsPerSample, &vec![16_u16; rawimage.cpp]);
@@ -682,7 +680,6 @@ where
         let offset = subframe.writer.dng.write_data_f32_le(strip)?;
         strip_offsets.push(offset);
         strip_sizes.push(std::mem::size_of_val(strip) as u32);
-        strip_rows.push((strip.len() / (rawimage.width * rawimage.cpp)) as u32);
       }
       subframe.ifd_mut().add_tag(TiffCommonTag::SampleFormat, &vec![3_u16; rawimage.cpp]); // IEEE Float
       subframe.ifd_mut().add_tag(TiffCommonTag::BitsPerSample, &vec![32_u16; rawimage.cpp]);
@@ -690,7 +687,7 @@ where
   };
   subframe.ifd_mut().add_tag(TiffCommonTag::StripOffsets, &strip_offsets);
   subframe.ifd_mut().add_tag(TiffCommonTag::StripByteCounts, &strip_sizes);
-  subframe.ifd_mut().add_tag(TiffCommonTag::RowsPerStrip, &strip_rows);
+  subframe.ifd_mut().add_tag(TiffCommonTag::RowsPerStrip, rows_per_strip as u32);
 
   Ok(())
 }
-- 
2.43.0


From 1b0cd116f9f8ed7388a60bf57337618b95614e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:11 +0000
Subject: [PATCH 26/84] fix: DNG writer: areas and crops beyond 65535 are not
 truncated

---
 rawler/src/dng/mod.rs    | 10 +++++-----
 rawler/src/dng/writer.rs | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/rawler/src/dng/mod.rs b/rawler/src/dng/mod.rs
index 1a39c83..ac11734 100644
--- a/rawler/src/dng/mod.rs
+++ b/rawler/src/dng/mod.rs
@@ -19,12 +19,12 @@ pub const DNG_VERSION_V1_6: [u8; 4] = [1, 6, 0, 0];
 ///
 /// DNG ActiveArea  is:
 ///  Top, Left, Bottom, Right
-pub fn rect_to_dng_area(area: &Rect) -> [u16; 4] {
+pub fn rect_to_dng_area(area: &Rect) -> [u32; 4] {
   [
-    area.p.y as u16,
-    area.p.x as u16,
-    area.p.y as u16 + area.d.h as u16,
-    area.p.x as u16 + area.d.w as u16,
+    area.p.y as u32,
+    area.p.x as u32,
+    (area.p.y + area.d.h) as u32,
+    (area.p.x + area.d.w) as u32,
   ]
   /*
   [
diff --git a/rawler/src/dng/writer.rs b/rawler/src/dng/writer.rs
index a427fb6..677b403 100644
--- a/rawler/src/dng/writer.rs
+++ b/rawler/src/dng/writer.rs
@@ -200,9 +200,9 @@ where
         assert!(crop.p.y >= active_area.p.y);
         self.ifd_mut().add_tag(
           DngTag::DefaultCropOrigin,
-          [(crop.p.x - active_area.p.x) as u16, (crop.p.y - active_area.p.y) as u16],
+          [(crop.p.x - active_area.p.x) as u32, (crop.p.y - active_area.p.y) as u32],
         );
-        self.ifd_mut().add_tag(DngTag::DefaultCropSize, [crop.d.w as u16, crop.d.h as u16]);
+        self.ifd_mut().add_tag(DngTag::DefaultCropSize, [crop.d.w as u32, crop.d.h as u32]);
       }
       CropMode::Best => {
         let crop = rawimage.crop_area.unwrap_or(active_area);
@@ -210,9 +210,9 @@ where
         assert!(crop.p.y >= active_area.p.y);
         self.ifd_mut().add_tag(
           DngTag::DefaultCropOrigin,
-          [(crop.p.x - active_area.p.x) as u16, (crop.p.y - active_area.p.y) as u16],
+          [(crop.p.x - active_area.p.x) as u32, (crop.p.y - active_area.p.y) as u32],
         );
-        self.ifd_mut().add_tag(DngTag::DefaultCropSize, [crop.d.w as u16, crop.d.h as u16]);
+        self.ifd_mut().add_tag(DngTag::DefaultCropSize, [crop.d.w as u32, crop.d.h as u32]);
       }
       CropMode::None => {}
     }
@@ -267,7 +267,7 @@ where
     }
 
     if !rawimage.blackareas.is_empty() {
-      let data: Vec<u16> = rawimage.blackareas.iter().flat_map(rect_to_dng_area).collect();
+      let data: Vec<u32> = rawimage.blackareas.iter().flat_map(rect_to_dng_area).collect();
       self.ifd_mut().add_tag(DngTag::MaskedAreas, &data);
     }
 
-- 
2.43.0


From f7fbc503d262f606f4189bfa729032b95a044f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:11 +0000
Subject: [PATCH 27/84] fix: DNG writer: CFARepeatPatternDim is rows, columns

---
 rawler/src/dng/writer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rawler/src/dng/writer.rs b/rawler/src/dng/writer.rs
index 677b403..3e168da 100644
--- a/rawler/src/dng/writer.rs
+++ b/rawler/src/dng/writer.rs
@@ -284,7 +284,7 @@ where
         let cfa = config.cfa.shift(active_area.p.x, active_area.p.y);
         self
           .ifd_mut()
-          .add_tag(TiffCommonTag::CFARepeatPatternDim, [cfa.width as u16, cfa.height as u16]);
+          .add_tag(TiffCommonTag::CFARepeatPatternDim, [cfa.height as u16, cfa.width as u16]);
         self.ifd_mut().add_tag(TiffCommonTag::CFAPattern, &cfa.flat_pattern()[..]);
         self.ifd_mut().add_tag(TiffCommonTag::PhotometricInt, PhotometricInterpretation::CFA);
         self.ifd_mut().add_tag(DngTag::CFAPlaneColor, &config.colors);
-- 
2.43.0


From b26e7165a2f2d2ff219d0672e9a5b0f6d7e1636b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:22 +0000
Subject: [PATCH 28/84] fix: develop: TIFF dimensions beyond 65535 are not
 truncated

---
 rawler/src/imgop/develop.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/rawler/src/imgop/develop.rs b/rawler/src/imgop/develop.rs
index 96d7e44..ac56b82 100644
--- a/rawler/src/imgop/develop.rs
+++ b/rawler/src/imgop/develop.rs
@@ -365,8 +365,8 @@ impl RawDevelop {
         root_ifd.add_tag(TiffCommonTag::SamplesPerPixel, [1_u16]);
         root_ifd.add_tag(TiffCommonTag::PhotometricInt, [1_u16]);
         root_ifd.add_tag(TiffCommonTag::RowsPerStrip, strip_rows);
-        root_ifd.add_tag(TiffCommonTag::ImageWidth, pixels.width as u16);
-        root_ifd.add_tag(TiffCommonTag::ImageLength, pixels.height as u16);
+        root_ifd.add_tag(TiffCommonTag::ImageWidth, pixels.width as u32);
+        root_ifd.add_tag(TiffCommonTag::ImageLength, pixels.height as u32);
       }
       Intermediate::ThreeColor(pixels) => {
         let data = convert_from_f32_scaled_u16(&pixels.flatten(), 0, u16::MAX);
@@ -381,8 +381,8 @@ impl RawDevelop {
         root_ifd.add_tag(TiffCommonTag::SamplesPerPixel, [3_u16]);
         root_ifd.add_tag(TiffCommonTag::PhotometricInt, [2_u16]);
         root_ifd.add_tag(TiffCommonTag::RowsPerStrip, strip_rows);
-        root_ifd.add_tag(TiffCommonTag::ImageWidth, pixels.width as u16);
-        root_ifd.add_tag(TiffCommonTag::ImageLength, pixels.height as u16);
+        root_ifd.add_tag(TiffCommonTag::ImageWidth, pixels.width as u32);
+        root_ifd.add_tag(TiffCommonTag::ImageLength, pixels.height as u32);
       }
       Intermediate::FourColor(pixels) => {
         let data = convert_from_f32_scaled_u16(&pixels.flatten(), 0, u16::MAX);
@@ -397,8 +397,8 @@ impl RawDevelop {
         root_ifd.add_tag(TiffCommonTag::SamplesPerPixel, [4_u16]);
         root_ifd.add_tag(TiffCommonTag::PhotometricInt, [2_u16]);
         root_ifd.add_tag(TiffCommonTag::RowsPerStrip, strip_rows);
-        root_ifd.add_tag(TiffCommonTag::ImageWidth, pixels.width as u16);
-        root_ifd.add_tag(TiffCommonTag::ImageLength, pixels.height as u16);
+        root_ifd.add_tag(TiffCommonTag::ImageWidth, pixels.width as u32);
+        root_ifd.add_tag(TiffCommonTag::ImageLength, pixels.height as u32);
       }
     }
 
-- 
2.43.0


From 68f10a4dfdec20d3cec3ef34cf94a4a66d446939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:14 +0000
Subject: [PATCH 29/84] fix: DNG decoder: the default white level of floating
 point images is 1.0

---
 rawler/src/decoders/dng.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rawler/src/decoders/dng.rs b/rawler/src/decoders/dng.rs
index ccebdb1..53f5685 100644
--- a/rawler/src/decoders/dng.rs
+++ b/rawler/src/decoders/dng.rs
@@ -57,7 +57,13 @@ impl<'a> Decoder for DngDecoder<'a> {
     }
 
     let blacklevel = self.get_blacklevels(raw)?;
-    let whitelevel = self.get_whitelevels(raw)?.or(Some(WhiteLevel::new_bits(bits, cpp)));
+    let whitelevel = self.get_whitelevels(raw)?.or_else(|| {
+      // By DNG specification, the default is 1.0 for floating point images
+      match SampleFormat::extract(raw) {
+        Ok(Some(SampleFormat::IEEEFP)) => Some(WhiteLevel::new(vec![1; cpp])),
+        _ => Some(WhiteLevel::new_bits(bits, cpp)),
+      }
+    });
 
     let photometric = match fetch_tiff_tag!(raw, TiffCommonTag::PhotometricInt).force_u32(0) {
       1 => RawPhotometricInterpretation::BlackIsZero,
-- 
2.43.0


From 9acefcc50e1b16dd6c822964380e917eb19180f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:14 +0000
Subject: [PATCH 30/84] fix: DNG writer: floats are scaled by their white level
 when stored as integers

---
 rawler/src/dng/writer.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/rawler/src/dng/writer.rs b/rawler/src/dng/writer.rs
index 3e168da..f030ce9 100644
--- a/rawler/src/dng/writer.rs
+++ b/rawler/src/dng/writer.rs
@@ -146,10 +146,19 @@ where
   fn write_rawimage(&mut self, mut rawimage: Cow<RawImage>, cropmode: CropMode, compression: DngCompression, predictor: u8) -> Result<()> {
     if compression == DngCompression::Lossless && matches!(rawimage.data, RawImageData::Float(_)) {
       // Lossless (LJPEG92) can only be used for 16 bit integer data.
-      // If we have floats, convert them.
-      rawimage.to_mut().data.force_integer();
-      rawimage.to_mut().whitelevel.0.iter_mut().for_each(|x| *x = u16::MAX as u32);
-      rawimage.to_mut().bps = 16; // Reset bps as intgers are scaled to u16 range.
+      // If we have floats, convert them so that the white level becomes 65535.
+      let rawimage = rawimage.to_mut();
+      let scale: Vec<f32> = rawimage.whitelevel.0.iter().map(|white| u16::MAX as f32 / (*white).max(1) as f32).collect();
+      if let RawImageData::Float(data) = &rawimage.data {
+        rawimage.data = RawImageData::Integer(data.iter().enumerate().map(|(i, p)| (p * scale[i % scale.len()]) as u16).collect());
+      }
+      rawimage.blacklevel.levels.iter_mut().enumerate().for_each(|(i, black)| {
+        if black.n != 0 {
+          *black = Rational::new_f32(black.as_f32() * scale[i % scale.len()], 1000);
+        }
+      });
+      rawimage.whitelevel.0.iter_mut().for_each(|x| *x = u16::MAX as u32);
+      rawimage.bps = 16; // Reset bps as intgers are scaled to u16 range.
     }
 
     if rawimage.cpp > 1 || matches!(rawimage.photometric, RawPhotometricInterpretation::Cfa(_)) {
-- 
2.43.0


From cb4ae1ea7704e5037a92f0c59c8485043020a5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:02 +0000
Subject: [PATCH 31/84] fix: rescaling covers monochrome images, odd dimensions
 and all black level patterns

---
 rawler/src/imgop/raw.rs | 18 ++++++++++++++++++
 rawler/src/rawimage.rs  | 15 +++++++++------
 2 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/rawler/src/imgop/raw.rs b/rawler/src/imgop/raw.rs
index bc49b0c..1182eba 100644
--- a/rawler/src/imgop/raw.rs
+++ b/rawler/src/imgop/raw.rs
@@ -189,6 +189,24 @@ pub fn correct_blacklevel_cfa(raw: &mut [f32], width: usize, _height: usize, bla
   });
 }
 
+/// Correct data by blacklevel and whitelevel for any black level repeat pattern,
+/// image dimension and sample count.
+///
+/// The output is between 0.0 .. 1.0.
+pub fn correct_blacklevel_pattern(raw: &mut [f32], width: usize, cpp: usize, blacklevel: &BlackLevel, whitelevel: &WhiteLevel) {
+  let black = blacklevel.as_vec();
+  let white = whitelevel.as_vec();
+  raw.par_chunks_exact_mut(width * cpp).enumerate().for_each(|(row, line)| {
+    let pattern_row = (row % blacklevel.height) * blacklevel.width;
+    line.iter_mut().enumerate().for_each(|(i, p)| {
+      let (col, sample) = (i / cpp, i % cpp);
+      let black = black[(pattern_row + col % blacklevel.width) * blacklevel.cpp + sample % blacklevel.cpp];
+      let v = *p - black;
+      *p = if v.is_sign_negative() { 0.0 } else { v } / (white[sample % white.len()] - black);
+    });
+  });
+}
+
 #[multiversion(targets("x86_64+avx+avx2", "x86+sse", "aarch64+neon"))]
 pub(crate) fn map_3ch_to_rgb(src: &Color2D<f32, 3>, wb_coeff: &[f32; 4], xyz2cam: [[f32; 3]; 4]) -> RgbF32 {
   let rgb2cam = normalize(multiply(&xyz2cam, &SRGB_TO_XYZ_D65));
diff --git a/rawler/src/rawimage.rs b/rawler/src/rawimage.rs
index 510f2e7..052fcff 100644
--- a/rawler/src/rawimage.rs
+++ b/rawler/src/rawimage.rs
@@ -9,7 +9,7 @@ use serde::{Deserialize, Serialize};
 
 use crate::Result;
 use crate::cfa::PlaneColor;
-use crate::imgop::raw::{correct_blacklevel, correct_blacklevel_cfa};
+use crate::imgop::raw::{correct_blacklevel, correct_blacklevel_cfa, correct_blacklevel_pattern};
 use crate::imgop::sensor::SensorType;
 use crate::imgop::{convert_from_f32_scaled_u16, convert_to_f32_unscaled};
 use crate::pixarray::SubPixel;
@@ -518,9 +518,12 @@ impl RawImage {
   /// Internal blacklevel and whitelevel is reset to 0.0 and 1.0 to match image data.
   pub fn apply_scaling(&mut self) -> crate::Result<()> {
     let mut pixels = self.data.as_f32();
+    // Bayer data with a full 2x2 (or uniform) black level is processed in blocks of two lines,
+    // everything else (odd dimensions, other repeat patterns) sample by sample.
+    let bayer_blocks =
+      self.width % 2 == 0 && self.height % 2 == 0 && (self.blacklevel.levels.len() == 1 || (self.blacklevel.width, self.blacklevel.height) == (2, 2));
     match &self.photometric {
-      RawPhotometricInterpretation::BlackIsZero => todo!(),
-      RawPhotometricInterpretation::Cfa(_) => {
+      RawPhotometricInterpretation::Cfa(_) if bayer_blocks => {
         correct_blacklevel_cfa(
           pixels.to_mut(),
           self.width,
@@ -528,13 +531,13 @@ impl RawImage {
           &self.blacklevel.as_bayer_array(),
           &self.whitelevel.as_bayer_array(),
         );
-        self.data = RawImageData::Float(pixels.into_owned());
       }
-      RawPhotometricInterpretation::LinearRaw => {
+      RawPhotometricInterpretation::LinearRaw | RawPhotometricInterpretation::BlackIsZero if self.blacklevel.levels.len() == self.whitelevel.0.len() => {
         correct_blacklevel(pixels.to_mut(), &self.blacklevel.as_vec(), &self.whitelevel.as_vec());
-        self.data = RawImageData::Float(pixels.into_owned());
       }
+      _ => correct_blacklevel_pattern(pixels.to_mut(), self.width, self.cpp, &self.blacklevel, &self.whitelevel),
     }
+    self.data = RawImageData::Float(pixels.into_owned());
     self.blacklevel.levels.iter_mut().for_each(|x| *x = Rational::new(0, 1));
     self.whitelevel.0.iter_mut().for_each(|x| *x = 1);
     Ok(())
-- 
2.43.0


From e64cc2db8bc15ca97cfa32efa06fc270e6117710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:13 +0000
Subject: [PATCH 32/84] fix: develop: active area crop of monochrome and linear
 images

---
 rawler/src/imgop/develop.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/rawler/src/imgop/develop.rs b/rawler/src/imgop/develop.rs
index ac56b82..55476d2 100644
--- a/rawler/src/imgop/develop.rs
+++ b/rawler/src/imgop/develop.rs
@@ -223,7 +223,15 @@ impl RawDevelop {
             intermediate
           }
         }
-        _ => intermediate,
+        // Nothing to demosaic, but the active area crop still has to be applied
+        _ => match rawimage.active_area {
+          Some(area) if self.steps.contains(&ProcessingStep::CropActiveArea) => match intermediate {
+            Intermediate::Monochrome(pixels) => Intermediate::Monochrome(pixels.crop(area)),
+            Intermediate::ThreeColor(pixels) => Intermediate::ThreeColor(pixels.crop(area)),
+            Intermediate::FourColor(pixels) => Intermediate::FourColor(pixels.crop(area)),
+          },
+          _ => intermediate,
+        },
       };
     }
 
-- 
2.43.0


From 7824f939bc8ada5e48f62163714e2cf274b27144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:50 +0000
Subject: [PATCH 33/84] fix: TIFF: strip and tile offsets and byte counts may
 be SHORT

---
 rawler/src/formats/tiff/ifd.rs | 33 +++++++++++++--------------------
 1 file changed, 13 insertions(+), 20 deletions(-)

diff --git a/rawler/src/formats/tiff/ifd.rs b/rawler/src/formats/tiff/ifd.rs
index 5b5239a..6534da9 100644
--- a/rawler/src/formats/tiff/ifd.rs
+++ b/rawler/src/formats/tiff/ifd.rs
@@ -501,6 +501,15 @@ impl IFD {
     Ok(rawsource.subview((self.base + offset) as u64, len as u64)?)
   }
 
+  /// Values of a tag for which the TIFF specification allows SHORT and LONG
+  fn short_or_long(&self, tag: TiffCommonTag) -> Result<Vec<u32>> {
+    match self.get_entry(tag).map(|entry| &entry.value) {
+      Some(Value::Long(data)) => Ok(data.clone()),
+      Some(Value::Short(data)) => Ok(data.iter().copied().map(u32::from).collect()),
+      _ => Err(TiffError::General(format!("Invalid datatype for {:?}", tag))),
+    }
+  }
+
   /// Return byte slices to strip data.
   /// If there exists a single strip only or if all strips are continous,
   /// the second return value contains the whole strip data in a single slice.
@@ -508,16 +517,8 @@ impl IFD {
     if !self.has_entry(TiffCommonTag::StripOffsets) {
       return Err(TiffError::General("IFD contains no strip data".into()));
     }
-    let offsets = if let Some(Entry { value: Value::Long(data), .. }) = self.get_entry(TiffCommonTag::StripOffsets) {
-      data
-    } else {
-      return Err(TiffError::General("Invalid datatype for StripOffsets".to_string()));
-    };
-    let sizes = if let Some(Entry { value: Value::Long(data), .. }) = self.get_entry(TiffCommonTag::StripByteCounts) {
-      data
-    } else {
-      return Err(TiffError::General("Invalid datatype for StripByteCounts".to_string()));
-    };
+    let offsets = self.short_or_long(TiffCommonTag::StripOffsets)?;
+    let sizes = self.short_or_long(TiffCommonTag::StripByteCounts)?;
 
     if offsets.len() != sizes.len() {
       return Err(TiffError::General(format!(
@@ -551,17 +552,9 @@ impl IFD {
   }
 
   pub fn tile_data<'a>(&self, rawsource: &'a RawSource) -> Result<Vec<&'a [u8]>> {
-    let offsets = if let Some(Entry { value: Value::Long(data), .. }) = self.get_entry(TiffCommonTag::TileOffsets) {
-      data
-    } else {
-      return Err(TiffError::General("Invalid datatype for TileOffsets".to_string()));
-    };
+    let offsets = self.short_or_long(TiffCommonTag::TileOffsets)?;
 
-    let byte_counts = if let Some(Entry { value: Value::Long(data), .. }) = self.get_entry(TiffCommonTag::TileByteCounts) {
-      data
-    } else {
-      return Err(TiffError::General("Invalid datatype for TileByteCounts".to_string()));
-    };
+    let byte_counts = self.short_or_long(TiffCommonTag::TileByteCounts)?;
 
     let mut tile_slices = Vec::with_capacity(offsets.len());
     offsets.iter().zip(byte_counts.iter()).for_each(|(offset, size)| {
-- 
2.43.0


From a31c4740920efe7e84a7f4700a6620484d00cd3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:21 +0000
Subject: [PATCH 34/84] fix: lookup tables with steep or falling steps neither
 overflow nor wrap around

---
 rawler/src/bits.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/rawler/src/bits.rs b/rawler/src/bits.rs
index bf2a1de..083b8a2 100644
--- a/rawler/src/bits.rs
+++ b/rawler/src/bits.rs
@@ -209,19 +209,19 @@ pub fn LEu16(buf: &[u8], pos: usize) -> u16 {
 
 #[derive(Debug, Clone)]
 pub struct LookupTable {
-  table: Vec<(u16, u16, u16)>,
+  table: Vec<(u16, i32, i32)>,
 }
 
 impl LookupTable {
   pub fn new(table: &[u16]) -> LookupTable {
     let mut tbl = vec![(0, 0, 0); table.len()];
     for i in 0..table.len() {
-      let center = table[i];
-      let lower = if i > 0 { table[i - 1] } else { center };
-      let upper = if i < (table.len() - 1) { table[i + 1] } else { center };
+      let center = table[i] as i32;
+      let lower = if i > 0 { table[i - 1] as i32 } else { center };
+      let upper = if i < (table.len() - 1) { table[i + 1] as i32 } else { center };
       let base = if center == 0 { 0 } else { center - ((upper - lower + 2) / 4) };
       let delta = upper - lower;
-      tbl[i] = (center, base, delta);
+      tbl[i] = (table[i], base, delta);
     }
     LookupTable { table: tbl }
   }
@@ -245,12 +245,10 @@ impl LookupTable {
 
   #[inline(always)]
   pub fn dither(&self, value: u16, rand: &mut u32) -> u16 {
-    let (_, sbase, sdelta) = self.table[value as usize];
-    let base = sbase as u32;
-    let delta = sdelta as u32;
-    let pixel = base + ((delta * (*rand & 2047) + 1024) >> 12);
+    let (_, base, delta) = self.table[value as usize];
+    let pixel = base + ((delta * (*rand & 2047) as i32 + 1024) >> 12);
     *rand = 15700 * (*rand & 65535) + (*rand >> 16);
-    pixel as u16
+    pixel.clamp(0, u16::MAX as i32) as u16
   }
 }
 
-- 
2.43.0


From d97486b5eca3e338ab3bec965c242e70b11e8a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:21 +0000
Subject: [PATCH 35/84] fix: linearization tables apply to images of a single
 column

---
 rawler/src/decoders/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rawler/src/decoders/mod.rs b/rawler/src/decoders/mod.rs
index 8d576b4..5768663 100644
--- a/rawler/src/decoders/mod.rs
+++ b/rawler/src/decoders/mod.rs
@@ -21,7 +21,6 @@ use std::rc::Rc;
 use std::str::FromStr;
 use std::sync::Arc;
 use std::time::SystemTime;
-use zerocopy::IntoBytes;
 
 use crate::Result;
 use crate::alloc_image_ok;
@@ -809,7 +808,9 @@ pub(crate) fn apply_linearization(image: &mut PixU16, tbl: &Value, bits: u32) {
       }
       let table = LookupTable::new_with_bits(points, bits);
       image.par_pixel_rows_mut().for_each(|row| {
-        let mut random = LEu32(row.as_bytes(), 0);
+        // The first two samples seed the dithering, a row may be narrower
+        let seed = |col: usize| row.get(col).copied().unwrap_or(0) as u32;
+        let mut random = seed(1) << 16 | seed(0);
         row.iter_mut().for_each(|p| {
           *p = table.dither(*p, &mut random);
         })
-- 
2.43.0


From 35cec645a7e2f1e0c8b6e50d75d7cb062fc28192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:35 +0000
Subject: [PATCH 36/84] fix: DNG decoder: row and column interleaving for all
 factors, odd dimensions and multiple samples per pixel

---
 rawler/src/decoders/mod.rs | 11 +++--------
 rawler/src/pixarray.rs     | 30 ++++++++++++++++++++++++++++++
 2 files changed, 33 insertions(+), 8 deletions(-)

diff --git a/rawler/src/decoders/mod.rs b/rawler/src/decoders/mod.rs
index 5768663..35fbc71 100644
--- a/rawler/src/decoders/mod.rs
+++ b/rawler/src/decoders/mod.rs
@@ -56,7 +56,7 @@ use crate::lens::LensDescription;
 use crate::pixarray::Pix2D;
 use crate::pixarray::PixU16;
 use crate::pixarray::SubPixel;
-use crate::pixarray::deinterleave2x2;
+use crate::pixarray::deinterleave;
 use crate::rawsource::RawSource;
 use crate::tags::DngTag;
 use crate::tiles::TilesMut;
@@ -660,13 +660,8 @@ pub fn plain_image_from_ifd(ifd: &IFD, rawsource: &RawSource) -> Result<RawImage
       // DNG 1.7.1 may store JPEG-XL data in interleaved format
       let col_ilf = ifd.get_entry(DngTag::ColumnInterleaveFactor).map(|tag| tag.force_u16(0)).unwrap_or(1);
       let row_ilf = ifd.get_entry(DngTag::RowInterleaveFactor).map(|tag| tag.force_u16(0)).unwrap_or(1);
-      match (row_ilf, col_ilf) {
-        (1, 1) => {}
-        (2, 2) => {
-          // Make sure pixbuf is properly cropped (e.g. LJPEG padding)
-          pixbuf = deinterleave2x2(&pixbuf)?;
-        }
-        _ => todo!(),
+      if (row_ilf, col_ilf) != (1, 1) {
+        pixbuf = deinterleave(&pixbuf, cpp, row_ilf as usize, col_ilf as usize)?;
       }
       return Ok(RawImageData::Integer(pixbuf.into_inner()));
     }
diff --git a/rawler/src/pixarray.rs b/rawler/src/pixarray.rs
index 9f46fac..4d1d303 100644
--- a/rawler/src/pixarray.rs
+++ b/rawler/src/pixarray.rs
@@ -275,6 +275,36 @@ where
   }
 }
 
+/// Reverse row and column interleaving (DNG tags RowInterleaveFactor and
+/// ColumnInterleaveFactor): the fields of an interleaved dimension are stored
+/// one after the other.
+pub(crate) fn deinterleave<T>(pixbuf: &Pix2D<T>, cpp: usize, row_factor: usize, col_factor: usize) -> std::result::Result<Pix2D<T>, String>
+where
+  T: SubPixel,
+{
+  if row_factor == 0 || col_factor == 0 || cpp == 0 {
+    return Err(format!("Invalid interleave factors {row_factor}x{col_factor}"));
+  }
+  if !pixbuf.initialized || (row_factor, col_factor) == (1, 1) {
+    return Ok(pixbuf.clone());
+  }
+  if (row_factor, col_factor, cpp) == (2, 2, 1) && pixbuf.width % 2 == 0 && pixbuf.height % 2 == 0 {
+    return deinterleave2x2(pixbuf);
+  }
+  let width = pixbuf.width / cpp;
+  // Where in the stored dimension is the sample for index?
+  let stored = |index: usize, factor: usize, len: usize| (0..index % factor).map(|field| (len - field).div_ceil(factor)).sum::<usize>() + index / factor;
+  let columns: Vec<usize> = (0..width).map(|col| stored(col, col_factor, width)).collect();
+  decompress_lines_fn(pixbuf.width, pixbuf.height, false, &|line, row| {
+    let src = pixbuf.row(stored(row, row_factor, pixbuf.height));
+    line
+      .chunks_exact_mut(cpp)
+      .zip(columns.iter())
+      .for_each(|(dst, col)| dst.copy_from_slice(&src[col * cpp..(col + 1) * cpp]));
+    Ok(())
+  })
+}
+
 /*
 impl<T> Index<usize> for Pix2D<T> {
   type Output = T;
-- 
2.43.0


From a8e8e60c76ed03c783e1aae6814ff99eb560347a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:51 +0000
Subject: [PATCH 37/84] fix: deflate: subnormal 32 bit floats are kept

---
 rawler/src/bits.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rawler/src/bits.rs b/rawler/src/bits.rs
index 083b8a2..7f4c754 100644
--- a/rawler/src/bits.rs
+++ b/rawler/src/bits.rs
@@ -316,6 +316,10 @@ pub(crate) type Binary24 = BinaryN<24, 16, 7>;
 pub(crate) type Binary32 = BinaryN<32, 23, 8>;
 
 pub(crate) fn extend_binary_floating_point<NARROW: FloatingPointParameters, WIDE: FloatingPointParameters>(value: u32) -> u32 {
+  if NARROW::STORAGE_WIDTH == WIDE::STORAGE_WIDTH {
+    // Nothing to extend, subnormal numbers have no normalized form here.
+    return value;
+  }
   let sign = (value >> NARROW::SIGN_BIT_POS) & 1;
   let narrow_exponent = (value >> NARROW::EXPONENT_POS) & ((1 << NARROW::EXPONENT_WIDTH) - 1);
   let narrow_fraction = value & ((1 << NARROW::FRACTION_WIDTH) - 1);
-- 
2.43.0


From fb15a4c8980928c4876ee5e8c203ca2aaf9b7379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:26 +0000
Subject: [PATCH 38/84] fix: DNG decoder: CFA and black level patterns are
 relative to the active area, repeat dimensions are honoured

---
 rawler/src/cfa.rs          | 13 +++++++++++++
 rawler/src/decoders/dng.rs | 21 +++++++++++++++++----
 2 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/rawler/src/cfa.rs b/rawler/src/cfa.rs
index 1629410..1f96214 100644
--- a/rawler/src/cfa.rs
+++ b/rawler/src/cfa.rs
@@ -106,6 +106,19 @@ impl CFA {
     CFA::new(&patname)
   }
 
+  #[doc(hidden)]
+  pub fn new_from_tag_with_dim(pat: &Value, width: usize, height: usize) -> Result<CFA, String> {
+    let cfa = match (width, height) {
+      (2, 2) | (6, 6) | (2, 8) | (12, 12) if pat.count() as usize == width * height => return Ok(CFA::new_from_tag(pat)),
+      // All other patterns are repeated until they have a supported size
+      (w @ 1..=12, h @ 1..=12) if 12 % w == 0 && 12 % h == 0 && pat.count() as usize == w * h => {
+        Value::Byte((0..144).map(|i| pat.force_u32((i / 12 % h) * w + i % 12 % w) as u8).collect())
+      }
+      _ => return Err(format!("Unsupported CFA pattern: {}x{} with {} values", width, height, pat.count())),
+    };
+    Ok(CFA::new_from_tag(&cfa))
+  }
+
   /// Create a new CFA from a string describing it. For simplicity the pattern is specified
   /// as each pixel being one of R/G/B/E representing the 0/1/2/3 colors in a 4 color image.
   /// The pattern is specified as the colors in each row concatenated so RGGB means that
diff --git a/rawler/src/decoders/dng.rs b/rawler/src/decoders/dng.rs
index 53f5685..eb4a507 100644
--- a/rawler/src/decoders/dng.rs
+++ b/rawler/src/decoders/dng.rs
@@ -296,7 +296,9 @@ impl<'a> DngDecoder<'a> {
 
   fn get_wb(&self, cam: &Camera) -> Result<[f32; 4]> {
     if let Some(levels) = self.tiff.get_entry(DngTag::AsShotNeutral) {
-      Ok([1.0 / levels.force_f32(0), 1.0 / levels.force_f32(1), 1.0 / levels.force_f32(2), f32::NAN])
+      let mut wb = [f32::NAN; 4];
+      wb.iter_mut().take(levels.count() as usize).enumerate().for_each(|(i, x)| *x = 1.0 / levels.force_f32(i));
+      Ok(wb)
     } else if let Some(levels) = self.tiff.get_entry(DngTag::AsShotWhiteXY) {
       // TODO: improve once AnalogBalance and CC is properly implemented
       if let Some(flat_colormatrix) = cam.color_matrix.get(&Illuminant::D65)
@@ -333,7 +335,15 @@ impl<'a> DngDecoder<'a> {
           log::warn!("File has BlackLevelRepeatDim tag but with invalid length: {}", value.len());
         }
       }
-      Ok(Some(BlackLevel::new(&levels, repeat.1, repeat.0, cpp)))
+      let blacklevel = BlackLevel::new(&levels, repeat.1, repeat.0, cpp);
+      // Same as for the CFA pattern, the tag is relative to ActiveArea but
+      // we use (0, 0) as starting point.
+      if let Some([top, left, ..]) = self.get_active_area_borders(raw) {
+        let (w, h) = (blacklevel.width, blacklevel.height);
+        Ok(Some(blacklevel.shift(w - left % w, h - top % h)))
+      } else {
+        Ok(Some(blacklevel))
+      }
     } else {
       Ok(None)
     }
@@ -354,14 +364,17 @@ impl<'a> DngDecoder<'a> {
 
   fn get_cfa(&self, raw: &IFD) -> Result<CFA> {
     let pattern = fetch_tiff_tag!(raw, TiffCommonTag::CFAPattern);
-    let cfa = CFA::new_from_tag(pattern);
+    let cfa = match raw.get_entry(TiffCommonTag::CFARepeatPatternDim) {
+      Some(dim) if dim.count() == 2 => CFA::new_from_tag_with_dim(pattern, dim.force_usize(1), dim.force_usize(0))?,
+      _ => CFA::new_from_tag(pattern),
+    };
     // If DNG has active area, we need to calulate back the CFA pattern,
     // because for DNG the CFAPattern is relative to ActiveArea and we
     // use (0, 0) as starting point.
     if let Some(active_area) = self.get_active_area_borders(raw) {
       let top = active_area[0];
       let left = active_area[1];
-      Ok(cfa.shift(left % cfa.width, top % cfa.height))
+      Ok(cfa.shift(cfa.width - left % cfa.width, cfa.height - top % cfa.height))
     } else {
       Ok(cfa)
     }
-- 
2.43.0


From b58c72ce8c2dd0c02ef6ad812db15f7249b5b7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:49 +0000
Subject: [PATCH 39/84] fix: DNG writer: matrices and white balance are
 rounded, not truncated

---
 rawler/src/dng/writer.rs         | 2 +-
 rawler/src/formats/tiff/value.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/rawler/src/dng/writer.rs b/rawler/src/dng/writer.rs
index f030ce9..7d46d4a 100644
--- a/rawler/src/dng/writer.rs
+++ b/rawler/src/dng/writer.rs
@@ -559,7 +559,7 @@ fn wbcoeff_to_tiff_value(rawimage: &RawImage) -> Vec<Rational> {
 }
 
 fn matrix_to_tiff_value(xyz_to_cam: &[f32], d: i32) -> Vec<SRational> {
-  xyz_to_cam.iter().map(|a| SRational::new((a * d as f32) as i32, d)).collect()
+  xyz_to_cam.iter().map(|a| SRational::new((a * d as f32).round() as i32, d)).collect()
 }
 
 /// Compress RAW image with LJPEG-92
diff --git a/rawler/src/formats/tiff/value.rs b/rawler/src/formats/tiff/value.rs
index ec5e4c4..ca02b70 100644
--- a/rawler/src/formats/tiff/value.rs
+++ b/rawler/src/formats/tiff/value.rs
@@ -251,11 +251,11 @@ impl Rational {
   }
 
   pub fn new_f32(n: f32, d: u32) -> Self {
-    Self::new((n * d as f32) as u32, d)
+    Self::new((n * d as f32).round() as u32, d)
   }
 
   pub fn new_f64(n: f64, d: u32) -> Self {
-    Self::new((n * d as f64) as u32, d)
+    Self::new((n * d as f64).round() as u32, d)
   }
 
   pub fn as_f32(&self) -> f32 {
-- 
2.43.0


From f98f2adf8789e9d6622d8e7f7a75ec5f294ffa1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:03 +0000
Subject: [PATCH 40/84] fix: DNG writer: the choice of the first color matrix
 does not depend on hash order

---
 rawler/src/dng/writer.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rawler/src/dng/writer.rs b/rawler/src/dng/writer.rs
index 7d46d4a..51d3e2e 100644
--- a/rawler/src/dng/writer.rs
+++ b/rawler/src/dng/writer.rs
@@ -165,10 +165,9 @@ where
       self.writer.as_shot_neutral(wbcoeff_to_tiff_value(&rawimage));
       // Add matrix and illumninant
       let mut available_matrices = rawimage.color_matrix.clone();
-      if let Some(first_key) = available_matrices.keys().next().cloned() {
+      if let Some(first_key) = available_matrices.keys().min().cloned() {
         let first_matrix = available_matrices
           .remove_entry(&Illuminant::A)
-          .or_else(|| available_matrices.remove_entry(&Illuminant::A))
           .or_else(|| available_matrices.remove_entry(&first_key))
           .expect("No matrix found");
         self
-- 
2.43.0


From 897fe9650feb8674b6cdfcd2f9d9bfe2986e1611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:13 +0000
Subject: [PATCH 41/84] fix: DNG writer: white balance of linear images with
 two or four planes, no incomplete AsShotNeutral

---
 rawler/src/dng/writer.rs | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/rawler/src/dng/writer.rs b/rawler/src/dng/writer.rs
index 51d3e2e..fff61a9 100644
--- a/rawler/src/dng/writer.rs
+++ b/rawler/src/dng/writer.rs
@@ -395,7 +395,7 @@ where
 
   pub fn as_shot_neutral(&mut self, wb: impl AsRef<[Rational]>) {
     // Only write tag if wb is valid
-    if wb.as_ref()[0].n != 0 {
+    if wb.as_ref().iter().all(|x| x.n != 0) {
       self.root_ifd.add_tag(DngTag::AsShotNeutral, wb.as_ref());
     }
   }
@@ -544,14 +544,7 @@ fn wbcoeff_to_tiff_value(rawimage: &RawImage) -> Vec<Rational> {
         1 => {
           vec![Rational::new(1, 1)]
         }
-        3 => {
-          let mut values = Vec::with_capacity(3);
-          values.push(Rational::new_f32(1.0 / wb[0], 100000));
-          values.push(Rational::new_f32(1.0 / wb[1], 100000));
-          values.push(Rational::new_f32(1.0 / wb[2], 100000));
-          values
-        }
-        _ => todo!(),
+        cpp => wb.iter().take(cpp).map(|x| Rational::new_f32(1.0 / x, 100000)).collect(),
       }
     }
   }
-- 
2.43.0


From 2693bb0c0ef50b41415f52ff336aa7ff800d3c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:02 +0000
Subject: [PATCH 42/84] fix: convert: DNG calibration tags are read from and
 written to IFD 0, keeping their numbering

---
 rawler/src/decoders/dng.rs | 27 +++++++++++++++++++++------
 rawler/src/dng/convert.rs  |  2 +-
 2 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/rawler/src/decoders/dng.rs b/rawler/src/decoders/dng.rs
index eb4a507..76a651c 100644
--- a/rawler/src/decoders/dng.rs
+++ b/rawler/src/decoders/dng.rs
@@ -150,16 +150,31 @@ impl<'a> Decoder for DngDecoder<'a> {
         IFD::copy_tag(&mut ifd, self.get_raw_ifd()?, DngTag::AntiAliasStrength);
         IFD::copy_tag(&mut ifd, self.get_raw_ifd()?, DngTag::NoiseReductionApplied);
         IFD::copy_tag(&mut ifd, self.get_raw_ifd()?, DngTag::ProfileGainTableMap);
-        IFD::copy_tag(&mut ifd, self.get_raw_ifd()?, DngTag::CameraCalibration1);
-        IFD::copy_tag(&mut ifd, self.get_raw_ifd()?, DngTag::CameraCalibration2);
-        IFD::copy_tag(&mut ifd, self.get_raw_ifd()?, DngTag::CameraCalibration3);
-        IFD::copy_tag(&mut ifd, self.get_raw_ifd()?, DngTag::ForwardMatrix1);
-        IFD::copy_tag(&mut ifd, self.get_raw_ifd()?, DngTag::ForwardMatrix2);
-        IFD::copy_tag(&mut ifd, self.get_raw_ifd()?, DngTag::ForwardMatrix3);
         Some(Rc::new(ifd))
       }
       WellKnownIFD::VirtualDngRootTags => {
         let mut ifd = IFD::default();
+        // The calibration matrices belong to the profile data, numbering must not change
+        IFD::copy_tag(&mut ifd, self.tiff.root_ifd(), DngTag::CalibrationIlluminant1);
+        IFD::copy_tag(&mut ifd, self.tiff.root_ifd(), DngTag::CalibrationIlluminant2);
+        IFD::copy_tag(&mut ifd, self.tiff.root_ifd(), DngTag::CalibrationIlluminant3);
+        IFD::copy_tag(&mut ifd, self.tiff.root_ifd(), DngTag::IlluminantData1);
+        IFD::copy_tag(&mut ifd, self.tiff.root_ifd(), DngTag::IlluminantData2);
+        IFD::copy_tag(&mut ifd, self.tiff.root_ifd(), DngTag::IlluminantData3);
+        IFD::copy_tag(&mut ifd, self.tiff.root_ifd(), DngTag::ColorMatrix1);
+        IFD::copy_tag(&mut ifd, self.tiff.root_ifd(), DngTag::ColorMatrix2);
+        IFD::copy_tag(&mut ifd, self.tiff.root_ifd(), DngTag::ColorMatrix3);
+        IFD::copy_tag(&mut ifd, self.tiff.root_ifd(), DngTag::ReductionMatrix1);
+        IFD::copy_tag(&mut ifd, self.tiff.root_ifd(), DngTag::ReductionMatrix2);
+        IFD::copy_tag(&mut ifd, self.tiff.root_ifd(), DngTag::ReductionMatrix3);
+        IFD::copy_tag(&mut ifd, self.tiff.root_ifd(), DngTag::CameraCalibrationSignature);
+        IFD::copy_tag(&mut ifd, self.tiff.root_ifd(), DngTag::ProfileCalibrationSignature);
+        IFD::copy_tag(&mut ifd, self.tiff.root_ifd(), DngTag::CameraCalibration1);
+        IFD::copy_tag(&mut ifd, self.tiff.root_ifd(), DngTag::CameraCalibration2);
+        IFD::copy_tag(&mut ifd, self.tiff.root_ifd(), DngTag::CameraCalibration3);
+        IFD::copy_tag(&mut ifd, self.tiff.root_ifd(), DngTag::ForwardMatrix1);
+        IFD::copy_tag(&mut ifd, self.tiff.root_ifd(), DngTag::ForwardMatrix2);
+        IFD::copy_tag(&mut ifd, self.tiff.root_ifd(), DngTag::ForwardMatrix3);
         IFD::copy_tag(&mut ifd, self.tiff.root_ifd(), DngTag::ProfileEmbedPolicy);
         IFD::copy_tag(&mut ifd, self.tiff.root_ifd(), DngTag::ProfileHueSatMapData1);
         IFD::copy_tag(&mut ifd, self.tiff.root_ifd(), DngTag::ProfileHueSatMapData2);
diff --git a/rawler/src/dng/convert.rs b/rawler/src/dng/convert.rs
index 9cb0bb3..5b60385 100644
--- a/rawler/src/dng/convert.rs
+++ b/rawler/src/dng/convert.rs
@@ -196,7 +196,7 @@ where
 
   // Check for DNG root IFD related tags
   if let Some(dng_root_ifd) = decoder.ifd(WellKnownIFD::VirtualDngRootTags)? {
-    dng.root_ifd_mut().copy(dng_root_ifd.value_iter());
+    dng.root_ifd_mut().copy_with_override(dng_root_ifd.value_iter());
   }
 
   // Check for TIFF root IFD related tags
-- 
2.43.0


From dc21a2edc3de33fd2b09fac49cab29ddacf1dcfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:39 +0000
Subject: [PATCH 43/84] fix: convert: the black level deltas of a DNG are kept

---
 rawler/src/decoders/dng.rs | 2 ++
 rawler/src/dng/convert.rs  | 6 +++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/rawler/src/decoders/dng.rs b/rawler/src/decoders/dng.rs
index 76a651c..d207f27 100644
--- a/rawler/src/decoders/dng.rs
+++ b/rawler/src/decoders/dng.rs
@@ -141,6 +141,8 @@ impl<'a> Decoder for DngDecoder<'a> {
         .map(Rc::new),
       WellKnownIFD::VirtualDngRawTags => {
         let mut ifd = IFD::default();
+        IFD::copy_tag(&mut ifd, self.get_raw_ifd()?, DngTag::BlackLevelDeltaH);
+        IFD::copy_tag(&mut ifd, self.get_raw_ifd()?, DngTag::BlackLevelDeltaV);
         IFD::copy_tag(&mut ifd, self.get_raw_ifd()?, DngTag::OpcodeList1);
         IFD::copy_tag(&mut ifd, self.get_raw_ifd()?, DngTag::OpcodeList2);
         IFD::copy_tag(&mut ifd, self.get_raw_ifd()?, DngTag::OpcodeList3);
diff --git a/rawler/src/dng/convert.rs b/rawler/src/dng/convert.rs
index 5b60385..7a6d188 100644
--- a/rawler/src/dng/convert.rs
+++ b/rawler/src/dng/convert.rs
@@ -167,7 +167,11 @@ where
   raw.raw_image(&rawimage, params.crop, params.compression, params.photometric_conversion, params.predictor)?;
   // Check for DNG raw IFD related tags
   if let Some(dng_raw_ifd) = decoder.ifd(WellKnownIFD::VirtualDngRawTags)? {
-    raw.ifd_mut().copy(dng_raw_ifd.value_iter());
+    // The black level deltas cover the active area of the input, without cropping there is another one
+    let deltas = [DngTag::BlackLevelDeltaH as u16, DngTag::BlackLevelDeltaV as u16];
+    raw
+      .ifd_mut()
+      .copy(dng_raw_ifd.value_iter().filter(|(tag, _)| !matches!(params.crop, CropMode::None) || !deltas.contains(tag)));
   }
   raw.finalize()?;
 
-- 
2.43.0


From 45bfc322e2bea9c1c0e66d4cda56ab58386fd1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:52 +0000
Subject: [PATCH 44/84] fix: DNG decoder: CFAPlaneColor is honoured

---
 rawler/src/decoders/dng.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/rawler/src/decoders/dng.rs b/rawler/src/decoders/dng.rs
index d207f27..5725466 100644
--- a/rawler/src/decoders/dng.rs
+++ b/rawler/src/decoders/dng.rs
@@ -283,6 +283,7 @@ impl<'a> DngDecoder<'a> {
 
     let is_cfa = fetch_tiff_tag!(raw, TiffCommonTag::PhotometricInt).force_usize(0) == 32803;
     let cfa = if is_cfa { self.get_cfa(raw)? } else { CFA::default() };
+    let plane_color = self.get_plane_color(raw).unwrap_or_default();
     let color_matrix = self.get_color_matrix()?;
     let real_bps = if raw.has_entry(TiffCommonTag::Linearization) {
       // If DNG contains linearization table, output is always 16 bits
@@ -304,6 +305,7 @@ impl<'a> DngDecoder<'a> {
       xyz_to_cam: Default::default(),
       color_matrix,
       cfa,
+      plane_color,
       active_area,
       crop_area,
       real_bps,
@@ -397,6 +399,12 @@ impl<'a> DngDecoder<'a> {
     }
   }
 
+  fn get_plane_color(&self, raw: &IFD) -> Option<PlaneColor> {
+    let entry = raw.get_entry(DngTag::CFAPlaneColor)?;
+    let colors: Option<Vec<CFAColor>> = (0..entry.count() as usize).map(|i| CFAColor::try_from(entry.get_u8(i).ok()??).ok()).collect();
+    colors.filter(|colors| !colors.is_empty()).map(|colors| PlaneColor { colors })
+  }
+
   fn get_active_area_borders(&self, raw: &IFD) -> Option<[usize; 4]> {
     if let Some(crops) = raw.get_entry(DngTag::ActiveArea) {
       let rect = [crops.force_usize(0), crops.force_usize(1), crops.force_usize(2), crops.force_usize(3)];
-- 
2.43.0


From b50586903325a03e5cecc6d43e5ea0028cae3b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:57 +0000
Subject: [PATCH 45/84] fix: convert: masked areas and pixel aspect ratio
 (DefaultScale) of a DNG are kept

---
 rawler/src/decoders/dng.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/rawler/src/decoders/dng.rs b/rawler/src/decoders/dng.rs
index 5725466..0558e90 100644
--- a/rawler/src/decoders/dng.rs
+++ b/rawler/src/decoders/dng.rs
@@ -1,5 +1,6 @@
 use crate::RawImage;
 use crate::cfa::*;
+use crate::decoders::camera::{BestQualityScale, DefaultScale};
 use crate::decoders::*;
 use crate::formats::tiff::Entry;
 use crate::formats::tiff::Rational;
@@ -143,6 +144,7 @@ impl<'a> Decoder for DngDecoder<'a> {
         let mut ifd = IFD::default();
         IFD::copy_tag(&mut ifd, self.get_raw_ifd()?, DngTag::BlackLevelDeltaH);
         IFD::copy_tag(&mut ifd, self.get_raw_ifd()?, DngTag::BlackLevelDeltaV);
+        IFD::copy_tag(&mut ifd, self.get_raw_ifd()?, DngTag::MaskedAreas);
         IFD::copy_tag(&mut ifd, self.get_raw_ifd()?, DngTag::OpcodeList1);
         IFD::copy_tag(&mut ifd, self.get_raw_ifd()?, DngTag::OpcodeList2);
         IFD::copy_tag(&mut ifd, self.get_raw_ifd()?, DngTag::OpcodeList3);
@@ -292,6 +294,19 @@ impl<'a> DngDecoder<'a> {
       raw.get_entry(TiffCommonTag::BitsPerSample).map(|v| v.force_usize(0)).unwrap_or(16)
     };
 
+    let mut default_scale = DefaultScale::default();
+    if let Some(Value::Rational(scale)) = raw.get_entry(DngTag::DefaultScale).map(|entry| &entry.value)
+      && let [h, v] = scale[..]
+    {
+      default_scale = DefaultScale([[h.n, h.d], [v.n, v.d]]);
+    }
+    let mut best_quality_scale = BestQualityScale::default();
+    if let Some(Value::Rational(scale)) = raw.get_entry(DngTag::BestQualityScale).map(|entry| &entry.value)
+      && let [scale] = scale[..]
+    {
+      best_quality_scale = BestQualityScale([scale.n, scale.d]);
+    }
+
     Ok(Camera {
       clean_make: make.clone(),
       clean_model: model.clone(),
@@ -309,6 +324,8 @@ impl<'a> DngDecoder<'a> {
       active_area,
       crop_area,
       real_bps,
+      default_scale,
+      best_quality_scale,
       ..Default::default()
     })
   }
-- 
2.43.0


From 843459cfdce845fb8a1b00752aab98609bac11fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:42 +0000
Subject: [PATCH 46/84] fix: develop: unsupported images are reported as an
 error, a conversion goes on without thumbnail

---
 rawler/src/imgop/develop.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rawler/src/imgop/develop.rs b/rawler/src/imgop/develop.rs
index 55476d2..4efdb98 100644
--- a/rawler/src/imgop/develop.rs
+++ b/rawler/src/imgop/develop.rs
@@ -182,7 +182,7 @@ impl RawDevelop {
         rawimage.width,
         rawimage.height,
       )),
-      _ => todo!(),
+      cpp => return Err(format!("Unable to develop images with {} samples per pixel", cpp).into()),
     };
 
     if self.steps.contains(&ProcessingStep::Demosaic) {
@@ -217,7 +217,7 @@ impl RawDevelop {
               let xtrans_demosaic = XTransBilinearDemosaic::new();
               Intermediate::ThreeColor(xtrans_demosaic.demosaic(&pixels, &config.cfa, &config.colors, roi))
             } else {
-              todo!()
+              return Err(format!("No demosaic method for CFA pattern {}", config.cfa).into());
             }
           } else {
             intermediate
@@ -262,7 +262,7 @@ impl RawDevelop {
           9 => adapt_bradford(&illu, &Illuminant::D65, &transform_1d::<3, 3>(&matrix).expect("Transformation failed"))
             .as_flattened()
             .to_vec(),
-          _ => unimplemented!(),
+          len => return Err(format!("Unable to adapt a color matrix with {} values", len).into()),
         }
       }
 
-- 
2.43.0


From 4807554a95df1e61c7dd8ad3f1464e34bf4d0c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:38 +0000
Subject: [PATCH 47/84] fix: TIFF writer: embedded FLOAT and negative
 SBYTE/SSHORT values are stored as they are

---
 rawler/src/formats/tiff/value.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/rawler/src/formats/tiff/value.rs b/rawler/src/formats/tiff/value.rs
index ca02b70..441e61b 100644
--- a/rawler/src/formats/tiff/value.rs
+++ b/rawler/src/formats/tiff/value.rs
@@ -861,10 +861,10 @@ impl Value {
         Self::Short(v) => Ok((v[0] as u32) | ((*v.get(1).unwrap_or(&0) as u32) << 16)),
         Self::Long(v) => Ok(v[0]),
         Self::SByte(v) => Ok(
-          (*v.get(0).unwrap_or(&0) as u32)
-            | ((*v.get(1).unwrap_or(&0) as u32) << 8)
-            | ((*v.get(2).unwrap_or(&0) as u32) << 16)
-            | ((*v.get(3).unwrap_or(&0) as u32) << 24),
+          (*v.get(0).unwrap_or(&0) as u8 as u32)
+            | ((*v.get(1).unwrap_or(&0) as u8 as u32) << 8)
+            | ((*v.get(2).unwrap_or(&0) as u8 as u32) << 16)
+            | ((*v.get(3).unwrap_or(&0) as u8 as u32) << 24),
         ),
         Self::Undefined(v) => Ok(
           (*v.get(0).unwrap_or(&0) as u32)
@@ -872,9 +872,9 @@ impl Value {
             | ((*v.get(2).unwrap_or(&0) as u32) << 16)
             | ((*v.get(3).unwrap_or(&0) as u32) << 24),
         ),
-        Self::SShort(v) => Ok((v[0] as u32) | ((*v.get(1).unwrap_or(&0) as u32) << 16)),
+        Self::SShort(v) => Ok((v[0] as u16 as u32) | ((*v.get(1).unwrap_or(&0) as u16 as u32) << 16)),
         Self::SLong(v) => Ok(v[0] as u32),
-        Self::Float(v) => Ok(v[0] as u32),
+        Self::Float(v) => Ok(v[0].to_bits()),
         Self::Unknown(_, v) => Ok(
           (*v.get(0).unwrap_or(&0) as u32)
             | ((*v.get(1).unwrap_or(&0) as u32) << 8)
-- 
2.43.0


From 2406922720674bee6330fd817ba313e433ab4ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:38 +0000
Subject: [PATCH 48/84] fix: TIFF writer: offsets beyond 4 GiB are an error
 instead of wrapping around

---
 rawler/src/formats/tiff/writer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rawler/src/formats/tiff/writer.rs b/rawler/src/formats/tiff/writer.rs
index 2d738a7..f609848 100644
--- a/rawler/src/formats/tiff/writer.rs
+++ b/rawler/src/formats/tiff/writer.rs
@@ -134,7 +134,8 @@ where
   W: Seek,
 {
   pub fn position(&mut self) -> Result<u32> {
-    Ok(self.writer.stream_position().map(|v| v as u32)?) // TODO: try_from?
+    let pos = self.writer.stream_position()?;
+    u32::try_from(pos).map_err(|_| TiffError::Overflow(format!("Position {} exceeds the limit of TIFF files", pos)))
   }
 }
 
-- 
2.43.0


From d71e0e8dfaaf11fe414247b5ab907032a8370d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:38 +0000
Subject: [PATCH 49/84] fix: TIFF reader: offset correction is applied once to
 chained IFDs

---
 rawler/src/formats/tiff/ifd.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/rawler/src/formats/tiff/ifd.rs b/rawler/src/formats/tiff/ifd.rs
index 6534da9..91f7c52 100644
--- a/rawler/src/formats/tiff/ifd.rs
+++ b/rawler/src/formats/tiff/ifd.rs
@@ -84,7 +84,6 @@ impl IFD {
     next_ifd = root.next_ifd;
 
     while next_ifd != 0 {
-      next_ifd = apply_corr(next_ifd, corr);
       let ifd = IFD::new(reader, next_ifd, base, corr, endian, &multi_sub_tags)?;
       if ifd.entries.is_empty() {
         return Err(TiffError::General("TIFF is invalid, IFD must contain at least one entry".to_string()));
-- 
2.43.0


From 676f3636aeffa6fc399d9ec7bf4cd9703658b28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:38 +0000
Subject: [PATCH 50/84] fix: TIFF reader: IFD offsets of type IFD (13) are read
 like LONG

---
 rawler/src/formats/tiff/entry.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rawler/src/formats/tiff/entry.rs b/rawler/src/formats/tiff/entry.rs
index 6d32e95..5d8f1e2 100644
--- a/rawler/src/formats/tiff/entry.rs
+++ b/rawler/src/formats/tiff/entry.rs
@@ -25,6 +25,7 @@ const TYPE_SLONG: u16 = 9;
 const TYPE_SRATIONAL: u16 = 10;
 const TYPE_FLOAT: u16 = 11;
 const TYPE_DOUBLE: u16 = 12;
+const TYPE_IFD: u16 = 13;
 
 #[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
 pub struct Entry {
@@ -85,7 +86,7 @@ impl Entry {
     let count = reader.read_u32()?;
 
     // If we don't know the type assume byte data (undefined)
-    let compat_typ = if typ == 0 || typ > 12 { 7 } else { typ };
+    let compat_typ = if typ == 0 || typ > TYPE_IFD { 7 } else { typ };
 
     let bytesize: usize = (count as usize) << DATASHIFTS[compat_typ as usize];
     let offset: u32 = if bytesize <= 4 {
@@ -134,7 +135,8 @@ impl Entry {
           embedded: Some(offset),
         }
       }
-      TYPE_LONG => {
+      // IFD offsets are identical to LONG
+      TYPE_LONG | TYPE_IFD => {
         let mut v = vec![0; count as usize];
         reader.read_u32_into(&mut v)?;
         Entry {
-- 
2.43.0


From aac788866715a5051d842cd51ce3e71b13e26690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:21 +0000
Subject: [PATCH 51/84] fix: TIFF reader: the next IFD pointer is found behind
 damaged directory entries

---
 rawler/src/formats/tiff/ifd.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rawler/src/formats/tiff/ifd.rs b/rawler/src/formats/tiff/ifd.rs
index 91f7c52..701a3bd 100644
--- a/rawler/src/formats/tiff/ifd.rs
+++ b/rawler/src/formats/tiff/ifd.rs
@@ -115,7 +115,8 @@ impl IFD {
 
     let mut entries = BTreeMap::new();
     let mut sub = HashMap::new();
-    let mut next_pos = reader.position()?;
+    let table_pos = reader.position()?;
+    let mut next_pos = table_pos;
     debug!("Parse entries");
     let mut consecutive_errors = 0;
 
@@ -186,6 +187,9 @@ impl IFD {
       }
     }
 
+    // The pointer follows the declared entries, wherever parsing of the entries has stopped.
+    reader.goto(table_pos.saturating_add(12 * entry_count as u32))?;
+
     // Some TIFF writers skip the next ifd pointer
     // If we get an I/O error, we fallback to 0, signaling the end of IFD chains.
     let next_ifd = match reader.read_u32() {
-- 
2.43.0


From a4afd158f8b3936c0de9929bec5119d96a418e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:21 +0000
Subject: [PATCH 52/84] fix: TIFF reader: no overflow for damaged IFD offsets,
 no directory from entries of unknown type

---
 rawler/src/formats/tiff/ifd.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/rawler/src/formats/tiff/ifd.rs b/rawler/src/formats/tiff/ifd.rs
index 701a3bd..473cc97 100644
--- a/rawler/src/formats/tiff/ifd.rs
+++ b/rawler/src/formats/tiff/ifd.rs
@@ -54,7 +54,7 @@ impl IFD {
   }
 
   pub fn new_root_with_correction<R: Read + Seek>(reader: &mut R, offset: u32, base: u32, corr: i32, max_chain: usize, sub_tags: &[u16]) -> Result<IFD> {
-    reader.seek(SeekFrom::Start((base + offset) as u64))?;
+    reader.seek(SeekFrom::Start(base as u64 + offset as u64))?;
     let endian = match reader.read_u16::<LittleEndian>()? {
       0x4949 => Endian::Little,
       0x4d4d => Endian::Big,
@@ -100,7 +100,7 @@ impl IFD {
   }
 
   pub fn new<R: Read + Seek>(reader: &mut R, offset: u32, base: u32, corr: i32, endian: Endian, sub_tags: &[u16]) -> Result<IFD> {
-    reader.seek(SeekFrom::Start((base + offset) as u64))?;
+    reader.seek(SeekFrom::Start(base as u64 + offset as u64))?;
     let mut sub_ifd_offsets = HashMap::new();
     let mut reader = EndianReader::new(reader, endian);
     let entry_count = reader.read_u16()?;
@@ -153,9 +153,6 @@ impl IFD {
               Value::Long(offsets) => {
                 sub_ifd_offsets.insert(tag, offsets.clone());
               }
-              Value::Unknown(tag, offsets) => {
-                sub_ifd_offsets.insert(*tag, vec![offsets[0] as u32]);
-              }
               Value::Undefined(_) => {
                 if let Some(offset) = entry.offset() {
                   sub_ifd_offsets.insert(tag, vec![offset as u32]);
-- 
2.43.0


From ea3687c4a99ced8889c23aa05d3b54c75f668014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:21 +0000
Subject: [PATCH 53/84] fix: TIFF reader: cyclic IFD chains end at the first
 IFD already read

---
 rawler/src/formats/tiff/ifd.rs    | 7 ++++++-
 rawler/src/formats/tiff/reader.rs | 6 ++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/rawler/src/formats/tiff/ifd.rs b/rawler/src/formats/tiff/ifd.rs
index 473cc97..be9ec0e 100644
--- a/rawler/src/formats/tiff/ifd.rs
+++ b/rawler/src/formats/tiff/ifd.rs
@@ -16,7 +16,7 @@ use byteorder::{LittleEndian, ReadBytesExt};
 use log::debug;
 use serde::{Deserialize, Serialize};
 use std::{
-  collections::{BTreeMap, HashMap},
+  collections::{BTreeMap, HashMap, HashSet},
   io::{Read, Seek, SeekFrom},
 };
 
@@ -83,7 +83,12 @@ impl IFD {
     }
     next_ifd = root.next_ifd;
 
+    let mut visited = HashSet::from([root.offset]);
     while next_ifd != 0 {
+      if !visited.insert(next_ifd) {
+        log::warn!("TIFF: IFD chain refers back to the IFD at offset {}, the chain ends here", next_ifd);
+        break;
+      }
       let ifd = IFD::new(reader, next_ifd, base, corr, endian, &multi_sub_tags)?;
       if ifd.entries.is_empty() {
         return Err(TiffError::General("TIFF is invalid, IFD must contain at least one entry".to_string()));
diff --git a/rawler/src/formats/tiff/reader.rs b/rawler/src/formats/tiff/reader.rs
index dc6910c..8ed0111 100644
--- a/rawler/src/formats/tiff/reader.rs
+++ b/rawler/src/formats/tiff/reader.rs
@@ -8,6 +8,7 @@ use crate::{
 };
 use byteorder::{BigEndian, LittleEndian, ReadBytesExt};
 use serde::{Deserialize, Serialize};
+use std::collections::HashSet;
 use std::io::{Cursor, Read, Seek, SeekFrom};
 
 pub trait TiffReader {
@@ -167,7 +168,12 @@ pub trait TiffReader {
 
     next_ifd = apply_corr(next_ifd, self.file().corr);
     let mut chain = Vec::new();
+    let mut visited = HashSet::new();
     while next_ifd != 0 {
+      if !visited.insert(next_ifd) {
+        log::warn!("TIFF: IFD chain refers back to the IFD at offset {}, the chain ends here", next_ifd);
+        break;
+      }
       // TODO: check if offset is in range
       let mut multi_sub_tags = self.wellknown_sub_ifd_tags();
       multi_sub_tags.extend_from_slice(sub_tags);
-- 
2.43.0


From 512d1f8e2fb13feed1d0df499177e99c8d8a10f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:21 +0000
Subject: [PATCH 54/84] fix: TIFF reader: no memory allocation for values
 beyond the end of file

---
 rawler/src/formats/tiff/entry.rs  | 5 +++++
 rawler/src/formats/tiff/reader.rs | 8 ++++++++
 2 files changed, 13 insertions(+)

diff --git a/rawler/src/formats/tiff/entry.rs b/rawler/src/formats/tiff/entry.rs
index 5d8f1e2..cff7277 100644
--- a/rawler/src/formats/tiff/entry.rs
+++ b/rawler/src/formats/tiff/entry.rs
@@ -106,6 +106,11 @@ impl Entry {
       return Err(TiffError::Overflow(format!("Offset {} is invalid for tag 0x{:X}", offset, tag)));
     }
 
+    if bytesize > 4 && base as u64 + offset as u64 + bytesize as u64 > reader.stream_len()? {
+      // Don't allocate memory for values which can't exist.
+      return Err(TiffError::Overflow(format!("Value of tag 0x{:X} exceeds the end of file", tag)));
+    }
+
     reader.goto(base + offset)?;
     let entry = match typ {
       TYPE_BYTE => {
diff --git a/rawler/src/formats/tiff/reader.rs b/rawler/src/formats/tiff/reader.rs
index 8ed0111..7eb633b 100644
--- a/rawler/src/formats/tiff/reader.rs
+++ b/rawler/src/formats/tiff/reader.rs
@@ -297,6 +297,14 @@ impl<'a, R: Read + Seek + 'a> EndianReader<'a, R> {
     Ok(self.inner.stream_position().map(|v| v as u32)?)
   }
 
+  /// Total length of the stream, the position is unchanged.
+  pub fn stream_len(&mut self) -> Result<u64> {
+    let pos = self.inner.stream_position()?;
+    let len = self.inner.seek(SeekFrom::End(0))?;
+    self.inner.seek(SeekFrom::Start(pos))?;
+    Ok(len)
+  }
+
   // TODO: try_from?
 
   pub fn goto(&mut self, offset: u32) -> Result<()> {
-- 
2.43.0


From df560573a49d3cf26d1f5e049ed8c0b1b9c724b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:21 +0000
Subject: [PATCH 55/84] fix: JFIF: a damaged APP1 segment is skipped instead of
 being read forever

---
 rawler/src/formats/jfif.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/rawler/src/formats/jfif.rs b/rawler/src/formats/jfif.rs
index 05f8964..0e3ff2f 100644
--- a/rawler/src/formats/jfif.rs
+++ b/rawler/src/formats/jfif.rs
@@ -58,8 +58,9 @@ impl<R: Read + Seek> ReadSegment<&mut R> for App0 {
         let ydensity = reader.read_u16::<BigEndian>()?;
         let xthumbnail = reader.read_u8()?;
         let ythumbnail = reader.read_u8()?;
-        let thumbnail = if xthumbnail * ythumbnail > 0 {
-          let mut data = vec![0; (3 * xthumbnail * ythumbnail) as usize];
+        let thumbnail_size = 3 * xthumbnail as usize * ythumbnail as usize;
+        let thumbnail = if thumbnail_size > 0 {
+          let mut data = vec![0; thumbnail_size];
           reader.read_exact(&mut data)?;
           Some(data)
         } else {
@@ -179,7 +180,7 @@ impl<R: Read + Seek> ReadSegment<&mut R> for App1 {
       reader.read_exact(&mut xmp_str)?;
       if xmp_str == APP1_XMP_MARKER.as_bytes() {
         log::debug!("Found APP1 XMP marker");
-        let mut xpacket = vec![0; len as usize - xmp_str.len() - 2];
+        let mut xpacket = vec![0; (len as usize).saturating_sub(xmp_str.len() + 2)];
         reader.read_exact(&mut xpacket)?;
         reader.seek(SeekFrom::Start(pos + len))?;
         return Ok(Self {
@@ -232,7 +233,11 @@ impl Jfif {
           Ok(app1) => Segment::APP1 { offset: pos, app1 },
           Err(err) => {
             log::warn!("Failed to read APP1 (EXIF) segement, maybe corrupt: {:?}", err);
-            continue;
+            // Continue with the segment that follows
+            reader.seek(SeekFrom::Start(pos + 2))?;
+            let len: u64 = reader.read_u16::<BigEndian>()? as u64;
+            reader.seek(SeekFrom::Start(pos + 2 + len))?;
+            Segment::Unknown { offset: pos, marker: symbol }
           }
         },
         0xFFDA => Segment::SOS {
-- 
2.43.0


From 5749a11af9e6eecb15caf55a72959f859f4eacbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:21 +0000
Subject: [PATCH 56/84] fix: MRW: block lengths do not wrap around

---
 rawler/src/decoders/mrw.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rawler/src/decoders/mrw.rs b/rawler/src/decoders/mrw.rs
index 263d7b3..81b2537 100644
--- a/rawler/src/decoders/mrw.rs
+++ b/rawler/src/decoders/mrw.rs
@@ -147,7 +147,7 @@ impl<'a> MrwDecoder<'a> {
   fn new_mrw(file: &RawSource, rawloader: &'a RawLoader) -> Result<MrwDecoder<'a>> {
     let full = file.as_vec()?;
     let buf = &full;
-    let data_offset: usize = (BEu32(buf, 4) + 8) as usize;
+    let data_offset: usize = BEu32(buf, 4) as usize + 8;
     let mut raw_height: usize = 0;
     let mut raw_width: usize = 0;
     let bits = 12;
@@ -182,7 +182,7 @@ impl<'a> MrwDecoder<'a> {
         }
         _ => {}
       }
-      currpos += (len + 8) as usize;
+      currpos += len as usize + 8;
     }
 
     let tiff_data = file.subview_until_eof(tiffpos as u64)?;
-- 
2.43.0


From 0b8881c32ff4fcfb7015ba0432cb0c49469a7d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:52 +0000
Subject: [PATCH 57/84] fix: BMFF: boxes of invalid size are an error, counts
 don't allocate memory in advance, unknown UUID boxes are skipped

---
 rawler/src/formats/bmff/co64.rs         |  2 +-
 rawler/src/formats/bmff/ext_cr3/cmt1.rs |  7 ++-----
 rawler/src/formats/bmff/ext_cr3/cmt2.rs |  7 ++-----
 rawler/src/formats/bmff/ext_cr3/cmt3.rs |  7 ++-----
 rawler/src/formats/bmff/ext_cr3/cmt4.rs |  7 ++-----
 rawler/src/formats/bmff/ext_cr3/cnop.rs |  7 ++-----
 rawler/src/formats/bmff/ext_cr3/ctmd.rs |  2 +-
 rawler/src/formats/bmff/ftyp.rs         |  2 +-
 rawler/src/formats/bmff/mod.rs          | 20 +++++++++++++++++++-
 rawler/src/formats/bmff/moov.rs         |  3 +++
 rawler/src/formats/bmff/stsc.rs         |  2 +-
 rawler/src/formats/bmff/stsz.rs         |  2 +-
 rawler/src/formats/bmff/stts.rs         |  2 +-
 13 files changed, 38 insertions(+), 32 deletions(-)

diff --git a/rawler/src/formats/bmff/co64.rs b/rawler/src/formats/bmff/co64.rs
index 60a33c4..2e0aa52 100644
--- a/rawler/src/formats/bmff/co64.rs
+++ b/rawler/src/formats/bmff/co64.rs
@@ -25,7 +25,7 @@ impl<R: Read + Seek> ReadBox<&mut R> for Co64Box {
     let (version, flags) = read_box_header_ext(reader)?;
 
     let entry_count = reader.read_u32::<BigEndian>()?;
-    let mut entries = Vec::with_capacity(entry_count as usize);
+    let mut entries = Vec::new();
     for _i in 0..entry_count {
       let chunk_offset = reader.read_u64::<BigEndian>()?;
       entries.push(chunk_offset);
diff --git a/rawler/src/formats/bmff/ext_cr3/cmt1.rs b/rawler/src/formats/bmff/ext_cr3/cmt1.rs
index 4aa7c55..a012e17 100644
--- a/rawler/src/formats/bmff/ext_cr3/cmt1.rs
+++ b/rawler/src/formats/bmff/ext_cr3/cmt1.rs
@@ -3,7 +3,7 @@
 
 use crate::{formats::bmff::BmffError, formats::tiff::GenericTiffReader};
 
-use super::super::{BoxHeader, FourCC, ReadBox, Result};
+use super::super::{BoxHeader, FourCC, ReadBox, Result, read_box_payload};
 use serde::{Deserialize, Serialize};
 use std::io::{Read, Seek, SeekFrom};
 
@@ -20,10 +20,7 @@ impl Cmt1Box {
 
 impl<R: Read + Seek> ReadBox<&mut R> for Cmt1Box {
   fn read_box(reader: &mut R, header: BoxHeader) -> Result<Self> {
-    let current = reader.stream_position()?;
-    let data_len = header.end_offset() - current;
-    let mut data = vec![0; data_len as usize];
-    reader.read_exact(&mut data)?;
+    let data = read_box_payload(reader, &header)?;
 
     reader.seek(SeekFrom::Start(header.end_offset()))?;
 
diff --git a/rawler/src/formats/bmff/ext_cr3/cmt2.rs b/rawler/src/formats/bmff/ext_cr3/cmt2.rs
index 398b535..d72eb6b 100644
--- a/rawler/src/formats/bmff/ext_cr3/cmt2.rs
+++ b/rawler/src/formats/bmff/ext_cr3/cmt2.rs
@@ -3,7 +3,7 @@
 
 use crate::{formats::bmff::BmffError, formats::tiff::GenericTiffReader};
 
-use super::super::{BoxHeader, FourCC, ReadBox, Result};
+use super::super::{BoxHeader, FourCC, ReadBox, Result, read_box_payload};
 use serde::{Deserialize, Serialize};
 use std::io::{Read, Seek, SeekFrom};
 
@@ -20,10 +20,7 @@ impl Cmt2Box {
 
 impl<R: Read + Seek> ReadBox<&mut R> for Cmt2Box {
   fn read_box(reader: &mut R, header: BoxHeader) -> Result<Self> {
-    let current = reader.stream_position()?;
-    let data_len = header.end_offset() - current;
-    let mut data = vec![0; data_len as usize];
-    reader.read_exact(&mut data)?;
+    let data = read_box_payload(reader, &header)?;
 
     reader.seek(SeekFrom::Start(header.end_offset()))?;
 
diff --git a/rawler/src/formats/bmff/ext_cr3/cmt3.rs b/rawler/src/formats/bmff/ext_cr3/cmt3.rs
index 66e7ff9..49e5c10 100644
--- a/rawler/src/formats/bmff/ext_cr3/cmt3.rs
+++ b/rawler/src/formats/bmff/ext_cr3/cmt3.rs
@@ -3,7 +3,7 @@
 
 use crate::{formats::bmff::BmffError, formats::tiff::GenericTiffReader};
 
-use super::super::{BoxHeader, FourCC, ReadBox, Result};
+use super::super::{BoxHeader, FourCC, ReadBox, Result, read_box_payload};
 use serde::{Deserialize, Serialize};
 use std::io::{Read, Seek, SeekFrom};
 
@@ -20,10 +20,7 @@ impl Cmt3Box {
 
 impl<R: Read + Seek> ReadBox<&mut R> for Cmt3Box {
   fn read_box(reader: &mut R, header: BoxHeader) -> Result<Self> {
-    let current = reader.stream_position()?;
-    let data_len = header.end_offset() - current;
-    let mut data = vec![0; data_len as usize];
-    reader.read_exact(&mut data)?;
+    let data = read_box_payload(reader, &header)?;
 
     reader.seek(SeekFrom::Start(header.end_offset()))?;
 
diff --git a/rawler/src/formats/bmff/ext_cr3/cmt4.rs b/rawler/src/formats/bmff/ext_cr3/cmt4.rs
index 1afbf1a..f2048c5 100644
--- a/rawler/src/formats/bmff/ext_cr3/cmt4.rs
+++ b/rawler/src/formats/bmff/ext_cr3/cmt4.rs
@@ -3,7 +3,7 @@
 
 use crate::{formats::bmff::BmffError, formats::tiff::GenericTiffReader};
 
-use super::super::{BoxHeader, FourCC, ReadBox, Result};
+use super::super::{BoxHeader, FourCC, ReadBox, Result, read_box_payload};
 use serde::{Deserialize, Serialize};
 use std::io::{Read, Seek, SeekFrom};
 
@@ -20,10 +20,7 @@ impl Cmt4Box {
 
 impl<R: Read + Seek> ReadBox<&mut R> for Cmt4Box {
   fn read_box(reader: &mut R, header: BoxHeader) -> Result<Self> {
-    let current = reader.stream_position()?;
-    let data_len = header.end_offset() - current;
-    let mut data = vec![0; data_len as usize];
-    reader.read_exact(&mut data)?;
+    let data = read_box_payload(reader, &header)?;
 
     reader.seek(SeekFrom::Start(header.end_offset()))?;
 
diff --git a/rawler/src/formats/bmff/ext_cr3/cnop.rs b/rawler/src/formats/bmff/ext_cr3/cnop.rs
index efe0470..4cc861b 100644
--- a/rawler/src/formats/bmff/ext_cr3/cnop.rs
+++ b/rawler/src/formats/bmff/ext_cr3/cnop.rs
@@ -1,7 +1,7 @@
 // SPDX-License-Identifier: MIT
 // Copyright 2021 Daniel Vogelbacher <daniel@chaospixel.com>
 
-use super::super::{BoxHeader, FourCC, ReadBox, Result};
+use super::super::{BoxHeader, FourCC, ReadBox, Result, read_box_payload};
 use serde::{Deserialize, Serialize};
 use std::io::{Read, Seek, SeekFrom};
 
@@ -17,10 +17,7 @@ impl CnopBox {
 
 impl<R: Read + Seek> ReadBox<&mut R> for CnopBox {
   fn read_box(reader: &mut R, header: BoxHeader) -> Result<Self> {
-    let current = reader.stream_position()?;
-    let data_len = header.end_offset() - current;
-    let mut data = vec![0; data_len as usize];
-    reader.read_exact(&mut data)?;
+    let data = read_box_payload(reader, &header)?;
 
     reader.seek(SeekFrom::Start(header.end_offset()))?;
 
diff --git a/rawler/src/formats/bmff/ext_cr3/ctmd.rs b/rawler/src/formats/bmff/ext_cr3/ctmd.rs
index 7c87781..ca72758 100644
--- a/rawler/src/formats/bmff/ext_cr3/ctmd.rs
+++ b/rawler/src/formats/bmff/ext_cr3/ctmd.rs
@@ -42,7 +42,7 @@ impl<R: Read + Seek> ReadBox<&mut R> for CtmdBox {
     let data_ref_index = reader.read_u16::<BigEndian>()?;
     let rec_count = reader.read_u32::<BigEndian>()?;
 
-    let mut records = Vec::with_capacity(rec_count as usize);
+    let mut records = Vec::new();
 
     //let mut current = reader.seek(SeekFrom::Current(0))?;
 
diff --git a/rawler/src/formats/bmff/ftyp.rs b/rawler/src/formats/bmff/ftyp.rs
index c0d6543..e73da89 100644
--- a/rawler/src/formats/bmff/ftyp.rs
+++ b/rawler/src/formats/bmff/ftyp.rs
@@ -26,7 +26,7 @@ impl<R: Read + Seek> ReadBox<&mut R> for FtypBox {
     if header.size % 4 != 0 {
       return Err(BmffError::Parse("invalid ftyp size".into()));
     }
-    let brand_count = (header.size - 16) / 4; // header + major + minor
+    let brand_count = header.size.saturating_sub(16) / 4; // header + major + minor
 
     let mut brands = Vec::new();
     for _ in 0..brand_count {
diff --git a/rawler/src/formats/bmff/mod.rs b/rawler/src/formats/bmff/mod.rs
index 4127787..3f8340f 100644
--- a/rawler/src/formats/bmff/mod.rs
+++ b/rawler/src/formats/bmff/mod.rs
@@ -54,6 +54,16 @@ pub fn read_box_header_ext<R: Read>(reader: &mut R) -> Result<(u8, u32)> {
   Ok((version, flags))
 }
 
+/// Read box payload from current position up to the end of the box.
+pub fn read_box_payload<R: Read + Seek>(reader: &mut R, header: &BoxHeader) -> Result<Vec<u8>> {
+  let len = header.end_offset().saturating_sub(reader.stream_position()?);
+  let mut data = Vec::new();
+  if reader.take(len).read_to_end(&mut data)? as u64 != len {
+    return Err(BmffError::Parse(format!("Box {} exceeds the end of file, corrupt file?", header.typ)));
+  }
+  Ok(data)
+}
+
 #[derive(Debug, Clone, PartialEq, Default, Serialize, Deserialize)]
 pub struct BoxHeader {
   pub size: u64,
@@ -70,7 +80,7 @@ impl BoxHeader {
   pub fn parse<R: Read + Seek>(mut reader: R) -> Result<Self> {
     let start = reader.stream_position()?;
     let mut size = reader.read_u32::<BigEndian>()? as u64;
-    let typ = reader.read_u32::<BigEndian>()?.into();
+    let typ: FourCC = reader.read_u32::<BigEndian>()?.into();
     if size == 1 {
       size = reader.read_u64::<BigEndian>()?;
     }
@@ -82,6 +92,14 @@ impl BoxHeader {
     }
 
     let current = reader.stream_position()?;
+    if size == 0 {
+      // Box extends to the end of file
+      size = reader.seek(SeekFrom::End(0))?.saturating_sub(start);
+      reader.seek(SeekFrom::Start(current))?;
+    }
+    if size < current - start || start.checked_add(size).is_none() {
+      return Err(BmffError::Parse(format!("Invalid size {} for box {}, corrupt file?", size, typ)));
+    }
     Ok(BoxHeader {
       size,
       typ,
diff --git a/rawler/src/formats/bmff/moov.rs b/rawler/src/formats/bmff/moov.rs
index 1c3e248..1337de9 100644
--- a/rawler/src/formats/bmff/moov.rs
+++ b/rawler/src/formats/bmff/moov.rs
@@ -57,6 +57,9 @@ impl<R: Read + Seek> ReadBox<&mut R> for MoovBox {
           if let Some(uuid) = header.uuid {
             if uuid == Uuid::from_bytes(Cr3DescBox::UUID) {
               cr3desc = Some(Cr3DescBox::read_box(&mut reader, header)?);
+            } else {
+              debug!("Vendor box found in moov: {:?}", header.typ);
+              vendors.push(VendorBox::read_box(&mut reader, header)?);
             }
           } else {
             debug!("Vendor box found in moov: {:?}", header.typ);
diff --git a/rawler/src/formats/bmff/stsc.rs b/rawler/src/formats/bmff/stsc.rs
index 47a66fc..0f9216f 100644
--- a/rawler/src/formats/bmff/stsc.rs
+++ b/rawler/src/formats/bmff/stsc.rs
@@ -42,7 +42,7 @@ impl<R: Read + Seek> ReadBox<&mut R> for StscBox {
     let (version, flags) = read_box_header_ext(reader)?;
 
     let entry_count = reader.read_u32::<BigEndian>()?;
-    let mut entries = Vec::with_capacity(entry_count as usize);
+    let mut entries = Vec::new();
 
     // Reader for a single stsc entry
     let mut read_entry = || -> Result<StscEntry> {
diff --git a/rawler/src/formats/bmff/stsz.rs b/rawler/src/formats/bmff/stsz.rs
index 82e191f..6476c6d 100644
--- a/rawler/src/formats/bmff/stsz.rs
+++ b/rawler/src/formats/bmff/stsz.rs
@@ -35,7 +35,7 @@ impl<R: Read + Seek> ReadBox<&mut R> for StszBox {
 
     let sample_size = reader.read_u32::<BigEndian>()?;
     let sample_count = reader.read_u32::<BigEndian>()?;
-    let mut sample_sizes = Vec::with_capacity(sample_count as usize);
+    let mut sample_sizes = Vec::new();
     if sample_size == 0 {
       for _ in 0..sample_count {
         let sample_number = reader.read_u32::<BigEndian>()?;
diff --git a/rawler/src/formats/bmff/stts.rs b/rawler/src/formats/bmff/stts.rs
index c3bcbb8..9d6363a 100644
--- a/rawler/src/formats/bmff/stts.rs
+++ b/rawler/src/formats/bmff/stts.rs
@@ -30,7 +30,7 @@ impl<R: Read + Seek> ReadBox<&mut R> for SttsBox {
     let (version, flags) = read_box_header_ext(reader)?;
 
     let entry_count = reader.read_u32::<BigEndian>()?;
-    let mut entries = Vec::with_capacity(entry_count as usize);
+    let mut entries = Vec::new();
     for _i in 0..entry_count {
       let entry = SttsEntry {
         sample_count: reader.read_u32::<BigEndian>()?,
-- 
2.43.0


From 32dd26b4beacf996ed439e9a04a36768414cba9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:04 +0000
Subject: [PATCH 58/84] fix: IIQ: sizes of damaged makernotes don't allocate
 memory in advance

---
 rawler/src/decoders/iiq.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/rawler/src/decoders/iiq.rs b/rawler/src/decoders/iiq.rs
index adeef1e..655597b 100644
--- a/rawler/src/decoders/iiq.rs
+++ b/rawler/src/decoders/iiq.rs
@@ -15,7 +15,6 @@ use log::warn;
 use serde::Deserialize;
 use serde::Serialize;
 use std::collections::HashMap;
-use std::io::Read;
 use std::io::Seek;
 use std::io::SeekFrom;
 use std::mem::size_of;
@@ -185,11 +184,10 @@ fn new_makernote(file: &RawSource, moffset: u64) -> std::io::Result<HashMap<u32,
   let entry_count = stream.read_u32::<LittleEndian>()? as usize; // Skip 8 bytes in IFD
 
   let _ = stream.read_u32::<LittleEndian>()?; // Skip it
-  let mut buf = vec![0; entry_count * 16];
-  stream.read_exact(&mut buf)?;
+  let buf = file.subview(stream.stream_position()?, entry_count as u64 * 16)?;
 
   let mut entries: HashMap<u32, (usize, tiff::Value)> = HashMap::with_capacity(entry_count);
-  let mut buf = &buf[..];
+  let mut buf = buf;
 
   for _ in 0..entry_count {
     let tag = LEu32(buf, 0);
@@ -204,10 +202,8 @@ fn new_makernote(file: &RawSource, moffset: u64) -> std::io::Result<HashMap<u32,
       }
       // Others should be just ASCII strings
       1 => {
-        let mut v = vec![0; byte_count];
-        stream.seek(SeekFrom::Start(moffset + data as u64))?; // skip header
-        stream.read_exact(&mut v)?;
-        let value = tiff::Value::Ascii(tiff::TiffAscii::new_from_raw(&v));
+        let v = file.subview(moffset + data as u64, byte_count as u64)?; // skip header
+        let value = tiff::Value::Ascii(tiff::TiffAscii::new_from_raw(v));
         entries.insert(tag, (byte_count, value));
       }
       // Short values stored as Long
-- 
2.43.0


From fb4788e713950a8dd266c79c49bf0f327ab3462a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:04 +0000
Subject: [PATCH 59/84] fix: CIFF: directories referenced more than once are
 read only once

---
 rawler/src/formats/ciff/mod.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/rawler/src/formats/ciff/mod.rs b/rawler/src/formats/ciff/mod.rs
index cb61299..b535960 100644
--- a/rawler/src/formats/ciff/mod.rs
+++ b/rawler/src/formats/ciff/mod.rs
@@ -1,4 +1,4 @@
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 
 use crate::{bits::*, rawsource::RawSource};
 
@@ -53,6 +53,16 @@ impl CiffIFD {
   }
 
   pub fn new(buf: &[u8], start: usize, end: usize, depth: u32) -> Result<CiffIFD, String> {
+    CiffIFD::parse(buf, start, end, depth, &mut HashSet::new())
+  }
+
+  fn parse(buf: &[u8], start: usize, end: usize, depth: u32, visited: &mut HashSet<(usize, usize)>) -> Result<CiffIFD, String> {
+    if end < 4 || end > buf.len() {
+      return Err(format!("CIFF: IFD {}..{} is out of range", start, end));
+    }
+    if !visited.insert((start, end)) {
+      return Err(format!("CIFF: IFD at {} is referenced more than once", start));
+    }
     let mut entries = HashMap::new();
     let mut subifds = Vec::new();
 
@@ -66,7 +76,7 @@ impl CiffIFD {
         // SubIFDs
         if depth < 10 {
           // Avoid infinite looping IFDs
-          let ifd = CiffIFD::new(buf, e.data_offset, e.data_offset + e.bytesize, depth + 1);
+          let ifd = CiffIFD::parse(buf, e.data_offset, e.data_offset + e.bytesize, depth + 1, visited);
           match ifd {
             Ok(val) => {
               subifds.push(val);
-- 
2.43.0


From 812139503950c0de23597735f62ae3dae38ebd9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:04 +0000
Subject: [PATCH 60/84] fix: image dimensions of damaged files don't abort the
 process

---
 rawler/src/pixarray.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/rawler/src/pixarray.rs b/rawler/src/pixarray.rs
index 4d1d303..da804cd 100644
--- a/rawler/src/pixarray.rs
+++ b/rawler/src/pixarray.rs
@@ -53,6 +53,16 @@ impl<T> Pix2D<T>
 where
   T: SubPixel,
 {
+  /// Number of samples for an image of given size.
+  /// Dimensions may come from a damaged file, an allocation failure would abort the process.
+  fn checked_len(width: usize, height: usize) -> usize {
+    let mut probe = Vec::<T>::new();
+    match width.checked_mul(height) {
+      Some(len) if std::hint::black_box(&mut probe).try_reserve_exact(len).is_ok() => len,
+      _ => panic!("Unable to allocate memory for an image of {} x {} samples", width, height),
+    }
+  }
+
   pub fn new_with(data: Vec<T>, width: usize, height: usize) -> Self {
     assert_eq!(data.len(), height * width);
     Self {
@@ -64,7 +74,7 @@ where
   }
 
   pub fn new(width: usize, height: usize) -> Self {
-    let data = vec![T::default(); width * height];
+    let data = vec![T::default(); Self::checked_len(width, height)];
     Self {
       data,
       width,
@@ -74,7 +84,7 @@ where
   }
 
   pub fn new_uninit(width: usize, height: usize) -> Self {
-    let data = Vec::with_capacity(width * height);
+    let data = Vec::with_capacity(Self::checked_len(width, height));
     Self {
       data,
       width,
-- 
2.43.0


From 1b6a72eeb84a12e3961f70963194487bd36bdf8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:04 +0000
Subject: [PATCH 61/84] fix: strips beyond the end of file are an error,
 offsets do not wrap around

---
 rawler/src/formats/tiff/ifd.rs | 22 ++++++++++++----------
 rawler/src/rawsource.rs        |  4 ++--
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/rawler/src/formats/tiff/ifd.rs b/rawler/src/formats/tiff/ifd.rs
index be9ec0e..c609b14 100644
--- a/rawler/src/formats/tiff/ifd.rs
+++ b/rawler/src/formats/tiff/ifd.rs
@@ -503,7 +503,7 @@ impl IFD {
       .value
       .force_usize(0);
 
-    Ok(rawsource.subview((self.base + offset) as u64, len as u64)?)
+    Ok(rawsource.subview(self.base as u64 + offset as u64, len as u64)?)
   }
 
   /// Values of a tag for which the TIFF specification allows SHORT and LONG
@@ -533,22 +533,24 @@ impl IFD {
       )));
     }
 
+    let first_offset = *offsets.first().ok_or_else(|| TiffError::General("IFD contains no strip data".into()))? as u64;
+
     // Check if all slices are continous
-    let (is_continous, end_off) =
-      offsets.iter().zip(sizes.iter()).fold(
-        (true, offsets[0]),
-        |acc, val| {
-          if acc.0 && acc.1 == *val.0 { (true, acc.1 + *val.1) } else { (false, 0) }
-        },
-      );
+    let (is_continous, end_off) = offsets.iter().zip(sizes.iter()).fold((true, first_offset), |acc, val| {
+      if acc.0 && acc.1 == *val.0 as u64 {
+        (true, acc.1 + *val.1 as u64)
+      } else {
+        (false, 0)
+      }
+    });
 
     let mut subviews = Vec::with_capacity(offsets.len());
     for (offset, size) in offsets.iter().zip(sizes.iter()) {
-      subviews.push(rawsource.subview((self.base + *offset) as u64, *size as u64)?);
+      subviews.push(rawsource.subview(self.base as u64 + *offset as u64, *size as u64)?);
     }
 
     let continous = if is_continous {
-      Some(rawsource.subview((self.base + offsets[0]) as u64, (end_off - offsets[0]) as u64)?)
+      Some(rawsource.subview(self.base as u64 + first_offset, end_off - first_offset)?)
     } else {
       None
     };
diff --git a/rawler/src/rawsource.rs b/rawler/src/rawsource.rs
index 06bd3c7..670d225 100644
--- a/rawler/src/rawsource.rs
+++ b/rawler/src/rawsource.rs
@@ -72,14 +72,14 @@ impl RawSource {
   }
 
   pub fn subview(&self, offset: u64, size: u64) -> std::io::Result<&[u8]> {
-    self.buf().get(offset as usize..(offset + size) as usize).ok_or(std::io::Error::new(
+    self.buf().get(offset as usize..offset.saturating_add(size) as usize).ok_or(std::io::Error::new(
       std::io::ErrorKind::UnexpectedEof,
       format!("subview(): Offset {}+{} is behind EOF", offset, size),
     ))
   }
 
   pub fn subview_padded(&self, offset: u64, size: u64) -> std::io::Result<PaddedBuf<'_>> {
-    if offset + size <= self.len() as u64 {
+    if offset.saturating_add(size) <= self.len() as u64 {
       if offset + size + 16 <= self.len() as u64 {
         self.subview(offset, size + 16).map(|buf| PaddedBuf::new_ref(buf, size as usize))
       } else {
-- 
2.43.0


From 2636ff2eef236c45d3ae9c2e2c2b5effbf652475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:10 +0000
Subject: [PATCH 62/84] fix: BMFF: first sample of a stsc entry is counted from
 the first chunk of the entry before

---
 rawler/src/formats/bmff/stsc.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/rawler/src/formats/bmff/stsc.rs b/rawler/src/formats/bmff/stsc.rs
index 0f9216f..e1096d5 100644
--- a/rawler/src/formats/bmff/stsc.rs
+++ b/rawler/src/formats/bmff/stsc.rs
@@ -2,7 +2,7 @@
 // Copyright 2020 Alfred Gutierrez
 // Copyright 2021 Daniel Vogelbacher <daniel@chaospixel.com>
 
-use super::{BoxHeader, FourCC, ReadBox, Result, read_box_header_ext};
+use super::{BmffError, BoxHeader, FourCC, ReadBox, Result, read_box_header_ext};
 use byteorder::{BigEndian, ReadBytesExt};
 use serde::{Deserialize, Serialize};
 use std::io::{Read, Seek, SeekFrom};
@@ -62,7 +62,12 @@ impl<R: Read + Seek> ReadBox<&mut R> for StscBox {
       for _ in 1..entry_count {
         let mut entry = read_entry()?;
         // Now we know the chunk count to calc the amount of samples in holdback
-        entry.first_sample = holdback.first_sample + ((entry.first_chunk - holdback.first_sample) * holdback.samples_per_chunk);
+        entry.first_sample = entry
+          .first_chunk
+          .checked_sub(holdback.first_chunk)
+          .and_then(|chunks| chunks.checked_mul(holdback.samples_per_chunk))
+          .and_then(|samples| samples.checked_add(holdback.first_sample))
+          .ok_or_else(|| BmffError::Parse("stsc box contains invalid chunk numbers, corrupt file?".into()))?;
         entries.push(holdback);
         holdback = entry;
       }
-- 
2.43.0


From a6eb2db0e1cd46d1d0dbe44717bb2631dce62f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:11 +0000
Subject: [PATCH 63/84] fix: BMFF: brands of a ftyp box with 64 bit size end
 with the box

---
 rawler/src/formats/bmff/ftyp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rawler/src/formats/bmff/ftyp.rs b/rawler/src/formats/bmff/ftyp.rs
index e73da89..2f4191a 100644
--- a/rawler/src/formats/bmff/ftyp.rs
+++ b/rawler/src/formats/bmff/ftyp.rs
@@ -26,7 +26,7 @@ impl<R: Read + Seek> ReadBox<&mut R> for FtypBox {
     if header.size % 4 != 0 {
       return Err(BmffError::Parse("invalid ftyp size".into()));
     }
-    let brand_count = header.size.saturating_sub(16) / 4; // header + major + minor
+    let brand_count = header.size.saturating_sub(header.header_len + 8) / 4; // header + major + minor
 
     let mut brands = Vec::new();
     for _ in 0..brand_count {
-- 
2.43.0


From 104118bb83b2915b81df1429c478017bae30fd78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:19 +0000
Subject: [PATCH 64/84] fix: JFIF: APP0 segments which are no JFIF header are
 skipped, segments end at their length

---
 rawler/src/formats/jfif.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/rawler/src/formats/jfif.rs b/rawler/src/formats/jfif.rs
index 0e3ff2f..6f5a94c 100644
--- a/rawler/src/formats/jfif.rs
+++ b/rawler/src/formats/jfif.rs
@@ -225,9 +225,19 @@ impl Jfif {
       let segment = match symbol {
         0xFFD8 => Segment::SOI { offset: pos },
         0xFFD9 => Segment::EOI,
-        0xFFE0 => Segment::APP0 {
-          offset: pos,
-          app0: App0::read_segment(&mut reader, symbol)?,
+        0xFFE0 => match App0::read_segment(&mut reader, symbol) {
+          Ok(app0) => {
+            reader.seek(SeekFrom::Start(pos + 2 + app0.len))?;
+            Segment::APP0 { offset: pos, app0 }
+          }
+          Err(err) => {
+            log::warn!("Failed to read APP0 segment, it's no JFIF header: {:?}", err);
+            // Continue with the segment that follows
+            reader.seek(SeekFrom::Start(pos + 2))?;
+            let len: u64 = reader.read_u16::<BigEndian>()? as u64;
+            reader.seek(SeekFrom::Start(pos + 2 + len))?;
+            Segment::Unknown { offset: pos, marker: symbol }
+          }
         },
         0xFFE1 => match App1::read_segment(&mut reader, symbol) {
           Ok(app1) => Segment::APP1 { offset: pos, app1 },
-- 
2.43.0


From 042c681ebbd379170409564f246dc0b094ff08b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:52 +0000
Subject: [PATCH 65/84] fix: CIFF: tables and values out of range are an error

---
 rawler/src/formats/ciff/mod.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/rawler/src/formats/ciff/mod.rs b/rawler/src/formats/ciff/mod.rs
index b535960..85e3436 100644
--- a/rawler/src/formats/ciff/mod.rs
+++ b/rawler/src/formats/ciff/mod.rs
@@ -57,7 +57,7 @@ impl CiffIFD {
   }
 
   fn parse(buf: &[u8], start: usize, end: usize, depth: u32, visited: &mut HashSet<(usize, usize)>) -> Result<CiffIFD, String> {
-    if end < 4 || end > buf.len() {
+    if start.saturating_add(4) > end || end > buf.len() {
       return Err(format!("CIFF: IFD {}..{} is out of range", start, end));
     }
     if !visited.insert((start, end)) {
@@ -67,7 +67,13 @@ impl CiffIFD {
     let mut subifds = Vec::new();
 
     let valuedata_size = LEu32(buf, end - 4) as usize;
+    if start + valuedata_size + 2 > end {
+      return Err(format!("CIFF: table of IFD {}..{} is out of range", start, end));
+    }
     let dircount = LEu16(buf, start + valuedata_size) as usize;
+    if start + valuedata_size + 2 + dircount * 10 > end {
+      return Err(format!("CIFF: table of IFD {}..{} is out of range", start, end));
+    }
 
     for i in 0..dircount {
       let entry_offset: usize = start + valuedata_size + 2 + i * 10;
@@ -122,7 +128,9 @@ impl CiffEntry {
       0x4000 => (8, offset + 2),
       val => return Err(format!("CIFF: Don't know about data location {:x}", val)),
     };
-    let data = &buf[data_offset..data_offset + bytesize];
+    let data = buf
+      .get(data_offset..data_offset + bytesize)
+      .ok_or_else(|| format!("CIFF: value of tag {:x} is out of range", tag))?;
     let count = bytesize >> CiffEntry::element_shift(typ);
 
     Ok(CiffEntry {
-- 
2.43.0


From 15322a8d2e8df02f1a3588174e53fb77a377be44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:59 +0000
Subject: [PATCH 66/84] fix: bit pumps: partial last word of MSB32, data ending
 with 0xFF

---
 rawler/src/pumps.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rawler/src/pumps.rs b/rawler/src/pumps.rs
index f187554..fbeacd2 100644
--- a/rawler/src/pumps.rs
+++ b/rawler/src/pumps.rs
@@ -244,7 +244,7 @@ impl<'a> BitPump for BitPumpMSB32<'a> {
   fn peek_bits(&mut self, num: u32) -> u32 {
     if num > self.nbits {
       let (inbits, bit_cnt) = self.refill();
-      self.bits = (self.bits << 32) | inbits as u64;
+      self.bits = (self.bits << bit_cnt) | inbits as u64;
       self.nbits += bit_cnt;
       self.pos += bit_cnt as usize / 8;
     }
@@ -285,7 +285,7 @@ impl<'a> BitPump for BitPumpJPEG<'a> {
               let nextbyte = self.buffer[self.pos];
               if nextbyte != 0xff {
                 nextbyte
-              } else if self.buffer[self.pos + 1] == 0x00 {
+              } else if self.buffer.get(self.pos + 1) == Some(&0x00) {
                 self.pos += 1; // Skip the extra byte used to mark 255
                 nextbyte
               } else {
-- 
2.43.0


From 62d2d1cb90e6923fea0b10e4591237beec997a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:48 +0000
Subject: [PATCH 67/84] fix: invalid BitsPerSample is an error

---
 rawler/src/decoders/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rawler/src/decoders/mod.rs b/rawler/src/decoders/mod.rs
index 35fbc71..a59a1ac 100644
--- a/rawler/src/decoders/mod.rs
+++ b/rawler/src/decoders/mod.rs
@@ -617,6 +617,10 @@ pub fn plain_image_from_ifd(ifd: &IFD, rawsource: &RawSource) -> Result<RawImage
     endian,
   );
 
+  if bits < 1 || bits > 32 {
+    return Err(RawlerError::DecoderFailed(format!("Unsupported BitsPerSample: {}", bits)));
+  }
+
   match sample_format {
     SampleFormat::Uint => {
       let mut pixbuf = match (compression, ifd.data_mode()?) {
-- 
2.43.0


From 240d6a58c09c581fa43fea0003da3f4878ec356a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:30 +0000
Subject: [PATCH 68/84] fix: lossless JPEG streams shorter than their strip or
 tile are an error

---
 rawler/src/decoders/mod.rs            |  8 +++++++-
 rawler/src/decompressors/ljpeg/mod.rs | 14 ++++++++++++++
 rawler/src/decompressors/mod.rs       |  5 +++++
 3 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/rawler/src/decoders/mod.rs b/rawler/src/decoders/mod.rs
index a59a1ac..f846fe0 100644
--- a/rawler/src/decoders/mod.rs
+++ b/rawler/src/decoders/mod.rs
@@ -793,7 +793,13 @@ where
   let line_width = twidth * cpp;
   tiles.enumerate().par_bridge().try_for_each(|(tile_id, tile)| {
     //eprintln!("Decode tile id {}", tile_id);
-    dc.decompress(tiles_src[tile_id], 0, tile.into_iter_mut(), line_width)
+    // Lines below the image are padding, they may be missing
+    let lines = if dc.can_omit_rows() {
+      tlength.min(height - (tile_id / coltiles) * tlength)
+    } else {
+      tlength
+    };
+    dc.decompress(tiles_src[tile_id], 0, tile.into_iter_mut().take(lines), line_width)
   })?;
 
   Ok(pixbuf)
diff --git a/rawler/src/decompressors/ljpeg/mod.rs b/rawler/src/decompressors/ljpeg/mod.rs
index ee24283..d14a6e5 100644
--- a/rawler/src/decompressors/ljpeg/mod.rs
+++ b/rawler/src/decompressors/ljpeg/mod.rs
@@ -37,6 +37,16 @@ impl<'a> Decompressor<'a, u16> for LJpegDecompressor {
 
     decompressor.decode(pixbuf.pixels_mut(), 0, decompressor.width(), decompressor.width(), decompressor.height(), false)?;
 
+    if pixbuf.pixels().len() / line_width < skip_rows + lines.len() {
+      return Err(format!(
+        "ljpeg: stream has {}x{} samples, {} lines of {} samples expected",
+        decompressor.width(),
+        decompressor.height(),
+        skip_rows + lines.len(),
+        line_width
+      ));
+    }
+
     for (dst, src) in lines.zip(pixbuf.pixels().chunks_exact(line_width).skip(skip_rows)) {
       dst.copy_from_slice(src);
     }
@@ -47,6 +57,10 @@ impl<'a> Decompressor<'a, u16> for LJpegDecompressor {
   fn can_skip_rows(&self) -> bool {
     false
   }
+
+  fn can_omit_rows(&self) -> bool {
+    true
+  }
 }
 
 enum Marker {
diff --git a/rawler/src/decompressors/mod.rs b/rawler/src/decompressors/mod.rs
index 0a7ac20..401dde7 100644
--- a/rawler/src/decompressors/mod.rs
+++ b/rawler/src/decompressors/mod.rs
@@ -121,6 +121,11 @@ where
   /// bitstream, is unable to skip the previous rows as the compressed row length
   /// vary because of entropy coding.
   fn can_skip_rows(&self) -> bool;
+
+  /// Returns `true` if fewer lines than contained in the source can be requested.
+  fn can_omit_rows(&self) -> bool {
+    false
+  }
 }
 
 /// Decompresses a full image by calling a closure once per row in parallel.
-- 
2.43.0


From 6a0a49adb9ef9445f9d964e86dca4430dd9fc85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:55 +0000
Subject: [PATCH 69/84] fix: RW2 v7 decompressor reads 12 bit files with their
 bit depth

---
 rawler/src/decoders/rw2/v7decompressor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rawler/src/decoders/rw2/v7decompressor.rs b/rawler/src/decoders/rw2/v7decompressor.rs
index 0ec7d9f..d42774f 100644
--- a/rawler/src/decoders/rw2/v7decompressor.rs
+++ b/rawler/src/decoders/rw2/v7decompressor.rs
@@ -30,7 +30,7 @@ pub(crate) fn decode_panasonic_v7(buf: &[u8], width: usize, height: usize, bps:
         let start = block_id * pixels_per_block;
         let out = &mut out[start..start + pixels_per_block];
         let mut pump = BitPumpLSB::new(block);
-        out.iter_mut().for_each(|pixel| *pixel = pump.get_bits(14) as u16);
+        out.iter_mut().for_each(|pixel| *pixel = pump.get_bits(bps) as u16);
       }
       Ok(())
     }),
-- 
2.43.0


From c844d9bab8cf811cce7cdde7a74f9a223648e481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:55 +0000
Subject: [PATCH 70/84] fix: RW2 v6 decompressor maps values below the base
 offset to zero

---
 rawler/src/decoders/rw2/v6decompressor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rawler/src/decoders/rw2/v6decompressor.rs b/rawler/src/decoders/rw2/v6decompressor.rs
index 5396b38..3b9d124 100644
--- a/rawler/src/decoders/rw2/v6decompressor.rs
+++ b/rawler/src/decoders/rw2/v6decompressor.rs
@@ -137,7 +137,7 @@ pub(crate) fn decode_panasonic_v6(buf: &[u8], width: usize, height: usize, bps:
               epixel = nonzero[pix % 2];
             }
           }
-          let spix = (epixel as i32).wrapping_sub(0xf);
+          let spix = (epixel as u32).wrapping_sub(0xf); // Unsigned: values below 0xf become 0
           if spix <= spix_compare {
             out[pix] = (spix & spix_compare) as u16;
           } else {
-- 
2.43.0


From 46390639b7238e3344c33b375800f4628c63ec9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:22 +0000
Subject: [PATCH 71/84] fix: RW2 v5 decompressor fills the last, partially used
 packet

---
 rawler/src/decoders/rw2/v5decompressor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rawler/src/decoders/rw2/v5decompressor.rs b/rawler/src/decoders/rw2/v5decompressor.rs
index b6a518c..12ea610 100644
--- a/rawler/src/decoders/rw2/v5decompressor.rs
+++ b/rawler/src/decoders/rw2/v5decompressor.rs
@@ -41,7 +41,7 @@ pub(crate) fn decode_panasonic_v5(buf: &[u8], width: usize, height: usize, bps:
       swapped.extend_from_slice(&src[V5_SECTION_SPLIT_OFFSET..]);
       swapped.extend_from_slice(&src[..V5_SECTION_SPLIT_OFFSET]);
       // Transform the packets into final pixels
-      for (out, bytes) in chunk.chunks_exact_mut(pixels_per_packet).zip(swapped.chunks_exact(V5_BYTES_PER_PACKET)) {
+      for (out, bytes) in chunk.chunks_mut(pixels_per_packet).zip(swapped.chunks_exact(V5_BYTES_PER_PACKET)) {
         // The packet is a bitstream in LSB order.
         let mut pump = BitPumpLSB::new(bytes);
         out.iter_mut().for_each(|p| *p = pump.get_bits(bps) as u16);
-- 
2.43.0


From 23a48c5c3e6533981d77d0fe957c7b1ae2e0237d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:18 +0000
Subject: [PATCH 72/84] fix: RW2 v8 strips need no padding behind their last
 code

---
 rawler/src/decoders/rw2/v8decompressor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rawler/src/decoders/rw2/v8decompressor.rs b/rawler/src/decoders/rw2/v8decompressor.rs
index 8c2df1b..ac6eaf4 100644
--- a/rawler/src/decoders/rw2/v8decompressor.rs
+++ b/rawler/src/decoders/rw2/v8decompressor.rs
@@ -382,7 +382,7 @@ pub(crate) fn decode_panasonic_v8(rawfile: &RawSource, width: usize, height: usi
   let total_strip_count = (params.num_of_strips_h * params.num_of_strips_v) as usize;
   let mut bitstreams = Vec::with_capacity(total_strip_count);
   for strip_id in 0..total_strip_count {
-    bitstreams.push(rawfile.subview(params.strip_byte_offsets[strip_id] as u64, (params.strip_data_size[strip_id] as u64 + 7) / 8)?);
+    bitstreams.push(rawfile.subview_padded(params.strip_byte_offsets[strip_id] as u64, (params.strip_data_size[strip_id] as u64 + 7) / 8)?);
   }
 
   // Parallel decode multiple strips
-- 
2.43.0


From 5b494d2deb0fcd07d5540c95862e6034eafd9954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:23 +0000
Subject: [PATCH 73/84] fix: process-raw and extract replace links at the
 output name instead of writing through them

---
 bin/dnglab/dnglab-lib/src/jobs/extractraw.rs  | 6 +++++-
 bin/dnglab/dnglab-lib/src/jobs/process_raw.rs | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/bin/dnglab/dnglab-lib/src/jobs/extractraw.rs b/bin/dnglab/dnglab-lib/src/jobs/extractraw.rs
index 71bd706..e250fea 100644
--- a/bin/dnglab/dnglab-lib/src/jobs/extractraw.rs
+++ b/bin/dnglab/dnglab-lib/src/jobs/extractraw.rs
@@ -73,7 +73,11 @@ impl ExtractRawJob {
           .and_then(|data| OriginalDigest::try_from(data).ok());
 
         let original = OriginalCompressed::new(&mut Cursor::new(val), digest)?;
-        let file = if self.replace {
+        // Replace a file instead of writing into it: it may be a link to (another) input file.
+        if self.replace && self.output.is_file() {
+          remove_file(&self.output)?;
+        }
+        let file = if self.replace && self.output.exists() {
           File::create(&self.output)?
         } else {
           match OpenOptions::new().write(true).create_new(true).open(&self.output) {
diff --git a/bin/dnglab/dnglab-lib/src/jobs/process_raw.rs b/bin/dnglab/dnglab-lib/src/jobs/process_raw.rs
index 547be3e..4d72288 100644
--- a/bin/dnglab/dnglab-lib/src/jobs/process_raw.rs
+++ b/bin/dnglab/dnglab-lib/src/jobs/process_raw.rs
@@ -79,7 +79,11 @@ impl Raw2Image {
       .to_string_lossy()
       .to_string();
 
-    let file = if self.replace {
+    // Replace a file instead of writing into it: it may be a link to (another) input file.
+    if self.replace && self.output.is_file() {
+      remove_file(&self.output)?;
+    }
+    let file = if self.replace && self.output.exists() {
       File::create(&self.output)?
     } else {
       match std::fs::OpenOptions::new().write(true).create_new(true).open(&self.output) {
-- 
2.43.0


From e08946504b686e61179895b28da6866da1972bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:32 +0000
Subject: [PATCH 74/84] fix: RW2 black levels belong to the colors of the CFA

---
 rawler/src/decoders/rw2.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rawler/src/decoders/rw2.rs b/rawler/src/decoders/rw2.rs
index 8750419..6b3d03b 100644
--- a/rawler/src/decoders/rw2.rs
+++ b/rawler/src/decoders/rw2.rs
@@ -265,7 +265,10 @@ impl<'a> Rw2Decoder<'a> {
       let r = fetch_tiff_tag!(self.tiff, PanasonicTag::BlackLevelRed).force_u16(0);
       let g = fetch_tiff_tag!(self.tiff, PanasonicTag::BlackLevelGreen).force_u16(0);
       let b = fetch_tiff_tag!(self.tiff, PanasonicTag::BlackLevelBlue).force_u16(0);
-      Ok(Some(BlackLevel::new(&[r, g, g, b], self.camera.cfa.width, self.camera.cfa.height, 1)))
+      // The tags give levels by color, the order of the colors depends on the CFA
+      let cfa = self.get_cfa()?.unwrap_or_else(|| self.camera.cfa.clone());
+      let levels: Vec<u16> = cfa.flat_pattern().into_iter().map(|color| [r, g, b][color as usize]).collect();
+      Ok(Some(BlackLevel::new(&levels, cfa.width, cfa.height, 1)))
     } else {
       Ok(None)
     }
-- 
2.43.0


From f93d8c25e7dc4d03911141f842d75fae665625c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:06 +0000
Subject: [PATCH 75/84] fix: carry lens specification, make and model over from
 the EXIF of the source

---
 rawler/src/exif.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rawler/src/exif.rs b/rawler/src/exif.rs
index 6e0e2ce..33bf15a 100644
--- a/rawler/src/exif.rs
+++ b/rawler/src/exif.rs
@@ -161,6 +161,9 @@ impl Exif {
           (ExifTag::OwnerName, Value::Ascii(data)) => self.owner_name = data.strings().get(0).map(trim),
           (ExifTag::SerialNumber, Value::Ascii(data)) => self.serial_number = data.strings().get(0).map(trim),
           (ExifTag::LensSerialNumber, Value::Ascii(data)) => self.lens_serial_number = data.strings().get(0).map(trim),
+          (ExifTag::LensSpecification, Value::Rational(data)) => self.lens_spec = data.clone().try_into().ok(),
+          (ExifTag::LensMake, Value::Ascii(data)) => self.lens_make = data.strings().get(0).map(trim),
+          (ExifTag::LensModel, Value::Ascii(data)) => self.lens_model = data.strings().get(0).map(trim),
           (ExifTag::UserComment, Value::Ascii(data)) => self.user_comment = data.strings().get(0).map(trim),
           //(ExifTag::MakerNotes, Value::Undefined(data)) => self.makernotes = Some(data.clone()),
           (tag, _value) => {
-- 
2.43.0


From fac446ee3d73fbc6293862b9dd84e00fc94d1dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:06 +0000
Subject: [PATCH 76/84] fix: apply the artist option of process-raw

---
 rawler/src/imgop/develop.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rawler/src/imgop/develop.rs b/rawler/src/imgop/develop.rs
index 4efdb98..e464a73 100644
--- a/rawler/src/imgop/develop.rs
+++ b/rawler/src/imgop/develop.rs
@@ -58,7 +58,10 @@ pub fn process_raw_image<W: Write + Seek + Send>(raw: &Path, image_file: &mut W,
   let decoder = crate::get_decoder(&rawfile)?;
   let raw_params = RawDecodeParams { image_index: params.index };
   let rawimage = decoder.raw_image(&rawfile, &raw_params, false)?;
-  let metadata = decoder.raw_metadata(&rawfile, &raw_params)?;
+  let mut metadata = decoder.raw_metadata(&rawfile, &raw_params)?;
+  if let Some(artist) = &params.artist {
+    metadata.exif.artist = Some(artist.clone());
+  }
   let develop = RawDevelop::default();
   develop.develop(&rawimage, &metadata, image_file)?;
   Ok(())
-- 
2.43.0


From a69fec6696971dcba9dee3ccea64be9571bcb018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:06 +0000
Subject: [PATCH 77/84] fix: keep the EXIF orientation of developed images

---
 rawler/src/imgop/develop.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rawler/src/imgop/develop.rs b/rawler/src/imgop/develop.rs
index e464a73..8404336 100644
--- a/rawler/src/imgop/develop.rs
+++ b/rawler/src/imgop/develop.rs
@@ -360,7 +360,9 @@ impl RawDevelop {
     let exif_offset = exif_ifd.build(&mut tiff)?;
 
     root_ifd.add_tag(TiffCommonTag::ExifIFDPointer, exif_offset);
-    root_ifd.add_tag(TiffCommonTag::Orientation, rawimage.orientation.to_u16());
+    if !root_ifd.contains(TiffCommonTag::Orientation) {
+      root_ifd.add_tag(TiffCommonTag::Orientation, rawimage.orientation.to_u16());
+    }
 
     match intermediate {
       Intermediate::Monochrome(pixels) => {
-- 
2.43.0


From db3f268e3ca152fc38c17f85adc90a1d497872ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:06 +0000
Subject: [PATCH 78/84] fix: write unknown orientation as the TIFF default

---
 rawler/src/decoders/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rawler/src/decoders/mod.rs b/rawler/src/decoders/mod.rs
index f846fe0..c642c5e 100644
--- a/rawler/src/decoders/mod.rs
+++ b/rawler/src/decoders/mod.rs
@@ -436,7 +436,7 @@ impl Orientation {
   /// Convert orientation to the Tiff Orientation value
   pub fn to_u16(&self) -> u16 {
     match *self {
-      Orientation::Unknown => 0,
+      Orientation::Unknown => 1, // There is no TIFF value for this, the default is 1
       Orientation::Normal => 1,
       Orientation::HorizontalFlip => 2,
       Orientation::Rotate180 => 3,
-- 
2.43.0


From de39aaa1c74501495b4c777e4fbc08f1b8a846ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:06 +0000
Subject: [PATCH 79/84] fix: process-raw --keep-mtime fails on unreadable dates

---
 bin/dnglab/dnglab-lib/src/jobs/process_raw.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bin/dnglab/dnglab-lib/src/jobs/process_raw.rs b/bin/dnglab/dnglab-lib/src/jobs/process_raw.rs
index 4d72288..d61472a 100644
--- a/bin/dnglab/dnglab-lib/src/jobs/process_raw.rs
+++ b/bin/dnglab/dnglab-lib/src/jobs/process_raw.rs
@@ -60,7 +60,11 @@ pub(crate) fn copy_mtime_from_rawsource(rawfile: &RawSource, file: &File, fallba
   let decoder = rawler::get_decoder(rawfile)?;
   let raw_params = RawDecodeParams { image_index: params.index };
   let metadata = decoder.raw_metadata(rawfile, &raw_params)?;
-  if let Some(ts) = metadata.last_modified()?.or(fallback) {
+  let last_modified = metadata.last_modified().unwrap_or_else(|err| {
+    log::warn!("Unable to read last modification time: {}", err);
+    None
+  });
+  if let Some(ts) = last_modified.or(fallback) {
     file.set_modified(ts)?;
     let datetime: chrono::DateTime<Local> = ts.into();
     log::debug!("Set mtime for output file to {}", datetime.format("%d/%m/%Y %T"));
-- 
2.43.0


From 190185c5a5f222248df7e2a69ef307614a0ddb53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:06 +0000
Subject: [PATCH 80/84] fix: don't choose a lens from nothing but its mount

---
 rawler/src/lens.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rawler/src/lens.rs b/rawler/src/lens.rs
index b2a1350..6a321e1 100644
--- a/rawler/src/lens.rs
+++ b/rawler/src/lens.rs
@@ -222,6 +222,11 @@ impl LensResolver {
       }
     }
 
+    // A mount or an aperture alone doesn't identify a lens, even if just one is known for the mount
+    if self.lens_id.is_none() && self.lens_make.is_none() && self.lens_model.is_none() && self.focal_len.is_none() {
+      return None;
+    }
+
     // If we have a lens id (common) then we can filter as much as possible
 
     let matches: Vec<&LensDescription> = LENSES_DB
-- 
2.43.0


From 733f06c2c0f754165fb9ef262ea0f4e1a247a092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:30 +0000
Subject: [PATCH 81/84] fix: apply the crop option of process-raw

---
 rawler/src/imgop/develop.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rawler/src/imgop/develop.rs b/rawler/src/imgop/develop.rs
index 8404336..1ffdc1e 100644
--- a/rawler/src/imgop/develop.rs
+++ b/rawler/src/imgop/develop.rs
@@ -62,7 +62,12 @@ pub fn process_raw_image<W: Write + Seek + Send>(raw: &Path, image_file: &mut W,
   if let Some(artist) = &params.artist {
     metadata.exif.artist = Some(artist.clone());
   }
-  let develop = RawDevelop::default();
+  let mut develop = RawDevelop::default();
+  develop.steps.retain(|step| match params.crop {
+    CropMode::Best => true,
+    CropMode::ActiveArea => *step != ProcessingStep::CropDefault,
+    CropMode::None => ![ProcessingStep::CropActiveArea, ProcessingStep::CropDefault].contains(step),
+  });
   develop.develop(&rawimage, &metadata, image_file)?;
   Ok(())
 }
-- 
2.43.0


From e21ee2c981bcb3b208db099502d9a2ac0ea77e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:56 +0000
Subject: [PATCH 82/84] fix: makedng removes an existing output file it was not
 allowed to replace

---
 bin/dnglab/dnglab-lib/src/makedng.rs | 50 +++++++++++++++++-----------
 1 file changed, 31 insertions(+), 19 deletions(-)

diff --git a/bin/dnglab/dnglab-lib/src/makedng.rs b/bin/dnglab/dnglab-lib/src/makedng.rs
index 57ba717..e344453 100644
--- a/bin/dnglab/dnglab-lib/src/makedng.rs
+++ b/bin/dnglab/dnglab-lib/src/makedng.rs
@@ -20,13 +20,13 @@ use rawler::imgop::xyz::{self, Illuminant};
 use rawler::imgop::{scale_double_to_u16, scale_u8_to_double, scale_u16_to_double};
 use rawler::rawsource::RawSource;
 use rawler::tags::{DngTag, TiffCommonTag};
-use std::fs::{File, remove_file};
-use std::io::BufWriter;
+use std::fs::{File, OpenOptions, remove_file, rename};
+use std::io::{BufWriter, Write};
 use std::num::ParseFloatError;
-use std::path::{Path, PathBuf};
+use std::panic::{AssertUnwindSafe, catch_unwind};
+use std::path::PathBuf;
 
 use std::str::FromStr;
-use std::time::Instant;
 
 fn get_input_path<'a>(inputs: &'a [&PathBuf], maps: &[&InputSourceUsageMap], usage: InputUsage) -> std::io::Result<&'a PathBuf> {
   maps
@@ -36,26 +36,43 @@ fn get_input_path<'a>(inputs: &'a [&PathBuf], maps: &[&InputSourceUsageMap], usa
     .ok_or_else(|| std::io::Error::new(std::io::ErrorKind::InvalidInput, format!("No input found for '{:?}'", usage)))
 }
 
+/// Entry point for Clap sub command `makedng`
 pub async fn makedng(options: &ArgMatches) -> crate::Result<()> {
   let dest_path: &PathBuf = options
     .get_one("OUTPUT")
     .ok_or_else(|| crate::AppError::InvalidCmdSwitch("Output path is required".into()))?;
 
-  match makedng_internal(options, dest_path).await {
-    Ok(_) => Ok(()),
+  // A new file is created in place, an existing one is only replaced once the DNG is complete.
+  let replace = options.get_flag("override");
+  let out_path = match dest_path.file_name() {
+    Some(name) if replace => dest_path.with_file_name(format!(".{}-{}.tmp", name.to_string_lossy(), std::process::id())),
+    _ => dest_path.to_owned(),
+  };
+  let file = match OpenOptions::new().write(true).create_new(true).open(&out_path) {
+    Ok(file) => file,
+    Err(err) if err.kind() == std::io::ErrorKind::AlreadyExists => return Err(crate::AppError::AlreadyExists(out_path)),
+    Err(err) => return Err(err.into()),
+  };
+
+  let built = catch_unwind(AssertUnwindSafe(|| makedng_internal(options, file)))
+    .unwrap_or_else(|_| Err(crate::AppError::General("Decoder panicked".into())))
+    .and_then(|_| if replace { Ok(rename(&out_path, dest_path)?) } else { Ok(()) });
+
+  match built {
+    Ok(_) => {
+      println!("File saved to: {}", dest_path.display());
+      Ok(())
+    }
     Err(err) => {
-      if let Err(err) = remove_file(dest_path) {
-        log::error!("Failed to delete DNG file after decompress error: {:?}", err);
+      if let Err(err) = remove_file(&out_path) {
+        log::error!("Failed to delete DNG file after error: {:?}", err);
       }
       Err(err)
     }
   }
 }
 
-/// Entry point for Clap sub command `makedng`
-pub async fn makedng_internal(options: &ArgMatches, dest_path: &Path) -> crate::Result<()> {
-  let _now = Instant::now();
-
+fn makedng_internal(options: &ArgMatches, file: File) -> crate::Result<()> {
   let inputs: Vec<&PathBuf> = options
     .get_many("inputs")
     .ok_or_else(|| crate::AppError::InvalidCmdSwitch("inputs are required".into()))?
@@ -71,11 +88,7 @@ pub async fn makedng_internal(options: &ArgMatches, dest_path: &Path) -> crate::
     )));
   }
 
-  if dest_path.exists() && !options.get_flag("override") {
-    return Err(crate::AppError::AlreadyExists(dest_path.to_owned()));
-  }
-
-  let mut stream = BufWriter::new(File::create(dest_path)?);
+  let mut stream = BufWriter::new(file);
 
   let backward_version = options
     .get_one::<DngVersion>("dng_backward_version")
@@ -268,8 +281,7 @@ pub async fn makedng_internal(options: &ArgMatches, dest_path: &Path) -> crate::
   //eprintln!("XYZ: {:?}", xyz);
 
   dng.close()?;
-
-  println!("File saved to: {}", dest_path.display());
+  stream.flush()?;
 
   Ok(())
 }
-- 
2.43.0


From a9cb1cf805185ceff071adbe16f61ee0433b0782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:25 +0000
Subject: [PATCH 83/84] fix: adapt color matrices from D65 to their own
 illuminant when developing

---
 rawler/src/imgop/develop.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rawler/src/imgop/develop.rs b/rawler/src/imgop/develop.rs
index 1ffdc1e..0d17c45 100644
--- a/rawler/src/imgop/develop.rs
+++ b/rawler/src/imgop/develop.rs
@@ -267,7 +267,8 @@ impl RawDevelop {
       } else {
         log::warn!("Image has no D65 illuminant matrix, alternative for Bradford adaption: {:?}", illu);
         d65_matrix = match matrix.len() {
-          9 => adapt_bradford(&illu, &Illuminant::D65, &transform_1d::<3, 3>(&matrix).expect("Transformation failed"))
+          // XYZ relative to D65 has to be adapted to what the matrix is made for
+          9 => adapt_bradford(&Illuminant::D65, &illu, &transform_1d::<3, 3>(&matrix).expect("Transformation failed"))
             .as_flattened()
             .to_vec(),
           len => return Err(format!("Unable to adapt a color matrix with {} values", len).into()),
-- 
2.43.0


From aa890d34bae186d59ed2bf52874a4dce565e122f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:35 +0000
Subject: [PATCH 84/84] fix: makedng --artist is overwritten by the artist of
 the EXIF input

---
 bin/dnglab/dnglab-lib/src/makedng.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/bin/dnglab/dnglab-lib/src/makedng.rs b/bin/dnglab/dnglab-lib/src/makedng.rs
index e344453..848192b 100644
--- a/bin/dnglab/dnglab-lib/src/makedng.rs
+++ b/bin/dnglab/dnglab-lib/src/makedng.rs
@@ -97,10 +97,6 @@ fn makedng_internal(options: &ArgMatches, file: File) -> crate::Result<()> {
 
   let mut dng = DngWriter::new(&mut stream, backward_version)?;
 
-  if let Some(artist) = options.get_one::<String>("artist") {
-    dng.root_ifd_mut().add_tag(TiffCommonTag::Artist, artist);
-  }
-
   if let Some(make) = options.get_one::<String>("make") {
     dng.root_ifd_mut().add_tag(TiffCommonTag::Make, make);
   }
@@ -223,6 +219,11 @@ fn makedng_internal(options: &ArgMatches, file: File) -> crate::Result<()> {
     eprintln!("No EXIF input file found");
   }
 
+  // What is given by option takes precedence over the EXIF input
+  if let Some(artist) = options.get_one::<String>("artist") {
+    dng.root_ifd_mut().add_tag(TiffCommonTag::Artist, artist);
+  }
+
   if let Ok(xmp_input) = get_input_path(&inputs, &maps, InputUsage::Xmp) {
     let rawfile = RawSource::new(xmp_input)?;
 
-- 
2.43.0

