From 68b3cbfecde6a820b136e217188398d7799be39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:03 +0000
Subject: [PATCH 01/12] fix: don't panic when a failing command's log is not
 UTF-8

Printing the log of a failed baseline (or with --all-logs/--caught) unwrapped
read_to_string, so a test that writes arbitrary bytes aborted the whole run
with a panic and exit code 101. Show the log lossily instead.
---
 src/outcome.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/outcome.rs b/src/outcome.rs
index 2d83ab4..23cd475 100644
--- a/src/outcome.rs
+++ b/src/outcome.rs
@@ -3,7 +3,7 @@
 //! The outcome of running a single mutation scenario, or a whole lab.
 
 use std::fmt;
-use std::fs::read_to_string;
+use std::fs::read;
 use std::time::{Duration, Instant};
 
 use anyhow::Context;
@@ -190,7 +190,9 @@ impl ScenarioOutcome {
     }
 
     pub fn get_log_content(&self) -> Result<String> {
-        read_to_string(self.output_dir.join(&self.log_path)).context("read log file")
+        // The log holds whatever the commands wrote, which is not necessarily UTF-8.
+        let content = read(self.output_dir.join(&self.log_path)).context("read log file")?;
+        Ok(String::from_utf8_lossy(&content).into_owned())
     }
 
     pub fn last_phase(&self) -> Phase {
-- 
2.43.0


From 47f3dcbdb4ee5d82b82fb4005753bbe0eaf54396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:05 +0000
Subject: [PATCH 02/12] fix: report errors flushing outcomes.json and
 mutants.json

The BufWriter was flushed only by its drop, which discards errors, so a full
disk could leave truncated reports while the run exited as if all was well.
---
 src/output.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/output.rs b/src/output.rs
index 8caae46..71eaf57 100644
--- a/src/output.rs
+++ b/src/output.rs
@@ -202,11 +202,10 @@ impl OutputDir {
     ///
     /// Called multiple times as the lab runs.
     fn write_lab_outcome(&self) -> Result<()> {
-        serde_json::to_writer_pretty(
-            BufWriter::new(File::create(self.path.join("outcomes.json"))?),
-            &self.lab_outcome,
-        )
-        .context("write outcomes.json")
+        let mut w = BufWriter::new(File::create(self.path.join("outcomes.json"))?);
+        serde_json::to_writer_pretty(&mut w, &self.lab_outcome).context("write outcomes.json")?;
+        // Flush explicitly: errors are ignored when a BufWriter is dropped.
+        w.flush().context("write outcomes.json")
     }
 
     /// Add the result of testing one scenario.
@@ -237,11 +236,10 @@ impl OutputDir {
     }
 
     pub fn write_mutants_list(&self, mutants: &[Mutant]) -> Result<()> {
-        serde_json::to_writer_pretty(
-            BufWriter::new(File::create(self.path.join("mutants.json"))?),
-            mutants,
-        )
-        .context("write mutants.json")
+        let mut w = BufWriter::new(File::create(self.path.join("mutants.json"))?);
+        serde_json::to_writer_pretty(&mut w, mutants).context("write mutants.json")?;
+        // Flush explicitly: errors are ignored when a BufWriter is dropped.
+        w.flush().context("write mutants.json")
     }
 
     pub fn take_lab_outcome(self) -> LabOutcome {
-- 
2.43.0


From 6e3ef4494c5fcfb6c0c91ac735117109c93e2461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:06 +0000
Subject: [PATCH 03/12] fix: restore the source file if applying a mutant fails

With --in-place, a write error (such as a full disk) while applying a mutant
left the user's source file truncated or partly overwritten.
---
 src/lab.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/lab.rs b/src/lab.rs
index 793ce02..d65d2b2 100644
--- a/src/lab.rs
+++ b/src/lab.rs
@@ -270,7 +270,15 @@ impl Worker<'_> {
             let mutated_code = mutant.mutated_code();
             let diff = scenario.mutant().unwrap().diff(&mutated_code);
             scenario_output.write_diff(&diff)?;
-            mutant.apply(self.build_dir, &mutated_code)?;
+            if let Err(err) = mutant.apply(self.build_dir, &mutated_code) {
+                // The file might have been truncated or partly written, which matters if it's
+                // the user's own source tree.
+                error!(?err, "failed to apply mutant");
+                if let Err(revert_err) = mutant.revert(self.build_dir) {
+                    error!(?revert_err, "failed to revert mutant");
+                }
+                return Err(err);
+            }
         }
 
         let mut outcome = ScenarioOutcome::new(&scenario_output, scenario.clone());
-- 
2.43.0


From 1da785340b8bc4cac449de4b992af63625b469a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:40 +0000
Subject: [PATCH 04/12] fix: restore the original line endings when reverting a
 mutant

Source is normalized to Unix line endings when it's read, and the normalized
text was written back when reverting, so --in-place rewrote every mutated
CRLF source file in the user's tree with LF endings.
---
 src/mutant.rs |  2 +-
 src/source.rs | 28 +++++++++++++++++++++++-----
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/mutant.rs b/src/mutant.rs
index 3c6486a..1b2b59c 100644
--- a/src/mutant.rs
+++ b/src/mutant.rs
@@ -211,7 +211,7 @@ impl Mutant {
         trace!(?self, "Revert mutant");
         build_dir.overwrite_file(
             &self.source_file.tree_relative_path,
-            self.source_file.code(),
+            self.source_file.original(),
         )
     }
 
diff --git a/src/source.rs b/src/source.rs
index 9dc353e..2136c4e 100644
--- a/src/source.rs
+++ b/src/source.rs
@@ -20,7 +20,8 @@ use crate::span::LineColumn;
 /// or as a path that can be opened (relative to cwd or absolute.)
 ///
 /// Code is normalized to Unix line endings as it's read in, and modified
-/// files are written with Unix line endings.
+/// files are written with Unix line endings. The original text is retained so that
+/// it can be exactly restored.
 #[derive(Clone, Debug, Eq, PartialEq)]
 #[allow(clippy::module_name_repetitions)]
 pub struct SourceFile {
@@ -36,6 +37,11 @@ pub struct SourceFile {
     /// amounts of memory.
     pub code: Arc<String>,
 
+    /// The text of the file exactly as it was read, before normalizing line endings.
+    ///
+    /// This shares storage with `code` if they're the same.
+    original: Arc<String>,
+
     /// True if this is the top source file for its target: typically but
     /// not always `lib.rs` or `main.rs`.
     pub is_top: bool,
@@ -62,14 +68,19 @@ impl SourceFile {
             return Ok(None);
         }
         let full_path = tree_path.join(tree_relative_path);
-        let code = Arc::new(
+        let original = Arc::new(
             read_to_string(&full_path)
-                .with_context(|| format!("failed to read source of {full_path:?}"))?
-                .replace("\r\n", "\n"),
+                .with_context(|| format!("failed to read source of {full_path:?}"))?,
         );
+        let code = if original.contains("\r\n") {
+            Arc::new(original.replace("\r\n", "\n"))
+        } else {
+            Arc::clone(&original)
+        };
         Ok(Some(SourceFile {
             tree_relative_path: tree_relative_path.to_owned(),
             code,
+            original,
             package: Arc::new(package.clone()),
             is_top,
         }))
@@ -89,9 +100,11 @@ impl SourceFile {
         } else {
             vec!["src/lib.rs".into()]
         };
+        let code = Arc::new(code.to_owned());
         SourceFile {
             tree_relative_path,
-            code: Arc::new(code.to_owned()),
+            original: Arc::clone(&code),
+            code,
             package: Arc::new(Package {
                 name: package_name.to_owned(),
                 relative_dir: Utf8PathBuf::new(),
@@ -115,6 +128,11 @@ impl SourceFile {
         self.code.as_str()
     }
 
+    /// The exact text read from the file, including its original line endings.
+    pub fn original(&self) -> &str {
+        self.original.as_str()
+    }
+
     /// Format a location within this source file for display to the user
     pub fn format_source_location(&self, location: LineColumn) -> String {
         let source_file = self.tree_relative_slashes();
-- 
2.43.0


From 5db09eb8b2364304c41203de9c07eeb78f9b051c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:41 +0000
Subject: [PATCH 05/12] fix: don't write mutants through symlinks out of the
 build directory

If a source file is a symlink that resolves outside of the copied tree, for
example an absolute symlink, applying a mutant to the copy wrote through it to
the user's own file. Replace the link with a regular file in the copy instead.
---
 src/build_dir.rs | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/src/build_dir.rs b/src/build_dir.rs
index 2df19e9..1eb3900 100644
--- a/src/build_dir.rs
+++ b/src/build_dir.rs
@@ -4,7 +4,7 @@
 
 #![warn(clippy::pedantic)]
 
-use std::fs::write;
+use std::fs::{remove_file, write};
 
 use anyhow::{ensure, Context};
 use camino::{Utf8Path, Utf8PathBuf};
@@ -32,6 +32,8 @@ pub struct BuildDir {
     /// object is dropped. If None, there's nothing to clean up.
     #[allow(dead_code)]
     temp_dir: Option<TempDir>,
+    /// True if this is the original source directory rather than a copy of it.
+    in_place: bool,
 }
 
 impl BuildDir {
@@ -72,7 +74,11 @@ impl BuildDir {
         } else {
             Some(temp_dir)
         };
-        let build_dir = BuildDir { path, temp_dir };
+        let build_dir = BuildDir {
+            path,
+            temp_dir,
+            in_place: false,
+        };
         Ok(build_dir)
     }
 
@@ -80,6 +86,7 @@ impl BuildDir {
     pub fn in_place(source_path: &Utf8Path) -> Result<BuildDir> {
         Ok(BuildDir {
             temp_dir: None,
+            in_place: true,
             path: source_path
                 .canonicalize_utf8()
                 .context("canonicalize source path")?,
@@ -92,8 +99,25 @@ impl BuildDir {
 
     pub fn overwrite_file(&self, relative_path: &Utf8Path, code: &str) -> Result<()> {
         let full_path = self.path.join(relative_path);
-        // for safety, don't follow symlinks
         ensure!(full_path.is_file(), "{full_path:?} is not a file");
+        if !self.in_place {
+            // for safety, don't follow symlinks out of the copy, back to the original source
+            let root = self
+                .path
+                .canonicalize_utf8()
+                .context("canonicalize build directory")?;
+            let resolved = full_path
+                .canonicalize_utf8()
+                .with_context(|| format!("canonicalize {full_path:?}"))?;
+            if !resolved.starts_with(&root) {
+                ensure!(
+                    full_path.is_symlink(),
+                    "{full_path:?} is outside of the build directory"
+                );
+                remove_file(&full_path)
+                    .with_context(|| format!("failed to remove symlink {full_path:?}"))?;
+            }
+        }
         write(&full_path, code.as_bytes())
             .with_context(|| format!("failed to write code to {full_path:?}"))
     }
-- 
2.43.0


From 4787cccebecff7d6d35305f359cb0435a2248c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:30 +0000
Subject: [PATCH 06/12] fix: make relative paths absolute in all dependency
 tables of the manifest

Only [dependencies], [replace] and [patch] were rewritten in the copied tree,
so a tree with a path dev-dependency, build-dependency, target-specific
dependency or workspace dependency outside of the tree could not be built in
the copy.
---
 src/manifest.rs | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/manifest.rs b/src/manifest.rs
index 5089420..6b240a0 100644
--- a/src/manifest.rs
+++ b/src/manifest.rs
@@ -43,8 +43,20 @@ fn fix_manifest_toml(
     let mut value: toml::Value = manifest_toml.parse().context("parse manifest")?;
     let orig_value = value.clone();
     if let Some(top_table) = value.as_table_mut() {
-        if let Some(dependencies) = top_table.get_mut("dependencies") {
-            fix_dependency_table(dependencies, manifest_source_dir);
+        fix_all_dependency_tables(top_table, manifest_source_dir);
+        if let Some(target_table) = top_table.get_mut("target").and_then(|t| t.as_table_mut()) {
+            // The keys are target triples or `cfg(..)` expressions.
+            for (_name, target) in target_table {
+                if let Some(target) = target.as_table_mut() {
+                    fix_all_dependency_tables(target, manifest_source_dir);
+                }
+            }
+        }
+        if let Some(workspace) = top_table
+            .get_mut("workspace")
+            .and_then(|w| w.as_table_mut())
+        {
+            fix_all_dependency_tables(workspace, manifest_source_dir);
         }
         if let Some(replace) = top_table.get_mut("replace") {
             // The replace section is a table from package name/version to a
@@ -69,6 +81,15 @@ fn fix_manifest_toml(
     }
 }
 
+/// Fix up paths in all the dependency tables, of any kind, directly within a table.
+fn fix_all_dependency_tables(table: &mut toml::Table, manifest_source_dir: &Utf8Path) {
+    for kind in ["dependencies", "dev-dependencies", "build-dependencies"] {
+        if let Some(dependencies) = table.get_mut(kind) {
+            fix_dependency_table(dependencies, manifest_source_dir);
+        }
+    }
+}
+
 /// Fix up paths in a manifest "dependency table".
 ///
 /// This is a pattern that can occur at various places in the manifest. It's a
-- 
2.43.0


From 7598adab8976acffeb9961b4b6f9cff1d4a2f7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:54 +0000
Subject: [PATCH 07/12] fix: don't panic if a scenario's log can't be read back
 to be shown

An I/O error on the log file while printing it made the whole run panic with
exit code 101. Print the error in place of the log.
---
 src/console.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/console.rs b/src/console.rs
index 2580549..1444d11 100644
--- a/src/console.rs
+++ b/src/console.rs
@@ -108,12 +108,10 @@ impl Console {
         }
         if outcome.should_show_logs() || options.show_all_logs {
             s.push('\n');
-            s.push_str(
-                outcome
-                    .get_log_content()
-                    .expect("read log content")
-                    .as_str(),
-            );
+            match outcome.get_log_content() {
+                Ok(content) => s.push_str(&content),
+                Err(err) => s.push_str(&format!("{err:#}")),
+            }
         }
         s.push('\n');
         self.message(&s);
-- 
2.43.0


From 33c8f812a3b46e89e4b45b70e6b91e3cffa2699a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:16 +0000
Subject: [PATCH 08/12] fix: don't write fixed-up manifests through symlinks
 into the original tree

If Cargo.toml or .cargo/config.toml is an absolute symlink, rewriting the
relative paths in the scratch copy changed the file that it points to.
---
 src/manifest.rs | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/manifest.rs b/src/manifest.rs
index 6b240a0..d058a0f 100644
--- a/src/manifest.rs
+++ b/src/manifest.rs
@@ -5,9 +5,9 @@
 //! In particular, when the tree is copied we have to fix up relative paths, so
 //! that they still work from the new location of the scratch directory.
 
-use std::fs::{read_to_string, write};
+use std::fs::{read_to_string, remove_file, write};
 
-use anyhow::Context;
+use anyhow::{ensure, Context};
 use camino::Utf8Path;
 use tracing::debug;
 
@@ -26,13 +26,32 @@ pub fn fix_manifest(manifest_scratch_path: &Utf8Path, source_dir: &Utf8Path) ->
     if let Some(changed_toml) = fix_manifest_toml(&toml_str, source_dir)? {
         let toml_str =
             toml::to_string_pretty(&changed_toml).context("serialize changed manifest")?;
-        write(manifest_scratch_path, toml_str.as_bytes()).with_context(|| {
-            format!("Failed to write fixed manifest to {manifest_scratch_path}")
-        })?;
+        let build_path = manifest_scratch_path
+            .parent()
+            .expect("manifest has a parent");
+        overwrite_scratch_file(build_path, manifest_scratch_path, &toml_str).with_context(
+            || format!("Failed to write fixed manifest to {manifest_scratch_path}"),
+        )?;
     }
     Ok(())
 }
 
+/// Overwrite a file in a scratch directory, without following symlinks back to the original tree.
+fn overwrite_scratch_file(build_path: &Utf8Path, path: &Utf8Path, content: &str) -> Result<()> {
+    let resolved = path.canonicalize_utf8().context("canonicalize path")?;
+    let root = build_path
+        .canonicalize_utf8()
+        .context("canonicalize build directory")?;
+    if !resolved.starts_with(root) {
+        ensure!(
+            path.is_symlink(),
+            "{path} is outside of the build directory"
+        );
+        remove_file(path).with_context(|| format!("failed to remove symlink {path}"))?;
+    }
+    write(path, content.as_bytes()).with_context(|| format!("failed to write {path}"))
+}
+
 /// Fix any relative paths within a Cargo.toml manifest.
 ///
 /// Returns the new manifest, or None if no changes were made.
@@ -129,7 +148,7 @@ pub fn fix_cargo_config(build_path: &Utf8Path, source_path: &Utf8Path) -> Result
     if config_path.exists() {
         let toml_str = read_to_string(&config_path).context("read .cargo/config.toml")?;
         if let Some(changed_toml) = fix_cargo_config_toml(&toml_str, source_path)? {
-            write(build_path.join(&config_path), changed_toml.as_bytes())
+            overwrite_scratch_file(build_path, &config_path, &changed_toml)
                 .context("write .cargo/config.toml")?;
         }
     }
-- 
2.43.0


From 75c4ccdd97162910b228cf10d84d3983fc37a689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:43 +0000
Subject: [PATCH 09/12] fix: pass --profile, not --cargo-profile, to cargo
 check

--check runs cargo check even with --test-tool=nextest, and cargo check rejects
nextest's --cargo-profile option.
---
 src/cargo.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/cargo.rs b/src/cargo.rs
index a1db2ac..85229ff 100644
--- a/src/cargo.rs
+++ b/src/cargo.rs
@@ -126,12 +126,13 @@ fn cargo_argv(packages: &PackageSelection, phase: Phase, options: &Options) -> V
     }
     if let Some(profile) = &options.profile {
         match options.test_tool {
-            TestTool::Cargo => {
-                cargo_args.push(format!("--profile={profile}"));
-            }
-            TestTool::Nextest => {
+            // `cargo check` is run by cargo, whatever tool runs the tests.
+            TestTool::Nextest if phase != Phase::Check => {
                 cargo_args.push(format!("--cargo-profile={profile}"));
             }
+            _ => {
+                cargo_args.push(format!("--profile={profile}"));
+            }
         }
     }
     cargo_args.push("--verbose".to_string());
-- 
2.43.0


From 2a3ea981fdffceefd5a8fc9db654101e9cc57cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:58 +0000
Subject: [PATCH 10/12] fix: kill subprocesses that don't terminate when asked
 to

A test that ignores SIGTERM made the timeout, and Ctrl-C, wait for it forever.
---
 src/process.rs         | 18 ++++++++++++++++--
 src/process/unix.rs    | 14 +++++++++++++-
 src/process/windows.rs |  5 +++++
 3 files changed, 34 insertions(+), 3 deletions(-)

diff --git a/src/process.rs b/src/process.rs
index 439c1f6..4902e66 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -26,15 +26,20 @@ use crate::Result;
 /// How frequently to check if a subprocess finished.
 const WAIT_POLL_INTERVAL: Duration = Duration::from_millis(50);
 
+/// How long to wait for a subprocess to exit after asking it to terminate, before killing it.
+///
+/// This is longer than the time that nextest by default gives to the tests it runs.
+const TERMINATE_GRACE_PERIOD: Duration = Duration::from_secs(15);
+
 #[cfg(windows)]
 mod windows;
 #[cfg(windows)]
-use windows::{configure_command, terminate_child};
+use windows::{configure_command, kill_child, terminate_child};
 
 #[cfg(unix)]
 mod unix;
 #[cfg(unix)]
-use unix::{configure_command, terminate_child};
+use unix::{configure_command, kill_child, terminate_child};
 
 pub struct Process {
     child: Child,
@@ -131,6 +136,15 @@ impl Process {
         debug!("terminating child process");
         terminate_child(&mut self.child)?;
         trace!("wait for child after termination");
+        let asked = Instant::now();
+        while let Ok(None) = self.child.try_wait() {
+            if asked.elapsed() > TERMINATE_GRACE_PERIOD {
+                debug!("child has not terminated, killing it");
+                kill_child(&mut self.child)?;
+                break;
+            }
+            sleep(WAIT_POLL_INTERVAL);
+        }
         match self.child.wait() {
             Err(err) => debug!(?err, "Failed to wait for child after termination"),
             Ok(exit) => debug!("terminated child exit status {exit:?}"),
diff --git a/src/process/unix.rs b/src/process/unix.rs
index d5f52aa..ccf0714 100644
--- a/src/process/unix.rs
+++ b/src/process/unix.rs
@@ -14,8 +14,20 @@ use super::Exit;
 #[allow(unknown_lints, clippy::needless_pass_by_ref_mut)] // To match Windows
 #[mutants::skip] // hard to exercise the ESRCH edge case
 pub(super) fn terminate_child(child: &mut Child) -> Result<()> {
+    signal_child(child, Signal::SIGTERM)
+}
+
+#[allow(unknown_lints, clippy::needless_pass_by_ref_mut)] // To match Windows
+#[mutants::skip] // only for children that survive termination
+pub(super) fn kill_child(child: &mut Child) -> Result<()> {
+    signal_child(child, Signal::SIGKILL)
+}
+
+/// Send a signal to the process group of a child.
+#[mutants::skip] // hard to exercise the ESRCH edge case
+fn signal_child(child: &Child, signal: Signal) -> Result<()> {
     let pid = Pid::from_raw(child.id().try_into().unwrap());
-    match killpg(pid, Signal::SIGTERM) {
+    match killpg(pid, signal) {
         Ok(()) => Ok(()),
         Err(Errno::ESRCH) => {
             Ok(()) // Probably already gone
diff --git a/src/process/windows.rs b/src/process/windows.rs
index c37950f..74d660d 100644
--- a/src/process/windows.rs
+++ b/src/process/windows.rs
@@ -11,6 +11,11 @@ pub(super) fn terminate_child(child: &mut Child) -> Result<()> {
     child.kill().context("Kill child")
 }
 
+#[mutants::skip] // only for children that survive termination
+pub(super) fn kill_child(child: &mut Child) -> Result<()> {
+    terminate_child(child)
+}
+
 #[mutants::skip]
 pub(super) fn configure_command(_command: &mut Command) {}
 
-- 
2.43.0


From df966f1ee6906d85c7ce1ed22456604d119ca95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:39 +0000
Subject: [PATCH 11/12] fix: don't visit a source file twice, testing its
 mutants twice

A module declared by both lib.rs and main.rs was walked once for each of them, so
its mutants were listed, tested, and recorded twice.
---
 src/visit.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/visit.rs b/src/visit.rs
index 174ccc5..28a18d7 100644
--- a/src/visit.rs
+++ b/src/visit.rs
@@ -9,7 +9,7 @@
 
 #![warn(clippy::pedantic)]
 
-use std::collections::VecDeque;
+use std::collections::{HashSet, VecDeque};
 use std::sync::Arc;
 use std::vec;
 
@@ -92,7 +92,13 @@ fn walk_package(
     let mut files = Vec::new();
     let mut filename_queue =
         VecDeque::from_iter(package.top_sources.iter().map(|p| (p.to_owned(), true)));
+    let mut visited = HashSet::new();
     while let Some((path, package_top)) = filename_queue.pop_front() {
+        if !visited.insert(path.clone()) {
+            // For example, a module that's declared by both `lib.rs` and `main.rs`.
+            debug!(?path, "source file was already visited");
+            continue;
+        }
         let Some(source_file) = SourceFile::load(workspace_dir, &path, package, package_top)?
         else {
             info!("Skipping source file outside of tree: {path:?}");
-- 
2.43.0


From e57613c86f7b6acd7e792845aeb294f30cdbe5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:30 +0000
Subject: [PATCH 12/12] fix: keep going when the terminal can't be written

Nutmeg and print! panic if stderr or stdout is closed, for example because a process
they're piped to was stopped by the same ctrl-c. With --in-place this left the source
tree mutated, and running child processes were left behind.
---
 src/console.rs | 40 ++++++++++++++++++++++++++++++++++------
 1 file changed, 34 insertions(+), 6 deletions(-)

diff --git a/src/console.rs b/src/console.rs
index 1444d11..e5dbcec 100644
--- a/src/console.rs
+++ b/src/console.rs
@@ -6,6 +6,7 @@ use std::borrow::Cow;
 use std::fmt::Write;
 use std::fs::File;
 use std::io;
+use std::panic::{catch_unwind, AssertUnwindSafe};
 use std::sync::{Arc, Mutex};
 use std::time::{Duration, Instant};
 
@@ -28,7 +29,7 @@ use crate::{Mutant, Options, Phase};
 /// This wraps the Nutmeg view and model.
 pub struct Console {
     /// The inner view through which progress bars and messages are drawn.
-    view: Arc<nutmeg::View<LabModel>>,
+    view: Arc<View>,
 
     /// The `mutants.out/debug.log` file, if it's open yet.
     debug_log: Arc<Mutex<Option<File>>>,
@@ -37,7 +38,7 @@ pub struct Console {
 impl Console {
     pub fn new() -> Console {
         Console {
-            view: Arc::new(nutmeg::View::new(LabModel::default(), nutmeg_options())),
+            view: Arc::new(View::new()),
             debug_log: Arc::new(Mutex::new(None)),
         }
     }
@@ -196,7 +197,8 @@ impl Console {
         // stderr...
         // <https://github.com/sourcefrog/nutmeg/issues/11>
         self.view.clear();
-        print!("{message}");
+        // Unlike `print!` this doesn't panic if stdout is closed.
+        let _ = io::Write::write_all(&mut io::stdout(), message.as_bytes());
     }
 
     pub fn tick(&self) {
@@ -250,13 +252,39 @@ impl Console {
     }
 }
 
+/// A Nutmeg view that ignores failures to write to the terminal.
+///
+/// Nutmeg panics if the terminal was closed, or if stderr is a pipe to a process that was stopped
+/// by the same ctrl-c as this one. That shouldn't stop us from terminating the child processes
+/// and restoring the source tree.
+struct View(nutmeg::View<LabModel>);
+
+impl View {
+    fn new() -> View {
+        View(nutmeg::View::new(LabModel::default(), nutmeg_options()))
+    }
+
+    fn update(&self, update_fn: impl FnOnce(&mut LabModel)) {
+        self.0.inspect_model(update_fn);
+        let _ = catch_unwind(AssertUnwindSafe(|| self.0.update(|_| ())));
+    }
+
+    fn clear(&self) {
+        let _ = catch_unwind(AssertUnwindSafe(|| self.0.clear()));
+    }
+
+    fn message(&self, message: &str) {
+        let _ = catch_unwind(AssertUnwindSafe(|| self.0.message(message)));
+    }
+}
+
 /// An interface for tree-walking code to publish progress.
 pub(crate) struct WalkProgress {
-    view: Arc<nutmeg::View<LabModel>>,
+    view: Arc<View>,
 }
 
 impl WalkProgress {
-    fn new(view: &Arc<nutmeg::View<LabModel>>) -> WalkProgress {
+    fn new(view: &Arc<View>) -> WalkProgress {
         view.update(|model| {
             model.walk_tree = Some(WalkModel::default());
         });
@@ -298,7 +326,7 @@ impl Default for Console {
 
 /// Write trace output to the terminal via the console.
 pub struct TerminalWriter {
-    view: Arc<nutmeg::View<LabModel>>,
+    view: Arc<View>,
 }
 
 impl MakeWriter<'_> for TerminalWriter {
-- 
2.43.0

