From 0842520f037faade8869e3b7ce096184a43e0e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:22 +0000
Subject: [PATCH 01/34] fix: read and write the task state atomically

get_task_state reads the state on every worker without the lock that
set_task_state takes: a data race as soon as a step fails.
---
 buildcc/lib/env/src/task_state.cpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/buildcc/lib/env/src/task_state.cpp b/buildcc/lib/env/src/task_state.cpp
index d0b14a6..e1047b1 100644
--- a/buildcc/lib/env/src/task_state.cpp
+++ b/buildcc/lib/env/src/task_state.cpp
@@ -16,23 +16,19 @@
 
 #include "env/task_state.h"
 
-#include <mutex>
+#include <atomic>
 
 namespace {
 
-std::mutex current_state_mutex;
-buildcc::env::TaskState current_state{buildcc::env::TaskState::SUCCESS};
+// NOTE, Read and written by the tasks of all the workers
+std::atomic<buildcc::env::TaskState> current_state{
+    buildcc::env::TaskState::SUCCESS};
 
 } // namespace
 
 namespace buildcc::env {
 
 void set_task_state(TaskState state) {
-  // NOTE, `Avoid resetting` if same state is provided
-  if (state == get_task_state()) {
-    return;
-  }
-  std::lock_guard<std::mutex> guard(current_state_mutex);
   current_state = state;
 }
 
-- 
2.43.0


From 03877ab90368959b37ad4ff9ba2df65f9287cc9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:23 +0000
Subject: [PATCH 02/34] fix: report a failing test instead of hanging

TestRunner throws on the worker that runs it, which ends the worker and
leaves RunTest waiting for ever.
---
 buildcc/lib/args/src/tasks.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/buildcc/lib/args/src/tasks.cpp b/buildcc/lib/args/src/tasks.cpp
index 8328671..2e784f0 100644
--- a/buildcc/lib/args/src/tasks.cpp
+++ b/buildcc/lib/args/src/tasks.cpp
@@ -42,13 +42,21 @@ void Reg::Instance::RunBuild() {
 
 void Reg::Instance::RunTest() {
   tf::Taskflow test_tf{"Tests"};
-  test_tf.for_each(
-      tests_.begin(), tests_.end(),
-      [](const std::pair<std::string, TestInfo> &p) { p.second.TestRunner(); });
+  test_tf.for_each(tests_.begin(), tests_.end(),
+                   [](const std::pair<std::string, TestInfo> &p) {
+                     // NOTE, An exception must not leave the worker
+                     try {
+                       p.second.TestRunner();
+                     } catch (...) {
+                       env::set_task_state(env::TaskState::FAILURE);
+                     }
+                   });
 
   tf::Executor executor;
   executor.run(test_tf);
   executor.wait_for_all();
+  env::assert_fatal(env::get_task_state() == env::TaskState::SUCCESS,
+                    "Task state is not successful!");
 }
 
 } // namespace buildcc
-- 
2.43.0


From 7563643c3a27cddd185c5ff539c3c509b065b688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:23 +0000
Subject: [PATCH 03/34] fix: report storage errors in save_file and load_file

save_file never saw an error of the buffered data, which is written when
the stream is closed; load_file took a file it could only read in part for
the whole file.
---
 buildcc/lib/env/include/env/util.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/buildcc/lib/env/include/env/util.h b/buildcc/lib/env/include/env/util.h
index 45a7144..d87ad47 100644
--- a/buildcc/lib/env/include/env/util.h
+++ b/buildcc/lib/env/include/env/util.h
@@ -58,8 +58,10 @@ inline bool save_file(const char *name, const char *buf, size_t len,
   }
 
   // * 1
-  std::ostream &os = ofs.write(buf, len);
-  return !os.bad();
+  ofs.write(buf, len);
+  // Buffered data is only written (and its errors known) when closing
+  ofs.close();
+  return !ofs.fail();
 }
 
 inline bool save_file(const char *name, const std::string &buf, bool binary) {
@@ -98,11 +100,18 @@ inline bool load_file(const char *name, bool binary, std::string *buf) {
     // * 3
     // flawfinder: ignore
     ifs.read(buf->data(), buf->size());
+    if (ifs.fail()) {
+      return false;
+    }
   } else {
     // This is slower, but works correctly on all platforms for text files.
     // * 4
     std::ostringstream oss;
     oss << ifs.rdbuf();
+    // Errors when reading are set on the output stream
+    if (oss.bad()) {
+      return false;
+    }
     *buf = oss.str();
   }
   return !ifs.bad();
-- 
2.43.0


From b63f0beef00de857f6a5dbb6eb363b07fd97b68c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:23 +0000
Subject: [PATCH 04/34] fix: reject a dependency of a builder on itself

The cycle made the executor skip the builder and report success.
---
 buildcc/lib/args/src/register.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/buildcc/lib/args/src/register.cpp b/buildcc/lib/args/src/register.cpp
index e141541..dba375b 100644
--- a/buildcc/lib/args/src/register.cpp
+++ b/buildcc/lib/args/src/register.cpp
@@ -157,6 +157,10 @@ void Reg::Instance::Dep(const internal::BuilderInterface &target,
                     "dependency before Instance::Dep API");
 
   const std::string &dep_unique_id = dependency.GetUniqueId();
+  env::assert_fatal(
+      !(target.GetUniqueId() == dep_unique_id),
+      fmt::format("Cyclic dependency detected when adding '{}'",
+                  dep_unique_id));
   DepDetectDuplicate(target_iter->second, dep_unique_id);
   DepDetectCyclicDependency(target_iter->second, dep_unique_id);
 
-- 
2.43.0


From 80ca547f49ba50c64163abd1512dd49c44e6a9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:23 +0000
Subject: [PATCH 05/34] fix: use all of a compiler's answer in toolchain
 verification

Output arrives in pieces as the pipe is read: only the first one was taken
for the version and the architecture.
---
 buildcc/toolchains/src/toolchain_infos.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/buildcc/toolchains/src/toolchain_infos.cpp b/buildcc/toolchains/src/toolchain_infos.cpp
index 1b7a1fc..1f1b8cd 100644
--- a/buildcc/toolchains/src/toolchain_infos.cpp
+++ b/buildcc/toolchains/src/toolchain_infos.cpp
@@ -38,6 +38,15 @@ buildcc::ToolchainConfig GetGccToolchainConfig() {
   return config;
 }
 
+// NOTE, One output can arrive in any number of pieces
+std::string JoinOutput(const std::vector<std::string> &pieces) {
+  std::string output;
+  for (const auto &piece : pieces) {
+    output += piece;
+  }
+  return output;
+}
+
 buildcc::env::optional<std::string>
 GetGccCompilerVersion(const buildcc::env::Command &command) {
   std::vector<std::string> stdout_data;
@@ -46,7 +55,7 @@ GetGccCompilerVersion(const buildcc::env::Command &command) {
   if (!executed || stdout_data.empty()) {
     return {};
   }
-  return stdout_data[0];
+  return JoinOutput(stdout_data);
 }
 
 buildcc::env::optional<std::string>
@@ -57,7 +66,7 @@ GetGccTargetArchitecture(const buildcc::env::Command &command) {
   if (!executed || stdout_data.empty()) {
     return {};
   }
-  return stdout_data[0];
+  return JoinOutput(stdout_data);
 }
 
 buildcc::env::optional<buildcc::ToolchainCompilerInfo>
-- 
2.43.0


From 2e666831ec3bf57fe02a190e57b335c1a13f0187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:06 +0000
Subject: [PATCH 06/34] fix: record the input hashes a generator and a pch were
 built from

The hashes stored for the inputs of a generator were computed after its
callback had run, and the ones of the headers of a target after its pch was
compiled: an input updated meanwhile was taken as built from then on.
---
 buildcc/lib/target/include/target/custom_generator.h    | 4 +++-
 buildcc/lib/target/src/target/friend/compile_object.cpp | 6 +++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/buildcc/lib/target/include/target/custom_generator.h b/buildcc/lib/target/include/target/custom_generator.h
index a9dec03..7376acb 100644
--- a/buildcc/lib/target/include/target/custom_generator.h
+++ b/buildcc/lib/target/include/target/custom_generator.h
@@ -49,9 +49,11 @@ struct UserCustomGeneratorSchema : public internal::CustomGeneratorSchema {
     std::shared_ptr<CustomBlobHandler> blob_handler{nullptr};
   };
 
+  // NOTE, The hashes of the inputs must be computed before `generate_cb` is
+  // invoked (see UserIdInfo::ConvertToInternal). They are not recomputed here
+  // since inputs might have been updated after `generate_cb` has read them
   void ConvertToInternal() {
     for (auto &[id_key, id_info] : ids) {
-      id_info.ConvertToInternal();
       auto [_, success] = internal_ids.try_emplace(id_key, id_info);
       env::assert_fatal(success, fmt::format("Could not save {}", id_key));
     }
diff --git a/buildcc/lib/target/src/target/friend/compile_object.cpp b/buildcc/lib/target/src/target/friend/compile_object.cpp
index f905426..e11c885 100644
--- a/buildcc/lib/target/src/target/friend/compile_object.cpp
+++ b/buildcc/lib/target/src/target/friend/compile_object.cpp
@@ -218,7 +218,11 @@ void CompileObject::PreObjectCompile() {
   target_user_schema.sources.ComputeHashForAll();
 
   // Convert user_header_files to current_header_files
-  target_user_schema.headers.ComputeHashForAll();
+  // NOTE, `CompilePch` has already computed this before compiling the pch.
+  // Headers updated after that must not be considered as compiled
+  if (!target_.state_.ContainsPch()) {
+    target_user_schema.headers.ComputeHashForAll();
+  }
 
   // Convert user_compile_dependencies to current_compile_dependencies
   target_user_schema.compile_dependencies.ComputeHashForAll();
-- 
2.43.0


From 71c25d567fefe5d334b882ac44d7bf4f2e47c917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:29 +0000
Subject: [PATCH 07/34] fix: recompile the objects of a target when all its
 pchs are removed

The pchs are compared by the pch task, which a target without pch does not
have: objects compiled against the removed pch were kept.
---
 buildcc/lib/target/src/target/friend/compile_object.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/buildcc/lib/target/src/target/friend/compile_object.cpp b/buildcc/lib/target/src/target/friend/compile_object.cpp
index e11c885..9cb1424 100644
--- a/buildcc/lib/target/src/target/friend/compile_object.cpp
+++ b/buildcc/lib/target/src/target/friend/compile_object.cpp
@@ -194,7 +194,8 @@ void CompileObject::BuildObjectCompile(
                  user_target_schema.include_dirs)) {
       target_.dirty_ = true;
       target_.DirChanged();
-    } else if (!(load_target_schema.headers == user_target_schema.headers)) {
+    } else if (!(load_target_schema.headers == user_target_schema.headers) ||
+               !(load_target_schema.pchs == user_target_schema.pchs)) {
       target_.dirty_ = true;
       target_.PathChanged();
     } else if (!(load_target_schema.compile_dependencies ==
-- 
2.43.0


From 3cb3b7cbd32891574a8f5e79af80c4955ec77c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:14 +0000
Subject: [PATCH 08/34] fix: drop the stored state of a builder before its
 outputs are modified

A build that was killed left the state of the previous build behind next to
outputs of the interrupted one. Going back to the previous inputs or flags
made the next build take these outputs as up to date.
---
 .../src/custom_generator/custom_generator.cpp     | 13 +++++++++----
 .../target/src/target/friend/compile_object.cpp   |  4 ++++
 .../lib/target/src/target/friend/compile_pch.cpp  |  1 +
 .../lib/target/src/target/friend/link_target.cpp  |  1 +
 .../schema/interface/serialization_interface.h    | 15 +++++++++++++++
 5 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/buildcc/lib/target/src/custom_generator/custom_generator.cpp b/buildcc/lib/target/src/custom_generator/custom_generator.cpp
index 138bb9f..c8b29f6 100644
--- a/buildcc/lib/target/src/custom_generator/custom_generator.cpp
+++ b/buildcc/lib/target/src/custom_generator/custom_generator.cpp
@@ -118,10 +118,11 @@ struct TaskState {
 struct TaskFunctor {
   TaskFunctor(const std::string &id,
               UserCustomGeneratorSchema::UserIdInfo &id_info,
+              const internal::CustomGeneratorSerialization &serialization,
               const Comparator &comparator, const env::Command &command,
               TaskState &state)
-      : id_(id), id_info_(id_info), comparator(comparator), command_(command),
-        state_(state) {}
+      : id_(id), id_info_(id_info), serialization_(serialization),
+        comparator(comparator), command_(command), state_(state) {}
 
   void operator()() {
     if (env::get_task_state() != env::TaskState::SUCCESS) {
@@ -140,6 +141,7 @@ struct TaskFunctor {
                                    id_info_.outputs.GetPaths(),
                                    id_info_.userblob);
 
+        serialization_.RemoveFile();
         bool success = id_info_.generate_cb(ctx);
         env::assert_fatal(success,
                           fmt::format("Generate Cb failed for id {}", id_));
@@ -154,6 +156,7 @@ private:
   const std::string &id_;
   UserCustomGeneratorSchema::UserIdInfo &id_info_;
 
+  const internal::CustomGeneratorSerialization &serialization_;
   const Comparator &comparator;
   const env::Command &command_;
 
@@ -277,14 +280,16 @@ void CustomGenerator::GenerateTask() {
       for (const auto &id : comparator.GetAddedIds()) {
         states.try_emplace(id, TaskState());
         auto &id_info = user_.ids.at(id);
-        TaskFunctor functor(id, id_info, comparator, command_, states.at(id));
+        TaskFunctor functor(id, id_info, serialization_, comparator, command_,
+                            states.at(id));
         subflow.emplace(functor).name(id);
       }
 
       for (const auto &id : comparator.GetCheckLaterIds()) {
         states.try_emplace(id, TaskState());
         auto &id_info = user_.ids.at(id);
-        TaskFunctor functor(id, id_info, comparator, command_, states.at(id));
+        TaskFunctor functor(id, id_info, serialization_, comparator, command_,
+                            states.at(id));
         subflow.emplace(functor).name(id);
       }
 
diff --git a/buildcc/lib/target/src/target/friend/compile_object.cpp b/buildcc/lib/target/src/target/friend/compile_object.cpp
index 9cb1424..8b8df0d 100644
--- a/buildcc/lib/target/src/target/friend/compile_object.cpp
+++ b/buildcc/lib/target/src/target/friend/compile_object.cpp
@@ -210,6 +210,10 @@ void CompileObject::BuildObjectCompile(
   } else {
     RecompileSources(source_files, dummy_source_files);
   }
+
+  if (target_.dirty_) {
+    serialization.RemoveFile();
+  }
 }
 
 void CompileObject::PreObjectCompile() {
diff --git a/buildcc/lib/target/src/target/friend/compile_pch.cpp b/buildcc/lib/target/src/target/friend/compile_pch.cpp
index be3b514..e37fa64 100644
--- a/buildcc/lib/target/src/target/friend/compile_pch.cpp
+++ b/buildcc/lib/target/src/target/friend/compile_pch.cpp
@@ -108,6 +108,7 @@ void CompilePch::BuildCompile() {
   }
 
   if (target_.dirty_) {
+    serialization.RemoveFile();
     AggregateToFile(header_path_, target_.GetPchFiles());
     if (!fs::exists(source_path_)) {
       const std::string p = fmt::format("{}", source_path_);
diff --git a/buildcc/lib/target/src/target/friend/link_target.cpp b/buildcc/lib/target/src/target/friend/link_target.cpp
index fb5219a..e6b5ff1 100644
--- a/buildcc/lib/target/src/target/friend/link_target.cpp
+++ b/buildcc/lib/target/src/target/friend/link_target.cpp
@@ -101,6 +101,7 @@ void LinkTarget::BuildLink() {
   }
 
   if (target_.dirty_) {
+    serialization.RemoveFile();
     bool success = env::Command::Execute(command_);
     env::assert_fatal(success, "Failed to link target");
     target_.serialization_.UpdateTargetCompiled();
diff --git a/buildcc/schema/include/schema/interface/serialization_interface.h b/buildcc/schema/include/schema/interface/serialization_interface.h
index c09bdde..529c493 100644
--- a/buildcc/schema/include/schema/interface/serialization_interface.h
+++ b/buildcc/schema/include/schema/interface/serialization_interface.h
@@ -56,6 +56,21 @@ public:
 
   bool StoreToFile() { return Store(serialized_file_); }
 
+  /**
+   * @brief Removes the serialized file of the previous build
+   * Must be invoked before the outputs it describes are modified. Otherwise an
+   * interrupted build leaves a file behind that describes outputs which do not
+   * exist anymore
+   */
+  void RemoveFile() const {
+    std::error_code errcode;
+    if (fs::is_regular_file(serialized_file_, errcode)) {
+      fs::remove(serialized_file_, errcode);
+      env::assert_fatal(errcode.value() == 0,
+                        fmt::format("Could not remove {}", serialized_file_));
+    }
+  }
+
   const fs::path &GetSerializedFile() const noexcept {
     return serialized_file_;
   }
-- 
2.43.0


From 987e9ddda053418c729566adab969e8e401ff440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:46 +0000
Subject: [PATCH 09/34] fix: recreate a static library instead of updating it

Archivers update an existing archive in place: objects of removed sources
stayed in the library, and a library damaged by an interrupted build made every
later build fail.
---
 buildcc/lib/target/src/target/friend/link_target.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/buildcc/lib/target/src/target/friend/link_target.cpp b/buildcc/lib/target/src/target/friend/link_target.cpp
index e6b5ff1..edf2a16 100644
--- a/buildcc/lib/target/src/target/friend/link_target.cpp
+++ b/buildcc/lib/target/src/target/friend/link_target.cpp
@@ -102,6 +102,14 @@ void LinkTarget::BuildLink() {
 
   if (target_.dirty_) {
     serialization.RemoveFile();
+    // NOTE, Archivers update an existing archive in place: members of sources
+    // which have been removed are kept and a damaged archive is not replaced
+    if (target_.GetType() == TargetType::StaticLibrary) {
+      std::error_code errcode;
+      fs::remove(output_, errcode);
+      env::assert_fatal(errcode.value() == 0,
+                        fmt::format("Could not remove {}", output_));
+    }
     bool success = env::Command::Execute(command_);
     env::assert_fatal(success, "Failed to link target");
     target_.serialization_.UpdateTargetCompiled();
-- 
2.43.0


From 4f17cb40d2a33ad1265d8f4b5b7dcb778c742fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:24:46 +0000
Subject: [PATCH 10/34] fix: regenerate when the stored blob of a generator
 cannot be used

A damaged blob, or one of another type, made the generator fail on every run
until its state file was deleted by hand.
---
 .../custom_generator/custom_blob_handler.h      | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/buildcc/lib/target/include/target/custom_generator/custom_blob_handler.h b/buildcc/lib/target/include/target/custom_generator/custom_blob_handler.h
index 3b64d23..ddb9b31 100644
--- a/buildcc/lib/target/include/target/custom_generator/custom_blob_handler.h
+++ b/buildcc/lib/target/include/target/custom_generator/custom_blob_handler.h
@@ -36,13 +36,11 @@ public:
 
   bool CheckChanged(const std::vector<uint8_t> &previous,
                     const std::vector<uint8_t> &current) const {
-    env::assert_fatal(
-        Verify(previous),
-        "Stored blob is corrupted or User verification is incorrect");
     env::assert_fatal(
         Verify(current),
         "Current blob is corrupted or User verification is incorrect");
-    return !IsEqual(previous, current);
+    // A stored blob that cannot be used (corrupted, other format) is a change
+    return !Verify(previous) || !IsEqual(previous, current);
   };
 
   std::vector<uint8_t> GetSerializedData() const {
@@ -88,7 +86,16 @@ private:
 
   bool Verify(const std::vector<uint8_t> &serialized_data) const override {
     json j = json::from_msgpack(serialized_data, true, false);
-    return !j.is_discarded();
+    if (j.is_discarded()) {
+      return false;
+    }
+    try {
+      Type deserialized;
+      j.get_to(deserialized);
+    } catch (const std::exception &) {
+      return false;
+    }
+    return true;
   }
 
   bool IsEqual(const std::vector<uint8_t> &previous,
-- 
2.43.0


From 2e78380d03178ffe0a50ee653aac5831d2d6b2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:26:23 +0000
Subject: [PATCH 11/34] fix: regenerate templates when the value of a pattern
 changes

---
 buildcc/lib/env/include/env/command.h                   | 7 +++++++
 buildcc/lib/target/src/generator/template_generator.cpp | 7 ++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/buildcc/lib/env/include/env/command.h b/buildcc/lib/env/include/env/command.h
index c054e6b..5fa79e9 100644
--- a/buildcc/lib/env/include/env/command.h
+++ b/buildcc/lib/env/include/env/command.h
@@ -86,6 +86,13 @@ public:
    */
   const std::string &GetDefaultValueByKey(const std::string &key) const;
 
+  /**
+   * @brief Get all the key/value pairs added to DefaultArgument(s)
+   */
+  const std::unordered_map<std::string, std::string> &GetDefaultValues() const {
+    return default_values_;
+  }
+
 private:
   std::unordered_map<std::string, std::string> default_values_;
 };
diff --git a/buildcc/lib/target/src/generator/template_generator.cpp b/buildcc/lib/target/src/generator/template_generator.cpp
index 45cab89..7552d82 100644
--- a/buildcc/lib/target/src/generator/template_generator.cpp
+++ b/buildcc/lib/target/src/generator/template_generator.cpp
@@ -62,12 +62,17 @@ std::string TemplateGenerator::Parse(const std::string &pattern) const {
  * Use `GetTaskflow` for the registered tasks
  */
 void TemplateGenerator::Build() {
+  // The outputs depend on the values of the patterns
+  using PatternValues = std::unordered_map<std::string, std::string>;
+  auto pattern_blob_handler =
+      std::make_shared<TypedCustomBlobHandler<PatternValues>>(
+          ConstCommand().GetDefaultValues());
   for (const auto &info : template_infos_) {
     std::string name = string_as_path(ParsePattern(info.input_pattern))
                            .lexically_relative(Project::GetRootDir())
                            .string();
     AddIdInfo(name, {info.input_pattern}, {info.output_pattern},
-              template_generate_cb);
+              template_generate_cb, pattern_blob_handler);
   }
   this->CustomGenerator::Build();
 }
-- 
2.43.0


From de962fdab07c95adc4b6499c8757018d81d792e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:27:17 +0000
Subject: [PATCH 12/34] fix: bring compile_commands.json up to date whenever it
 is not

It was only written by a run that had built one of the targets. A run that was
killed or failed before that, and a changed list of targets, left a missing,
incomplete or outdated file behind for good.
---
 .../plugins/src/clang_compile_commands.cpp    | 25 ++++++++++---------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/buildcc/plugins/src/clang_compile_commands.cpp b/buildcc/plugins/src/clang_compile_commands.cpp
index c1ef59f..8cc907e 100644
--- a/buildcc/plugins/src/clang_compile_commands.cpp
+++ b/buildcc/plugins/src/clang_compile_commands.cpp
@@ -16,8 +16,6 @@
 
 #include "plugins/clang_compile_commands.h"
 
-#include <algorithm>
-
 // env
 #include "env/assert_fatal.h"
 #include "env/util.h"
@@ -47,16 +45,6 @@ void ClangCompileCommands::AddTarget(const BaseTarget *target) {
 }
 
 void ClangCompileCommands::Generate() {
-  // Early terminate if rebuild is not required
-  const bool regenerate =
-      std::any_of(targets_.begin(), targets_.end(),
-                  [](const BaseTarget *target) { return target->IsBuilt(); });
-  if (!regenerate) {
-    env::log_trace("ClangCompileCommands", "Generate -> false");
-    return;
-  }
-  env::log_trace("ClangCompileCommands", "Generate -> true");
-
   std::vector<std::string> compile_command_list;
 
   for (const auto *t : targets_) {
@@ -84,6 +72,19 @@ void ClangCompileCommands::Generate() {
   std::filesystem::path file =
       std::filesystem::path(buildcc::Project::GetBuildDir()) /
       "compile_commands.json";
+
+  // Early terminate if rebuild is not required
+  // NOTE, The targets cannot tell us this, an earlier run might not have come
+  // this far or the list of targets might be a different one
+  std::string previous;
+  const bool loaded =
+      env::load_file(path_as_string(file).c_str(), false, &previous);
+  if (loaded && previous == compile_commands) {
+    env::log_trace("ClangCompileCommands", "Generate -> false");
+    return;
+  }
+  env::log_trace("ClangCompileCommands", "Generate -> true");
+
   bool saved =
       env::save_file(path_as_string(file).c_str(), compile_commands, false);
   env::assert_fatal(saved, "Could not save compile_commands.json");
-- 
2.43.0


From 982bc4b3bf24c6942c73aa54b74a889e946fdc7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:27:31 +0000
Subject: [PATCH 13/34] fix: escape the strings in compile_commands.json

---
 buildcc/plugins/src/clang_compile_commands.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/buildcc/plugins/src/clang_compile_commands.cpp b/buildcc/plugins/src/clang_compile_commands.cpp
index 8cc907e..701a3f0 100644
--- a/buildcc/plugins/src/clang_compile_commands.cpp
+++ b/buildcc/plugins/src/clang_compile_commands.cpp
@@ -29,12 +29,17 @@ namespace {
 // clang-format off
 constexpr const char *const clang_compile_command_format =
 R"({{
-  "directory": "{directory}",
-  "command": "{command}",
-  "file": "{file}"
+  "directory": {directory},
+  "command": {command},
+  "file": {file}
 }})";
 // clang-format on
 
+// Quoted and escaped
+std::string json_string(const std::string &str) {
+  return json(str).dump(-1, ' ', false, json::error_handler_t::replace);
+}
+
 } // namespace
 
 namespace buildcc::plugin {
@@ -58,8 +63,10 @@ void ClangCompileCommands::Generate() {
       std::string directory = fmt::format("{}", Project::GetBuildDir());
 
       std::string temp = fmt::format(
-          clang_compile_command_format, fmt::arg("directory", directory),
-          fmt::arg("command", command), fmt::arg("file", sf));
+          clang_compile_command_format,
+          fmt::arg("directory", json_string(directory)),
+          fmt::arg("command", json_string(command)),
+          fmt::arg("file", json_string(sf)));
       compile_command_list.push_back(temp);
     }
   }
-- 
2.43.0


From b471a184edaeacf1eb00cdd6943af43206f81652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:53 +0000
Subject: [PATCH 14/34] fix: report errors when load_file reads a text file

---
 buildcc/lib/env/include/env/util.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/buildcc/lib/env/include/env/util.h b/buildcc/lib/env/include/env/util.h
index d87ad47..51a78c3 100644
--- a/buildcc/lib/env/include/env/util.h
+++ b/buildcc/lib/env/include/env/util.h
@@ -107,10 +107,13 @@ inline bool load_file(const char *name, bool binary, std::string *buf) {
     // This is slower, but works correctly on all platforms for text files.
     // * 4
     std::ostringstream oss;
-    oss << ifs.rdbuf();
-    // Errors when reading are set on the output stream
-    if (oss.bad()) {
-      return false;
+    // NOTE, `oss` fails when there is nothing to read (empty file) or when
+    // there is an error while reading
+    if (ifs.peek() != std::ifstream::traits_type::eof()) {
+      oss << ifs.rdbuf();
+      if (oss.fail()) {
+        return false;
+      }
     }
     *buf = oss.str();
   }
-- 
2.43.0


From 019c5159788fd7fcd72de338ac57abcab3b76db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:12 +0000
Subject: [PATCH 15/34] fix: regenerate when the blob handler of an id is
 removed

---
 buildcc/lib/target/src/custom_generator/custom_generator.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/buildcc/lib/target/src/custom_generator/custom_generator.cpp b/buildcc/lib/target/src/custom_generator/custom_generator.cpp
index c8b29f6..def3989 100644
--- a/buildcc/lib/target/src/custom_generator/custom_generator.cpp
+++ b/buildcc/lib/target/src/custom_generator/custom_generator.cpp
@@ -74,7 +74,10 @@ struct Comparator {
 
     bool changed = !previous_id_info.inputs.IsEqual(current_id_info.inputs) ||
                    !previous_id_info.outputs.IsEqual(current_id_info.outputs);
-    if (!changed && current_id_info.blob_handler != nullptr) {
+    if (!changed && current_id_info.blob_handler == nullptr) {
+      // Blob handler removed
+      changed = !previous_id_info.userblob.empty();
+    } else if (!changed) {
       // We only check blob handler if not changed by inputs/outputs
       // Checking blob_handler could be expensive so this optimization is made
       // to run only when changed == false
-- 
2.43.0


From f659f7fbcb32d8e9945406d3f7896ed372d1a1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:52 +0000
Subject: [PATCH 16/34] fix: recompile the pch when the language of its target
 changes

The pch is compiled by the C or the C++ compiler depending on the sources of
the target. Adding the first (removing the last) C++ source kept the pch of the
other compiler.
---
 buildcc/lib/target/src/target/friend/compile_pch.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/buildcc/lib/target/src/target/friend/compile_pch.cpp b/buildcc/lib/target/src/target/friend/compile_pch.cpp
index e37fa64..3e6e727 100644
--- a/buildcc/lib/target/src/target/friend/compile_pch.cpp
+++ b/buildcc/lib/target/src/target/friend/compile_pch.cpp
@@ -104,12 +104,17 @@ void CompilePch::BuildCompile() {
       // TODO, Replace this with fs::exists to check if compiled pch file is
       // present or no
       target_.dirty_ = true;
+    } else if (!fs::exists(source_path_)) {
+      // Pch was compiled for the other language (C / C++)
+      target_.dirty_ = true;
     }
   }
 
   if (target_.dirty_) {
     serialization.RemoveFile();
     AggregateToFile(header_path_, target_.GetPchFiles());
+    // Only keep the source of the language the pch is compiled for
+    (void)fs::remove(ConstructSourcePath(!target_.GetState().ContainsCpp()));
     if (!fs::exists(source_path_)) {
       const std::string p = fmt::format("{}", source_path_);
       const bool save =
-- 
2.43.0


From 716ce928d1905dc900a7cb1a094e7a7217765167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:22 +0000
Subject: [PATCH 17/34] fix: quote include dirs, lib dirs and libs with spaces
 in their path

---
 buildcc/lib/target/include/target/common/util.h        |  5 +++++
 buildcc/lib/target/src/target/build.cpp                | 10 ++++++----
 .../lib/target/src/target/friend/compile_object.cpp    |  2 +-
 buildcc/lib/target/src/target/friend/link_target.cpp   |  3 ++-
 4 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/buildcc/lib/target/include/target/common/util.h b/buildcc/lib/target/include/target/common/util.h
index 30191e8..e96e2ee 100644
--- a/buildcc/lib/target/include/target/common/util.h
+++ b/buildcc/lib/target/include/target/common/util.h
@@ -24,6 +24,11 @@
 
 namespace buildcc::internal {
 
+// Paths are quoted when required during aggregation
+inline std::vector<fs::path> as_paths(const std::vector<std::string> &list) {
+  return std::vector<fs::path>(list.begin(), list.end());
+}
+
 // Aggregates
 template <typename T> std::string aggregate(const T &list) {
   return fmt::format("{}", fmt::join(list, " "));
diff --git a/buildcc/lib/target/src/target/build.cpp b/buildcc/lib/target/src/target/build.cpp
index 18ae8fa..5f33955 100644
--- a/buildcc/lib/target/src/target/build.cpp
+++ b/buildcc/lib/target/src/target/build.cpp
@@ -72,10 +72,12 @@ void Target::Build() {
   // Target default arguments
   command_.AddDefaultArguments({
       {kIncludeDirs,
-       internal::aggregate_with_prefix<std::vector<std::string>>(
-           toolchain_.GetConfig().prefix_include_dir, GetIncludeDirs())},
-      {kLibDirs, internal::aggregate_with_prefix<std::vector<std::string>>(
-                     toolchain_.GetConfig().prefix_lib_dir, GetLibDirs())},
+       internal::aggregate_with_prefix<std::vector<fs::path>>(
+           toolchain_.GetConfig().prefix_include_dir,
+           internal::as_paths(GetIncludeDirs()))},
+      {kLibDirs, internal::aggregate_with_prefix<std::vector<fs::path>>(
+                     toolchain_.GetConfig().prefix_lib_dir,
+                     internal::as_paths(GetLibDirs()))},
       {kPreprocessorFlags, internal::aggregate(GetPreprocessorFlags())},
       {kCommonCompileFlags, internal::aggregate(GetCommonCompileFlags())},
       //  TODO, Cache more flags here
diff --git a/buildcc/lib/target/src/target/friend/compile_object.cpp b/buildcc/lib/target/src/target/friend/compile_object.cpp
index 8b8df0d..1a5d013 100644
--- a/buildcc/lib/target/src/target/friend/compile_object.cpp
+++ b/buildcc/lib/target/src/target/friend/compile_object.cpp
@@ -44,7 +44,7 @@ void CompileObject::CacheCompileCommands() {
 
     const std::string output =
         fmt::format("{}", GetObjectData(absolute_current_source).output);
-    const std::string input = fmt::format("{}", absolute_current_source);
+    const std::string input = fmt::format("{}", fs::path(absolute_current_source));
 
     const auto type =
         target_.toolchain_.GetConfig().GetFileExt(absolute_current_source);
diff --git a/buildcc/lib/target/src/target/friend/link_target.cpp b/buildcc/lib/target/src/target/friend/link_target.cpp
index edf2a16..3cc213a 100644
--- a/buildcc/lib/target/src/target/friend/link_target.cpp
+++ b/buildcc/lib/target/src/target/friend/link_target.cpp
@@ -42,7 +42,8 @@ void LinkTarget::CacheLinkCommand() {
           {kCompiledSources, aggregated_compiled_sources},
           {kLibDeps,
            fmt::format("{} {}",
-                       internal::aggregate(target_user_schema.libs.GetPaths()),
+                       internal::aggregate(
+                           internal::as_paths(target_user_schema.libs.GetPaths())),
                        internal::aggregate(target_user_schema.external_libs))},
       });
 }
-- 
2.43.0


From 41c7348c2ec17cb4e180889d434bfbb00cfe941b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:22 +0000
Subject: [PATCH 18/34] fix: compile_commands directory of a build dir with
 spaces

---
 buildcc/plugins/src/clang_compile_commands.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/buildcc/plugins/src/clang_compile_commands.cpp b/buildcc/plugins/src/clang_compile_commands.cpp
index 701a3f0..b2e3937 100644
--- a/buildcc/plugins/src/clang_compile_commands.cpp
+++ b/buildcc/plugins/src/clang_compile_commands.cpp
@@ -60,7 +60,7 @@ void ClangCompileCommands::Generate() {
       // DONE, Get intermediate directory from env
       std::string sf = fmt::format("{}", source);
       const std::string &command = t->GetCompileCommand(source);
-      std::string directory = fmt::format("{}", Project::GetBuildDir());
+      std::string directory = path_as_string(Project::GetBuildDir());
 
       std::string temp = fmt::format(
           clang_compile_command_format,
-- 
2.43.0


From 9de266d7b443d3d65ca7f8933cb453ab2e50a41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:22 +0000
Subject: [PATCH 19/34] fix: compile a source once when it is added more than
 once

---
 buildcc/lib/target/src/target/build.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/buildcc/lib/target/src/target/build.cpp b/buildcc/lib/target/src/target/build.cpp
index 5f33955..8e0c32e 100644
--- a/buildcc/lib/target/src/target/build.cpp
+++ b/buildcc/lib/target/src/target/build.cpp
@@ -16,6 +16,9 @@
 
 #include "target/target.h"
 
+#include <unordered_set>
+#include <utility>
+
 #include "target/common/util.h"
 
 #include "env/assert_fatal.h"
@@ -59,6 +62,19 @@ void Target::Build() {
     state_.PchDetected();
   }
 
+  // NOTE, A source can be added more than once (for example by its name and by
+  // a glob), it must only be compiled once
+  {
+    internal::PathInfoList unique_sources;
+    std::unordered_set<std::string> paths;
+    for (const auto &source_info : user_.sources.GetPathInfos()) {
+      if (paths.insert(source_info.path).second) {
+        unique_sources.Emplace(source_info.path, source_info.hash);
+      }
+    }
+    user_.sources = std::move(unique_sources);
+  }
+
   // Source - Object relation
   // Source state
   for (const auto &source_info : user_.sources.GetPathInfos()) {
-- 
2.43.0


From 5958e62cf5eb2fd5e2f789141c0b755a07fc82fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:30 +0000
Subject: [PATCH 20/34] fix: objects of out of root sources in similarly named
 folders

---
 .../lib/target/src/target/friend/compile_object.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/buildcc/lib/target/src/target/friend/compile_object.cpp b/buildcc/lib/target/src/target/friend/compile_object.cpp
index 1a5d013..3ac32bb 100644
--- a/buildcc/lib/target/src/target/friend/compile_object.cpp
+++ b/buildcc/lib/target/src/target/friend/compile_object.cpp
@@ -16,6 +16,8 @@
 
 #include "target/friend/compile_object.h"
 
+#include <algorithm>
+
 #include "target/target.h"
 
 namespace {
@@ -122,8 +124,10 @@ CompileObject::ConstructObjectPath(const fs::path &absolute_source_file) const {
   // - Check if out of root
   // - Convert .. to __
   // NOTE, Similar to how CMake handles out of root files
+  // NOTE, Only convert the `..` folders. Any other folder keeps its name, or
+  // sources of different folders end up with the same object
   std::string relstr = relative.string();
-  if (relstr.find("..") != std::string::npos) {
+  if (std::find(relative.begin(), relative.end(), "..") != relative.end()) {
     env::log_warning(
         __FUNCTION__,
         fmt::format("Out of Root Source detected '{}' -> '{}'. Use "
@@ -131,11 +135,14 @@ CompileObject::ConstructObjectPath(const fs::path &absolute_source_file) const {
                     "path -> absolute target build path. By "
                     "default converts '..' to '__'",
                     absolute_source_file.string(), relstr));
-    std::replace(relstr.begin(), relstr.end(), '.', '_');
+    fs::path converted;
+    for (const auto &folder : relative) {
+      converted /= (folder == "..") ? fs::path("__") : folder;
+    }
     // Converts above
     // .. / file.cpp -> __ / file.cpp
     // .. / folder / file.cpp -> __ / folder / file.cpp
-    relative = relstr;
+    relative = converted;
 
     // TODO, path replacement found
     // * API
-- 
2.43.0


From a5410d99da61847b8b4d02b1b82d558ac538fb43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:00 +0000
Subject: [PATCH 21/34] fix: find toolchains by the filenames which are
 verified

---
 .../lib/toolchain/src/api/toolchain_find.cpp   | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/buildcc/lib/toolchain/src/api/toolchain_find.cpp b/buildcc/lib/toolchain/src/api/toolchain_find.cpp
index 9c1e621..b5a0837 100644
--- a/buildcc/lib/toolchain/src/api/toolchain_find.cpp
+++ b/buildcc/lib/toolchain/src/api/toolchain_find.cpp
@@ -42,18 +42,26 @@ std::vector<std::string> ParseEnvVarToPaths(const std::string &env_var) {
 bool ContainsToolchainExecutables(
     const fs::directory_iterator &directory_iterator,
     const buildcc::ToolchainExecutables &executables) {
-  std::unordered_set<std::string> exes(
-      {executables.assembler, executables.c_compiler, executables.cpp_compiler,
-       executables.archiver, executables.linker});
+  constexpr const char *const executable_ext =
+      buildcc::env::get_os_executable_extension();
+  buildcc::env::assert_fatal<executable_ext != nullptr>(
+      "Operating system not supported");
+
+  // NOTE, Same filenames as expected during `Verify`
+  std::unordered_set<std::string> exes;
+  for (const auto &exe :
+       {executables.assembler, executables.c_compiler, executables.cpp_compiler,
+        executables.archiver, executables.linker}) {
+    exes.insert(fmt::format("{}{}", exe, executable_ext));
+  }
   std::error_code ec;
   for (const auto &dir_iter : directory_iterator) {
     bool is_regular_file = dir_iter.is_regular_file(ec);
     if (!is_regular_file || ec) {
       continue;
     }
-    const auto &filename_without_ext = dir_iter.path().stem().string();
     // NOTE, Must match the entire filename
-    exes.erase(filename_without_ext);
+    exes.erase(dir_iter.path().filename().string());
   }
   return exes.empty();
 }
-- 
2.43.0


From 5d34bbd732aadcc45c580dadcbcf94d2e696aa8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:42 +0000
Subject: [PATCH 22/34] fix: save the pch source in a build dir with spaces

---
 buildcc/lib/target/src/target/friend/compile_pch.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/buildcc/lib/target/src/target/friend/compile_pch.cpp b/buildcc/lib/target/src/target/friend/compile_pch.cpp
index 3e6e727..61ca33f 100644
--- a/buildcc/lib/target/src/target/friend/compile_pch.cpp
+++ b/buildcc/lib/target/src/target/friend/compile_pch.cpp
@@ -116,7 +116,7 @@ void CompilePch::BuildCompile() {
     // Only keep the source of the language the pch is compiled for
     (void)fs::remove(ConstructSourcePath(!target_.GetState().ContainsCpp()));
     if (!fs::exists(source_path_)) {
-      const std::string p = fmt::format("{}", source_path_);
+      const std::string p = path_as_string(source_path_);
       const bool save =
           env::save_file(p.c_str(), {"//Generated by BuildCC"}, false);
       env::assert_fatal(save, fmt::format("Could not save {}", p));
-- 
2.43.0


From 6dd0e1b3c7a77b72ab65162bfb941139d2be7028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:25 +0000
Subject: [PATCH 23/34] fix: verify toolchains in a folder with spaces

---
 buildcc/toolchains/src/toolchain_infos.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/buildcc/toolchains/src/toolchain_infos.cpp b/buildcc/toolchains/src/toolchain_infos.cpp
index 1f1b8cd..17a23d0 100644
--- a/buildcc/toolchains/src/toolchain_infos.cpp
+++ b/buildcc/toolchains/src/toolchain_infos.cpp
@@ -72,7 +72,8 @@ GetGccTargetArchitecture(const buildcc::env::Command &command) {
 buildcc::env::optional<buildcc::ToolchainCompilerInfo>
 GetGccToolchainInfo(const buildcc::ToolchainExecutables &executables) {
   buildcc::env::Command command;
-  command.AddDefaultArgument("compiler", executables.cpp_compiler);
+  command.AddDefaultArgument(
+      "compiler", fmt::format("{}", fs::path(executables.cpp_compiler)));
 
   auto op_compiler_version = GetGccCompilerVersion(command);
   auto op_target_arch = GetGccTargetArchitecture(command);
-- 
2.43.0


From c57aaaeaa3ba5e49a5b942f9c269e8cf21ffdf35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:51 +0000
Subject: [PATCH 24/34] fix: use the toolchain config given by the user

The optional config passed to the gcc, mingw, msvc and custom toolchains was
replaced by the default one of the toolchain id in Initialize.
---
 .../toolchains/include/toolchains/toolchain_custom.h |  4 ++--
 .../toolchains/include/toolchains/toolchain_gcc.h    |  4 ++--
 .../toolchains/include/toolchains/toolchain_mingw.h  |  4 ++--
 .../toolchains/include/toolchains/toolchain_msvc.h   |  4 ++--
 buildcc/toolchains/src/toolchain_aggregate.cpp       |  5 +++--
 buildcc/toolchains/src/toolchain_gcc.cpp             | 12 ++++++++----
 buildcc/toolchains/src/toolchain_msvc.cpp            |  6 ++++--
 7 files changed, 23 insertions(+), 16 deletions(-)

diff --git a/buildcc/toolchains/include/toolchains/toolchain_custom.h b/buildcc/toolchains/include/toolchains/toolchain_custom.h
index dd43dfc..77a6c0a 100644
--- a/buildcc/toolchains/include/toolchains/toolchain_custom.h
+++ b/buildcc/toolchains/include/toolchains/toolchain_custom.h
@@ -29,14 +29,14 @@ public:
                    const env::optional<ToolchainConfig> &op_config = {})
       : Toolchain(id, name, executables,
                   op_config.value_or(ToolchainConfig())) {
-    Initialize();
+    Initialize(op_config);
   }
 
   virtual ~Toolchain_custom() = default;
   Toolchain_custom(const Toolchain_custom &) = delete;
 
 private:
-  void Initialize();
+  void Initialize(const env::optional<ToolchainConfig> &op_config);
 };
 
 } // namespace buildcc
diff --git a/buildcc/toolchains/include/toolchains/toolchain_gcc.h b/buildcc/toolchains/include/toolchains/toolchain_gcc.h
index 60b1505..b1aa8ce 100644
--- a/buildcc/toolchains/include/toolchains/toolchain_gcc.h
+++ b/buildcc/toolchains/include/toolchains/toolchain_gcc.h
@@ -41,14 +41,14 @@ public:
                   op_executables.value_or(
                       ToolchainExecutables("as", "gcc", "g++", "ar", "ld")),
                   op_config.value_or(ToolchainConfig())) {
-    Initialize();
+    Initialize(op_config);
   }
 
   virtual ~Toolchain_gcc() = default;
   Toolchain_gcc(const Toolchain_gcc &) = delete;
 
 private:
-  void Initialize();
+  void Initialize(const env::optional<ToolchainConfig> &op_config);
 };
 
 } // namespace buildcc
diff --git a/buildcc/toolchains/include/toolchains/toolchain_mingw.h b/buildcc/toolchains/include/toolchains/toolchain_mingw.h
index 4b01916..12f1c7c 100644
--- a/buildcc/toolchains/include/toolchains/toolchain_mingw.h
+++ b/buildcc/toolchains/include/toolchains/toolchain_mingw.h
@@ -44,14 +44,14 @@ public:
                   op_executables.value_or(
                       ToolchainExecutables("as", "gcc", "g++", "ar", "ld")),
                   op_config.value_or(ToolchainConfig())) {
-    Initialize();
+    Initialize(op_config);
   }
 
   virtual ~Toolchain_mingw() = default;
   Toolchain_mingw(const Toolchain_mingw &) = delete;
 
 private:
-  void Initialize();
+  void Initialize(const env::optional<ToolchainConfig> &op_config);
 };
 
 } // namespace buildcc
diff --git a/buildcc/toolchains/include/toolchains/toolchain_msvc.h b/buildcc/toolchains/include/toolchains/toolchain_msvc.h
index 8fbb8fd..ddc5bb2 100644
--- a/buildcc/toolchains/include/toolchains/toolchain_msvc.h
+++ b/buildcc/toolchains/include/toolchains/toolchain_msvc.h
@@ -41,14 +41,14 @@ public:
                   op_executables.value_or(
                       ToolchainExecutables("cl", "cl", "cl", "lib", "link")),
                   op_config.value_or(ToolchainConfig())) {
-    Initialize();
+    Initialize(op_config);
   }
 
   virtual ~Toolchain_msvc() = default;
   Toolchain_msvc(const Toolchain_msvc &) = delete;
 
 private:
-  void Initialize();
+  void Initialize(const env::optional<ToolchainConfig> &op_config);
 };
 
 } // namespace buildcc
diff --git a/buildcc/toolchains/src/toolchain_aggregate.cpp b/buildcc/toolchains/src/toolchain_aggregate.cpp
index 6a9526b..878ff34 100644
--- a/buildcc/toolchains/src/toolchain_aggregate.cpp
+++ b/buildcc/toolchains/src/toolchain_aggregate.cpp
@@ -42,9 +42,10 @@ buildcc::Toolchain *AddIf(const std::string &identifier, Params &&...params) {
 
 namespace buildcc {
 
-void Toolchain_custom::Initialize() {
+void Toolchain_custom::Initialize(
+    const env::optional<ToolchainConfig> &op_config) {
   auto id = GetId();
-  RefConfig() = GlobalToolchainMetadata::GetConfig(id);
+  RefConfig() = op_config.value_or(GlobalToolchainMetadata::GetConfig(id));
   SetToolchainInfoCb(GlobalToolchainMetadata::GetInfoCb(id));
 }
 
diff --git a/buildcc/toolchains/src/toolchain_gcc.cpp b/buildcc/toolchains/src/toolchain_gcc.cpp
index 19b7240..7a29188 100644
--- a/buildcc/toolchains/src/toolchain_gcc.cpp
+++ b/buildcc/toolchains/src/toolchain_gcc.cpp
@@ -23,13 +23,17 @@
 
 namespace buildcc {
 
-void Toolchain_gcc::Initialize() {
-  RefConfig() = GlobalToolchainMetadata::GetConfig(ToolchainId::Gcc);
+void Toolchain_gcc::Initialize(
+    const env::optional<ToolchainConfig> &op_config) {
+  RefConfig() =
+      op_config.value_or(GlobalToolchainMetadata::GetConfig(ToolchainId::Gcc));
   SetToolchainInfoCb(GlobalToolchainMetadata::GetInfoCb(ToolchainId::Gcc));
 }
 
-void Toolchain_mingw::Initialize() {
-  RefConfig() = GlobalToolchainMetadata::GetConfig(ToolchainId::MinGW);
+void Toolchain_mingw::Initialize(
+    const env::optional<ToolchainConfig> &op_config) {
+  RefConfig() =
+      op_config.value_or(GlobalToolchainMetadata::GetConfig(ToolchainId::MinGW));
   SetToolchainInfoCb(GlobalToolchainMetadata::GetInfoCb(ToolchainId::MinGW));
 }
 
diff --git a/buildcc/toolchains/src/toolchain_msvc.cpp b/buildcc/toolchains/src/toolchain_msvc.cpp
index ddb047e..c6bce49 100644
--- a/buildcc/toolchains/src/toolchain_msvc.cpp
+++ b/buildcc/toolchains/src/toolchain_msvc.cpp
@@ -20,8 +20,10 @@
 
 namespace buildcc {
 
-void Toolchain_msvc::Initialize() {
-  RefConfig() = GlobalToolchainMetadata::GetConfig(ToolchainId::Msvc);
+void Toolchain_msvc::Initialize(
+    const env::optional<ToolchainConfig> &op_config) {
+  RefConfig() =
+      op_config.value_or(GlobalToolchainMetadata::GetConfig(ToolchainId::Msvc));
   SetToolchainInfoCb(GlobalToolchainMetadata::GetInfoCb(ToolchainId::Msvc));
 }
 
-- 
2.43.0


From 1f5722deb5829ad316cce65e9e59bec681f6ecda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:51 +0000
Subject: [PATCH 25/34] fix: compare the paths of a generator independent of
 hash order

The inputs and outputs of an id were recorded in the iteration order of a hash
set, which depends on how the paths are spelled and in which order they were
inserted: the same files looked like other ones and the id was run again.
---
 .../src/custom_generator/custom_generator.cpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/buildcc/lib/target/src/custom_generator/custom_generator.cpp b/buildcc/lib/target/src/custom_generator/custom_generator.cpp
index def3989..07e666f 100644
--- a/buildcc/lib/target/src/custom_generator/custom_generator.cpp
+++ b/buildcc/lib/target/src/custom_generator/custom_generator.cpp
@@ -16,6 +16,8 @@
 
 #include "target/custom_generator.h"
 
+#include <set>
+
 namespace {
 
 constexpr const char *const kGenerateTaskName = "Generate";
@@ -224,13 +226,22 @@ void CustomGenerator::AddIdInfo(
                     fmt::format("Duplicate id {} detected", id));
   ASSERT_FATAL(generate_cb, "Invalid callback provided");
 
-  UserCustomGeneratorSchema::UserIdInfo schema;
+  // The order of a hash set depends on the spelling of its elements and on how
+  // they were inserted: sort the paths so that the same files compare equal
+  std::set<std::string> input_paths;
   for (const auto &i : inputs) {
-    auto input = command_.Construct(i);
-    schema.inputs.Emplace(input, "");
+    input_paths.insert(path_as_string(command_.Construct(i)));
   }
+  std::set<std::string> output_paths;
   for (const auto &o : outputs) {
-    auto output = command_.Construct(o);
+    output_paths.insert(path_as_string(command_.Construct(o)));
+  }
+
+  UserCustomGeneratorSchema::UserIdInfo schema;
+  for (const auto &input : input_paths) {
+    schema.inputs.Emplace(input, "");
+  }
+  for (const auto &output : output_paths) {
     schema.outputs.Emplace(output);
   }
   schema.generate_cb = generate_cb;
-- 
2.43.0


From 89075dbb262d28f788943e58072e894edd38fdc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:53 +0000
Subject: [PATCH 26/34] fix: reject an identifier that is already in the
 storage

---
 buildcc/lib/env/include/env/storage.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/buildcc/lib/env/include/env/storage.h b/buildcc/lib/env/include/env/storage.h
index b5407df..5626ff9 100644
--- a/buildcc/lib/env/include/env/storage.h
+++ b/buildcc/lib/env/include/env/storage.h
@@ -38,6 +38,8 @@ public:
 
   template <typename T, typename... Params>
   T &Add(const std::string &identifier, Params &&...params) {
+    env::assert_fatal(!Contains(identifier),
+                      fmt::format("Identifier already used '{}'", identifier));
     T *ptr = new T(std::forward<Params>(params)...);
     env::assert_fatal(ptr != nullptr, "System out of memory");
 
-- 
2.43.0


From 96941e85faf14ca7c7b2e8ee496ca07ef2d9107f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:07 +0000
Subject: [PATCH 27/34] fix: report a failing buildexe script

The exit status of the user target was ignored, buildexe exited with 0
although the script it ran had failed.
---
 buildexe/src/build_env_setup.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/buildexe/src/build_env_setup.cpp b/buildexe/src/build_env_setup.cpp
index d36360e..ff1d5c4 100644
--- a/buildexe/src/build_env_setup.cpp
+++ b/buildexe/src/build_env_setup.cpp
@@ -52,7 +52,8 @@ void BuildEnvSetup::RunUserTarget(const ArgScriptInfo &arg_script_info) {
                   fmt::arg("executable",
                            fmt::format("{}", GetUserTarget().GetTargetPath())),
                   fmt::arg("configs", aggregated_configs));
-  env::Command::Execute(command_str);
+  const bool execute = env::Command::Execute(command_str);
+  env::assert_fatal(execute, "Could not execute user target successfully");
 }
 
 // Private
-- 
2.43.0


From 82bdf9d7603da429057850d6aad70e1259703950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:07 +0000
Subject: [PATCH 28/34] fix: quote the config files handed to a buildexe script

A config file with a space in its path was split into several arguments.
---
 buildexe/src/build_env_setup.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/buildexe/src/build_env_setup.cpp b/buildexe/src/build_env_setup.cpp
index ff1d5c4..a91b547 100644
--- a/buildexe/src/build_env_setup.cpp
+++ b/buildexe/src/build_env_setup.cpp
@@ -42,7 +42,7 @@ void BuildEnvSetup::RunUserTarget(const ArgScriptInfo &arg_script_info) {
   std::transform(arg_script_info.configs.begin(), arg_script_info.configs.end(),
                  std::back_inserter(configs),
                  [](const std::string &c) -> std::string {
-                   return fmt::format("--config {}", c);
+                   return fmt::format("--config {}", fs::path(c));
                  });
   std::string aggregated_configs = fmt::format("{}", fmt::join(configs, " "));
 
-- 
2.43.0


From 7ba46ad525ace20259227f6e074edf83f8410ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:07 +0000
Subject: [PATCH 29/34] fix: verify the host toolchain in a directory with
 spaces

The verification program was executed without quotes.
---
 buildexe/src/toolchain_setup.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/buildexe/src/toolchain_setup.cpp b/buildexe/src/toolchain_setup.cpp
index 4d483da..a79c9ff 100644
--- a/buildexe/src/toolchain_setup.cpp
+++ b/buildexe/src/toolchain_setup.cpp
@@ -72,7 +72,7 @@ int main() {
 
   // Run
   bool execute = env::Command::Execute(fmt::format(
-      "{executable}", fmt::arg("executable", target.GetTargetPath().string())));
+      "{executable}", fmt::arg("executable", fmt::format("{}", target.GetTargetPath()))));
   env::assert_fatal(execute, "Could not execute verification target");
 
   env::log_info(kTag, "*** Toolchain verification done ***");
-- 
2.43.0


From acb25cd46839e1cf70b970b58e8a67d469ce12fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:07 +0000
Subject: [PATCH 30/34] fix: describe libraries of a BUILDCC_HOME with spaces

The display form of a path adds quotes, which made the string literals of
the generated buildexe_lib_dirs.h invalid.
---
 buildexe/src/args_setup.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/buildexe/src/args_setup.cpp b/buildexe/src/args_setup.cpp
index edee4ad..6ef969d 100644
--- a/buildexe/src/args_setup.cpp
+++ b/buildexe/src/args_setup.cpp
@@ -114,7 +114,7 @@ void ArgLibsInfo::Add(CLI::App &app) {
 
     LibInfo lib_info;
     lib_info.lib_name = lib_name;
-    lib_info.absolute_lib_path = fmt::format("{}", lib_path);
+    lib_info.absolute_lib_path = path_as_string(lib_path);
     libs_info.push_back(lib_info);
 
     auto add_lib_files_cb_func = [lib_path,
-- 
2.43.0


From 0fb5dafd00725f8bf1596b430c383028948670f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:07 +0000
Subject: [PATCH 31/34] fix: only write buildexe_lib_dirs.h when it changes

It was written by every run, which rebuilt the complete user target each
time. Failures to write it were ignored.
---
 buildexe/src/build_env_setup.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/buildexe/src/build_env_setup.cpp b/buildexe/src/build_env_setup.cpp
index a91b547..b473a0a 100644
--- a/buildexe/src/build_env_setup.cpp
+++ b/buildexe/src/build_env_setup.cpp
@@ -189,7 +189,16 @@ struct BuildExeLibDir {{
         user_target.GetTargetBuildDir() / "buildexe_lib_dirs.h";
     std::string data = fmt::format(
         kLibDirsFormat, fmt::arg("lib_dirs", fmt::join(lib_constants, "\r\n")));
-    env::save_file(lib_dirs_filename.string().c_str(), data, false);
+    // NOTE, Writing an unchanged file would rebuild the user target
+    std::string current;
+    const bool is_same =
+        env::load_file(lib_dirs_filename.string().c_str(), true, &current) &&
+        current == data;
+    if (!is_same) {
+      const bool saved =
+          env::save_file(lib_dirs_filename.string().c_str(), data, true);
+      env::assert_fatal(saved, "Could not save buildexe_lib_dirs.h");
+    }
 
     user_target.AddIncludeDirAbsolute(user_target.GetTargetBuildDir(), true);
   }
-- 
2.43.0


From fa6c645dfd99e98e74faddbb1985d5dc95d1753b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:07 +0000
Subject: [PATCH 32/34] fix: rebuild when a header of a buildexe include dir
 changes

Headers could not be declared, an edited header did not rebuild the target.
---
 buildexe/src/build_env_setup.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/buildexe/src/build_env_setup.cpp b/buildexe/src/build_env_setup.cpp
index b473a0a..6de3959 100644
--- a/buildexe/src/build_env_setup.cpp
+++ b/buildexe/src/build_env_setup.cpp
@@ -111,7 +111,9 @@ void BuildEnvSetup::UserTargetCb() {
     user_target.AddSource(s);
   }
   for (const auto &i : arg_target_inputs.include_dirs) {
-    user_target.AddIncludeDir(i);
+    const bool glob_headers =
+        fs::is_directory(user_target.GetTargetRootDir() / i);
+    user_target.AddIncludeDir(i, glob_headers);
   }
   for (const auto &l : arg_target_inputs.lib_dirs) {
     user_target.AddLibDir(l);
-- 
2.43.0


From caebcd8f1dd4891a48bb2e6261f6b29be9bcd2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:00 +0000
Subject: [PATCH 33/34] fix: detect cyclic dependencies in a bounded number of
 steps

Every path from a target to its (indirect) dependents was followed, their
number grows exponentially with the depth of the dependencies.
---
 buildcc/lib/args/src/register.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/buildcc/lib/args/src/register.cpp b/buildcc/lib/args/src/register.cpp
index dba375b..9f1cc56 100644
--- a/buildcc/lib/args/src/register.cpp
+++ b/buildcc/lib/args/src/register.cpp
@@ -18,6 +18,8 @@
 
 #include <filesystem>
 #include <queue>
+#include <string>
+#include <unordered_set>
 
 #include "fmt/format.h"
 
@@ -48,9 +50,15 @@ void DepDetectCyclicDependency(const tf::Task &target_task,
   std::queue<tf::Task> taskqueue;
   taskqueue.push(target_task);
 
+  // Follow every task once, the number of paths can be exponential
+  std::unordered_set<std::string> visited;
+
   while (!taskqueue.empty()) {
     tf::Task current_task = taskqueue.front();
     taskqueue.pop();
+    if (!visited.insert(current_task.name()).second) {
+      continue;
+    }
 
     current_task.for_each_successor([&](const tf::Task &t) {
       buildcc::env::log_trace("for_each_successor", t.name());
-- 
2.43.0


From c1c5ff33f8e43484fda25e07041680ad56da1232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:25 +0000
Subject: [PATCH 34/34] fix: rebuild a target whose type has changed

The name and type of a target were part of the serialized schema but never
set or compared: a target that became an executable was not linked.
---
 buildcc/lib/target/src/target/build.cpp  | 5 +++++
 buildcc/lib/target/src/target/target.cpp | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/buildcc/lib/target/src/target/build.cpp b/buildcc/lib/target/src/target/build.cpp
index 8e0c32e..61b935c 100644
--- a/buildcc/lib/target/src/target/build.cpp
+++ b/buildcc/lib/target/src/target/build.cpp
@@ -111,6 +111,11 @@ void Target::Build() {
   // Load the serialized file
   (void)serialization_.LoadFromFile();
 
+  // Nothing that was built for another type of target can be reused
+  if (serialization_.IsLoaded() && serialization_.GetLoad().type != type_) {
+    dirty_ = true;
+  }
+
   // PCH Compile
   if (state_.ContainsPch()) {
     command_.AddDefaultArguments({
diff --git a/buildcc/lib/target/src/target/target.cpp b/buildcc/lib/target/src/target/target.cpp
index 48481da..5ea125a 100644
--- a/buildcc/lib/target/src/target/target.cpp
+++ b/buildcc/lib/target/src/target/target.cpp
@@ -54,6 +54,10 @@ void Target::Initialize() {
   env::assert_fatal(IsValidTargetType(type_), "Invalid Target Type");
   fs::create_directories(GetTargetBuildDir());
 
+  // Serialized with the rest of the target
+  user_.name = name_;
+  user_.type = type_;
+
   // String updates
   unique_id_ = fmt::format("[{}] {}", toolchain_.GetName(), name_);
   std::string path = fmt::format(
-- 
2.43.0

