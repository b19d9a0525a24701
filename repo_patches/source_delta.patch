From 2566978be22ae0384b386c23bf3b0f1c06a51b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:39 +0000
Subject: [PATCH 01/29] fix: wait for asynchronous instructions before tearing
 down workspaces

Procedure::Reset and the Procedure destructor tore down the workspaces (and destroyed included
procedures) while asynchronous instructions could still be executing.
---
 src/lib/sup/oac-tree/procedure/procedure.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/lib/sup/oac-tree/procedure/procedure.cpp b/src/lib/sup/oac-tree/procedure/procedure.cpp
index 71de808..88786d5 100644
--- a/src/lib/sup/oac-tree/procedure/procedure.cpp
+++ b/src/lib/sup/oac-tree/procedure/procedure.cpp
@@ -218,12 +218,14 @@ void Procedure::Halt()
 
 void Procedure::Reset(UserInterface& ui)
 {
-  m_workspace->Teardown();
-  m_procedure_store->ResetProcedureWorkspaces(ui);
+  // Reset instructions first: this waits for asynchronous instructions that may still be using the
+  // workspaces.
   if (RootInstruction() != nullptr)
   {
     RootInstruction()->Reset(ui);
   }
+  m_workspace->Teardown();
+  m_procedure_store->ResetProcedureWorkspaces(ui);
   m_workspace->Setup();
 }
 
@@ -318,13 +320,14 @@ void Procedure::SetupPreamble()
 
 void Procedure::Teardown(UserInterface& ui)
 {
-  m_workspace->Teardown();
-  m_procedure_store->TearDownProcedures(ui);
-  if (RootInstruction() == nullptr)
+  // Instructions are reset instead of torn down. This needs to be done first, since it waits for
+  // asynchronous instructions that may still be using the workspaces.
+  if (RootInstruction() != nullptr)
   {
-    return;
+    RootInstruction()->Reset(ui);
   }
-  RootInstruction()->Reset(ui);  // instructions are reset instead of torn down.
+  m_workspace->Teardown();
+  m_procedure_store->TearDownProcedures(ui);
   m_attribute_handler.ClearFailedConstraints();
 }
 
-- 
2.43.0


From 1cb61cece8d5adc28336bc2d22c6f3668ae3f50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:39 +0000
Subject: [PATCH 02/29] fix: protect variable setup, reset and teardown against
 concurrent access

ResetVariable could run concurrently with reads and writes of the same variable in a parallel branch.
---
 src/lib/sup/oac-tree/variable.h             | 2 +-
 src/lib/sup/oac-tree/variables/variable.cpp | 9 ++++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/lib/sup/oac-tree/variable.h b/src/lib/sup/oac-tree/variable.h
index ab64996..0205e6a 100644
--- a/src/lib/sup/oac-tree/variable.h
+++ b/src/lib/sup/oac-tree/variable.h
@@ -275,7 +275,7 @@ private:
    * @details This mutex protects access to all other private member data, unless explicitly
    * mentioned otherwise.
    */
-  mutable std::mutex m_access_mutex;
+  mutable std::recursive_mutex m_access_mutex;
 
   /**
    * @brief Mutex for concurrent access of the update counter.
diff --git a/src/lib/sup/oac-tree/variables/variable.cpp b/src/lib/sup/oac-tree/variables/variable.cpp
index 7b32f8c..68f36ba 100644
--- a/src/lib/sup/oac-tree/variables/variable.cpp
+++ b/src/lib/sup/oac-tree/variables/variable.cpp
@@ -76,6 +76,7 @@ void Variable::SetName(const std::string &name)
 
 SetupTeardownActions Variable::Setup(const Workspace& ws)
 {
+  std::lock_guard<std::recursive_mutex> lk(m_access_mutex);
   if (!m_attribute_handler.ValidateAttributes())
   {
     auto error_message =
@@ -89,12 +90,13 @@ SetupTeardownActions Variable::Setup(const Workspace& ws)
 
 void Variable::Reset(const Workspace& ws)
 {
+  std::lock_guard<std::recursive_mutex> lk(m_access_mutex);
   return ResetImpl(ws);
 }
 
 bool Variable::GetValue(sup::dto::AnyValue& value, const std::string& fieldname) const
 {
-  std::lock_guard<std::mutex> lock(m_access_mutex);
+  std::lock_guard<std::recursive_mutex> lock(m_access_mutex);
   if (!m_setup_successful)
   {
     return false;
@@ -114,7 +116,7 @@ bool Variable::GetValue(sup::dto::AnyValue& value, const std::string& fieldname)
 
 bool Variable::SetValue(const sup::dto::AnyValue& value, const std::string& fieldname)
 {
-  std::lock_guard<std::mutex> lk(m_access_mutex);
+  std::lock_guard<std::recursive_mutex> lk(m_access_mutex);
   if (!m_setup_successful)
   {
     return false;
@@ -141,7 +143,7 @@ bool Variable::SetValue(const sup::dto::AnyValue& value, const std::string& fiel
 
 bool Variable::IsAvailable() const
 {
-  std::lock_guard<std::mutex> lk(m_access_mutex);
+  std::lock_guard<std::recursive_mutex> lk(m_access_mutex);
   if (!m_setup_successful)
   {
     return false;
@@ -166,6 +168,7 @@ void Variable::SetNotifyCallback(Callback func)
 
 void Variable::Teardown()
 {
+  std::lock_guard<std::recursive_mutex> lk(m_access_mutex);
   TeardownImpl();
   m_attribute_handler.ClearFailedConstraints();
   m_setup_successful = false;
-- 
2.43.0


From dbed274a8f394f6fec95918da8e9f554ac00e695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:20 +0000
Subject: [PATCH 03/29] fix: lost wakeup in Workspace::WaitForVariable

An update between the evaluation of the wait predicate and the actual wait was missed, so that the
method only returned after its timeout.
---
 src/lib/sup/oac-tree/procedure/workspace.cpp | 23 +++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/lib/sup/oac-tree/procedure/workspace.cpp b/src/lib/sup/oac-tree/procedure/workspace.cpp
index f7e759d..e306542 100644
--- a/src/lib/sup/oac-tree/procedure/workspace.cpp
+++ b/src/lib/sup/oac-tree/procedure/workspace.cpp
@@ -28,6 +28,7 @@
 
 #include <algorithm>
 #include <atomic>
+#include <chrono>
 #include <condition_variable>
 #include <set>
 #include <mutex>
@@ -164,16 +165,28 @@ bool Workspace::WaitForVariable(const std::string& name, double timeout_sec, boo
   auto timeout_duration = std::chrono::duration<double>(timeout_sec);
   int dummy_listener; // to get a unique address
   std::mutex mx;
-  std::unique_lock<std::mutex> lk(mx);
   std::condition_variable cv;
+  bool updated = false;
   auto cb_guard = GetCallbackGuard(&dummy_listener);
-  auto callback = [&cv](const auto&, auto){
+  auto callback = [&mx, &cv, &updated](const auto&, auto){
+                    std::lock_guard<std::mutex> lk(mx);
+                    updated = true;
                     cv.notify_one();
                   };
   RegisterCallback(name, callback, &dummy_listener);
-  cv.wait_for(lk, timeout_duration, [&it, availability]{
-      return it->second->IsAvailable() == availability;
-    });
+  const auto start = std::chrono::steady_clock::now();
+  // The availability is never queried while holding the lock, since the callback may be called by
+  // a thread that is accessing the variable.
+  while (it->second->IsAvailable() != availability)
+  {
+    const auto remaining = timeout_duration - (std::chrono::steady_clock::now() - start);
+    std::unique_lock<std::mutex> lk(mx);
+    if (!cv.wait_for(lk, remaining, [&updated]{ return updated; }))
+    {
+      break;
+    }
+    updated = false;
+  }
   return it->second->IsAvailable() == availability;
 }
 
-- 
2.43.0


From a1c106c4139ff44323d19be656a6a5ce71a0903d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:20 +0000
Subject: [PATCH 04/29] fix: notify the value that was stored in a local
 variable

When the assigned value needed conversion, the unconverted value was passed to listeners.
---
 src/lib/sup/oac-tree/variables/local_variable.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/sup/oac-tree/variables/local_variable.cpp b/src/lib/sup/oac-tree/variables/local_variable.cpp
index b53e95b..921602d 100644
--- a/src/lib/sup/oac-tree/variables/local_variable.cpp
+++ b/src/lib/sup/oac-tree/variables/local_variable.cpp
@@ -87,7 +87,7 @@ bool LocalVariable::SetValueImpl(const sup::dto::AnyValue& value)
   }
   if (result)
   {
-    Notify(value, true);
+    Notify(m_value, true);
   }
   return result;
 }
-- 
2.43.0


From c7f9ff2ec0c68148b61f6ddaa820c22f694ac5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:20 +0000
Subject: [PATCH 05/29] fix: double free when an InstructionTree is copied

The implicitly generated copy operations shared ownership of the child trees. Make the class
move-only.
---
 src/lib/sup/oac-tree/instruction_tree.h          |  5 +++++
 .../oac-tree/instructions/instruction_tree.cpp   | 16 ++++++++++++++++
 2 files changed, 21 insertions(+)

diff --git a/src/lib/sup/oac-tree/instruction_tree.h b/src/lib/sup/oac-tree/instruction_tree.h
index 4d00f50..3c30212 100644
--- a/src/lib/sup/oac-tree/instruction_tree.h
+++ b/src/lib/sup/oac-tree/instruction_tree.h
@@ -42,6 +42,11 @@ public:
 
   ~InstructionTree();
 
+  InstructionTree(const InstructionTree& other) = delete;
+  InstructionTree& operator=(const InstructionTree& other) = delete;
+  InstructionTree(InstructionTree&& other) noexcept;
+  InstructionTree& operator=(InstructionTree&& other) noexcept;
+
   bool IsEmpty() const;
 
   const Instruction* GetInstruction() const;
diff --git a/src/lib/sup/oac-tree/instructions/instruction_tree.cpp b/src/lib/sup/oac-tree/instructions/instruction_tree.cpp
index dd167a6..27d6dbb 100644
--- a/src/lib/sup/oac-tree/instructions/instruction_tree.cpp
+++ b/src/lib/sup/oac-tree/instructions/instruction_tree.cpp
@@ -28,6 +28,7 @@
 #include <algorithm>
 #include <deque>
 #include <functional>
+#include <utility>
 
 namespace sup
 {
@@ -49,6 +50,21 @@ InstructionTree::~InstructionTree()
   }
 }
 
+InstructionTree::InstructionTree(InstructionTree&& other) noexcept
+  : m_instruction{other.m_instruction}
+  , m_children{std::move(other.m_children)}
+{
+  other.m_instruction = nullptr;
+  other.m_children.clear();
+}
+
+InstructionTree& InstructionTree::operator=(InstructionTree&& other) noexcept
+{
+  std::swap(m_instruction, other.m_instruction);
+  std::swap(m_children, other.m_children);
+  return *this;
+}
+
 bool InstructionTree::IsEmpty() const
 {
   return m_instruction == nullptr;
-- 
2.43.0


From 4f6f7ec7649f678e4301208adabdb93b191dc4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:20 +0000
Subject: [PATCH 06/29] fix: do not report breakpoints of a previous run as
 current

When the procedure was halted before the first tick after a breakpoint, the job state was set to
paused again.
---
 src/lib/sup/oac-tree/runner/runner.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/sup/oac-tree/runner/runner.cpp b/src/lib/sup/oac-tree/runner/runner.cpp
index 70abdd8..43f9b82 100644
--- a/src/lib/sup/oac-tree/runner/runner.cpp
+++ b/src/lib/sup/oac-tree/runner/runner.cpp
@@ -88,6 +88,7 @@ std::vector<Breakpoint> Runner::GetBreakpoints() const
 void Runner::ExecuteProcedure()
 {
   m_halt.store(false);
+  m_current_breakpoint_instructions.clear();
   if (!m_proc)
   {
     return;
-- 
2.43.0


From 0d10f5a47dccc0b1d5279767b7da4cb7e59d7d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:46 +0000
Subject: [PATCH 07/29] fix: data race on the instruction states in
 JobInterfaceAdapter

Instruction statuses are updated from the threads of asynchronous instructions, while breakpoints are
changed from client threads.
---
 src/lib/sup/oac-tree/job_interface_adapter.h          | 4 ++++
 src/lib/sup/oac-tree/runner/job_interface_adapter.cpp | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/src/lib/sup/oac-tree/job_interface_adapter.h b/src/lib/sup/oac-tree/job_interface_adapter.h
index 1444aa7..0b41c38 100644
--- a/src/lib/sup/oac-tree/job_interface_adapter.h
+++ b/src/lib/sup/oac-tree/job_interface_adapter.h
@@ -29,6 +29,7 @@
 #include <sup/oac-tree/job_interface.h>
 #include <sup/oac-tree/job_map.h>
 
+#include <mutex>
 #include <vector>
 
 namespace sup
@@ -65,6 +66,9 @@ public:
 private:
   JobMap m_job_map;
   std::vector<InstructionState> m_instr_states;
+  // Instruction states are updated from different threads and may be queried recursively from
+  // within the callbacks to IJobInfoIO.
+  std::recursive_mutex m_instr_states_mtx;
   IJobInfoIO& m_job_info_io;
   AsyncInputAdapter m_input_adapter;
 };
diff --git a/src/lib/sup/oac-tree/runner/job_interface_adapter.cpp b/src/lib/sup/oac-tree/runner/job_interface_adapter.cpp
index 47bf8db..2a4e457 100644
--- a/src/lib/sup/oac-tree/runner/job_interface_adapter.cpp
+++ b/src/lib/sup/oac-tree/runner/job_interface_adapter.cpp
@@ -42,6 +42,7 @@ using namespace std::placeholders;
 JobInterfaceAdapter::JobInterfaceAdapter(const Procedure& proc, IJobInfoIO& job_info_io)
   : m_job_map{proc}
   , m_instr_states{}
+  , m_instr_states_mtx{}
   , m_job_info_io{job_info_io}
   , m_input_adapter{std::bind(&ForwardUserInput, std::ref(m_job_info_io), _1, _2),
                     std::bind(&ForwardInterrupt, std::ref(m_job_info_io), _1)}
@@ -71,6 +72,7 @@ std::vector<const Instruction*> JobInterfaceAdapter::GetOrderedInstructions() co
 void JobInterfaceAdapter::UpdateInstructionStatus(const Instruction* instruction)
 {
   auto instr_idx = m_job_map.GetInstructionIndex(instruction);
+  std::lock_guard<std::recursive_mutex> lk{m_instr_states_mtx};
   auto status = instruction->GetStatus();
   auto& instr_state = m_instr_states[instr_idx];
   instr_state.m_execution_status = status;
@@ -115,6 +117,7 @@ void JobInterfaceAdapter::OnBreakpointChange(const Instruction* instruction,
                                              bool breakpoint_set) noexcept
 {
   auto instr_idx = m_job_map.GetInstructionIndex(instruction);
+  std::lock_guard<std::recursive_mutex> lk{m_instr_states_mtx};
   auto& instr_state = m_instr_states[instr_idx];
   instr_state.m_breakpoint_set = breakpoint_set;
   m_job_info_io.InstructionStateUpdated(instr_idx, instr_state);
-- 
2.43.0


From ba3607594592df265ff2800073a8786ded2e0fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:46 +0000
Subject: [PATCH 08/29] fix: breakpoint was skipped after resetting a job that
 was halted at that breakpoint

---
 src/lib/sup/oac-tree/runner.h                | 6 ++++++
 src/lib/sup/oac-tree/runner/async_runner.cpp | 1 +
 src/lib/sup/oac-tree/runner/runner.cpp       | 5 +++++
 3 files changed, 12 insertions(+)

diff --git a/src/lib/sup/oac-tree/runner.h b/src/lib/sup/oac-tree/runner.h
index e86a039..d43af99 100644
--- a/src/lib/sup/oac-tree/runner.h
+++ b/src/lib/sup/oac-tree/runner.h
@@ -141,6 +141,12 @@ public:
    */
   void Pause();
 
+  /**
+   * @brief Make sure all breakpoints will be hit (again) when their instruction is up for execution.
+   * To be used when the procedure was reset.
+   */
+  void ResetBreakpoints();
+
   /**
    * @brief Query if procedure has finished.
    *
diff --git a/src/lib/sup/oac-tree/runner/async_runner.cpp b/src/lib/sup/oac-tree/runner/async_runner.cpp
index 1268140..cbd7174 100644
--- a/src/lib/sup/oac-tree/runner/async_runner.cpp
+++ b/src/lib/sup/oac-tree/runner/async_runner.cpp
@@ -244,6 +244,7 @@ AsyncRunner::Action AsyncRunner::HandleFinished(JobCommand command)
       break;
     case JobCommand::kReset:
       m_proc.Reset(m_ui);
+      m_runner.ResetBreakpoints();
       SetState(JobState::kInitial);
       break;
     case JobCommand::kHalt:
diff --git a/src/lib/sup/oac-tree/runner/runner.cpp b/src/lib/sup/oac-tree/runner/runner.cpp
index 43f9b82..eaafa04 100644
--- a/src/lib/sup/oac-tree/runner/runner.cpp
+++ b/src/lib/sup/oac-tree/runner/runner.cpp
@@ -85,6 +85,11 @@ std::vector<Breakpoint> Runner::GetBreakpoints() const
   return std::vector<Breakpoint>{ list.begin(), list.end() };
 }
 
+void Runner::ResetBreakpoints()
+{
+  m_breakpoint_manager->ResetBreakpoints();
+}
+
 void Runner::ExecuteProcedure()
 {
   m_halt.store(false);
-- 
2.43.0


From da28a0eb4347f1571a0c12be31ec25e5e8b0428d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:03 +0000
Subject: [PATCH 09/29] fix: halt request could get lost when a loop
 instruction resets its child

A halt that arrived just before Repeat, For or Listen reset their child was cleared for that child, which
was then executed as if it was not halted.
---
 src/lib/sup/oac-tree/instructions/for.cpp    | 5 +++++
 src/lib/sup/oac-tree/instructions/listen.cpp | 5 +++++
 src/lib/sup/oac-tree/instructions/repeat.cpp | 5 +++++
 3 files changed, 15 insertions(+)

diff --git a/src/lib/sup/oac-tree/instructions/for.cpp b/src/lib/sup/oac-tree/instructions/for.cpp
index 346cacc..f69c9d5 100644
--- a/src/lib/sup/oac-tree/instructions/for.cpp
+++ b/src/lib/sup/oac-tree/instructions/for.cpp
@@ -108,6 +108,11 @@ ExecutionStatus ForInstruction::ExecuteSingleImpl(UserInterface& ui, Workspace&
   {
     ResetChild(ui);
   }
+  // A reset also clears the halt request of the child:
+  if (IsHaltRequested())
+  {
+    return ExecutionStatus::NOT_FINISHED;
+  }
   ExecuteChild(ui, ws);
 
   child_status = GetChildStatus();
diff --git a/src/lib/sup/oac-tree/instructions/listen.cpp b/src/lib/sup/oac-tree/instructions/listen.cpp
index 875ed3d..85a778d 100644
--- a/src/lib/sup/oac-tree/instructions/listen.cpp
+++ b/src/lib/sup/oac-tree/instructions/listen.cpp
@@ -72,6 +72,11 @@ ExecutionStatus Listen::ExecuteSingleImpl(UserInterface& ui, Workspace& ws)
   {
     ResetChild(ui);
   }
+  // A reset also clears the halt request of the child:
+  if (IsHaltRequested())
+  {
+    return ExecutionStatus::NOT_FINISHED;
+  }
   auto cache_changed = UpdateVariableCache(ws);
   if (!cache_changed)
   {
diff --git a/src/lib/sup/oac-tree/instructions/repeat.cpp b/src/lib/sup/oac-tree/instructions/repeat.cpp
index 0d4a7d0..acbb74a 100644
--- a/src/lib/sup/oac-tree/instructions/repeat.cpp
+++ b/src/lib/sup/oac-tree/instructions/repeat.cpp
@@ -70,6 +70,11 @@ ExecutionStatus Repeat::ExecuteSingleImpl(UserInterface& ui, Workspace& ws)
   {
     ResetChild(ui);
   }
+  // A reset also clears the halt request of the child:
+  if (IsHaltRequested())
+  {
+    return ExecutionStatus::NOT_FINISHED;
+  }
   ExecuteChild(ui, ws);
 
   child_status = GetChildStatus();
-- 
2.43.0


From 81cf580e0fff7c43ce8b6d3fcf25aae8e82340b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:03 +0000
Subject: [PATCH 10/29] fix: For kept the type of the array of its previous
 execution

When the type of the array variable changed in between executions, the new value was converted to the
old type, or initialisation failed.
---
 src/lib/sup/oac-tree/instructions/for.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/sup/oac-tree/instructions/for.cpp b/src/lib/sup/oac-tree/instructions/for.cpp
index f69c9d5..b3a8e61 100644
--- a/src/lib/sup/oac-tree/instructions/for.cpp
+++ b/src/lib/sup/oac-tree/instructions/for.cpp
@@ -56,6 +56,7 @@ ForInstruction::~ForInstruction() = default;
 bool ForInstruction::InitHook(UserInterface& ui, Workspace& ws)
 {
   m_count = 0;
+  m_array = sup::dto::AnyValue{};
   if (!GetAttributeValue(Constants::ARRAY_VARIABLE_NAME_ATTRIBUTE_NAME, ws, ui, m_array))
   {
     return false;
-- 
2.43.0


From 696520a0a895c72cba86846e5313cab192e3d567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:03 +0000
Subject: [PATCH 11/29] fix: AsyncInputAdapter destroyed data members that its
 thread was still using

---
 src/lib/sup/oac-tree/base/async_input_adapter.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lib/sup/oac-tree/base/async_input_adapter.cpp b/src/lib/sup/oac-tree/base/async_input_adapter.cpp
index aa4a0bc..1a618fe 100644
--- a/src/lib/sup/oac-tree/base/async_input_adapter.cpp
+++ b/src/lib/sup/oac-tree/base/async_input_adapter.cpp
@@ -60,6 +60,11 @@ AsyncInputAdapter::~AsyncInputAdapter()
     m_halt = true;
   }
   m_cv.notify_one();
+  // Wait for the handling thread, since it is using the other data members.
+  if (m_handler_future.valid())
+  {
+    m_handler_future.wait();
+  }
 }
 
 std::unique_ptr<IUserInputFuture> AsyncInputAdapter::AddUserInputRequest(
-- 
2.43.0


From e69da98faf2a7247f3b4394db7db192f3181b6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:03 +0000
Subject: [PATCH 12/29] fix: user input reply could wake up the wrong waiting
 thread

---
 src/lib/sup/oac-tree/base/async_input_adapter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/sup/oac-tree/base/async_input_adapter.cpp b/src/lib/sup/oac-tree/base/async_input_adapter.cpp
index 1a618fe..777d8a1 100644
--- a/src/lib/sup/oac-tree/base/async_input_adapter.cpp
+++ b/src/lib/sup/oac-tree/base/async_input_adapter.cpp
@@ -105,7 +105,7 @@ void AsyncInputAdapter::HandleRequestQueue()
     if (m_current_id == id)
     {
       m_replies[m_current_id] = reply;
-      m_reply_cv.notify_one();
+      m_reply_cv.notify_all();
     }
     m_current_id = 0;
   }
-- 
2.43.0


From 87122c5031fd2c11004d401daaa9e4fd95067457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:03 +0000
Subject: [PATCH 13/29] fix: job state change only woke up one of the waiting
 threads

---
 src/lib/sup/oac-tree/base/application_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/sup/oac-tree/base/application_utils.cpp b/src/lib/sup/oac-tree/base/application_utils.cpp
index ed5c08a..31ea5e6 100644
--- a/src/lib/sup/oac-tree/base/application_utils.cpp
+++ b/src/lib/sup/oac-tree/base/application_utils.cpp
@@ -91,7 +91,7 @@ void SimpleJobStateMonitor::OnStateChange(JobState state) noexcept
     std::lock_guard<std::mutex> lk{m_mtx};
     m_state = state;
   }
-  m_cv.notify_one();
+  m_cv.notify_all();
 }
 
 void SimpleJobStateMonitor::OnBreakpointChange(const Instruction* instruction,
-- 
2.43.0


From 8eb6bb9a44475e2136d960f9a34649379cd721bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:01 +0000
Subject: [PATCH 14/29] fix: CreateDir failed for paths with a trailing
 separator and succeeded for existing files

It also recursed endlessly for a relative path without separators when the current directory does not exist
anymore.
---
 src/lib/sup/oac-tree/base/generic_utils.cpp | 58 ++++++++++++++-------
 1 file changed, 40 insertions(+), 18 deletions(-)

diff --git a/src/lib/sup/oac-tree/base/generic_utils.cpp b/src/lib/sup/oac-tree/base/generic_utils.cpp
index 2ab0d1f..6be33e4 100644
--- a/src/lib/sup/oac-tree/base/generic_utils.cpp
+++ b/src/lib/sup/oac-tree/base/generic_utils.cpp
@@ -49,6 +49,12 @@ public:
 private:
   std::ifstream m_file_stream;
 };
+
+bool IsDirectory(const std::string& pathname);
+
+// Position of the separator that ends the parent path or npos if there is no such separator. Any
+// trailing separators in pathname are ignored.
+std::string::size_type FindParentEnd(const std::string& pathname);
 }
 
 namespace sup
@@ -93,29 +99,28 @@ bool CreateDir(const std::string& pathname, unsigned mode)
   {
     return false;
   }
-  if (::mkdir(pathname.c_str(), mode) == -1)
+  if (::mkdir(pathname.c_str(), mode) == 0)
+  {
+    return true;
+  }
+  switch (errno)
   {
-    switch (errno)
+    case ENOENT:
     {
-      case ENOENT:
-        // parent folder doesn't exist, so try to create it
-        if (CreateDir(pathname.substr(0, pathname.find_last_of('/'))))
-        {
-          return ::mkdir(pathname.c_str(), mode) == 0;
-        }
-        break;
-      case EEXIST:
-        // the folder already exists, so success
-        return true;
-      default:
+      // parent folder doesn't exist, so try to create it
+      const auto parent_end = FindParentEnd(pathname);
+      if (parent_end == std::string::npos || !CreateDir(pathname.substr(0, parent_end)))
+      {
         return false;
+      }
+      return ::mkdir(pathname.c_str(), mode) == 0 || (errno == EEXIST && IsDirectory(pathname));
     }
+    case EEXIST:
+      // success if the existing path is a folder
+      return IsDirectory(pathname);
+    default:
+      return false;
   }
-  else
-  {
-    return true;
-  }
-  return false;
 }
 
 std::string GetEnvironmentVariable(const std::string& varname)
@@ -150,4 +155,21 @@ bool ReadFileHandle::IsValid() const
 {
   return m_file_stream.is_open();
 }
+
+bool IsDirectory(const std::string& pathname)
+{
+  struct stat info{};
+  return ::stat(pathname.c_str(), &info) == 0 && S_ISDIR(info.st_mode);
+}
+
+std::string::size_type FindParentEnd(const std::string& pathname)
+{
+  const auto last = pathname.find_last_not_of('/');
+  if (last == std::string::npos || last == 0)
+  {
+    return std::string::npos;
+  }
+  const auto separator = pathname.find_last_of('/', last);
+  return separator == 0 ? std::string::npos : separator;
+}
 }  // unnamed namespace
-- 
2.43.0


From d2879ad3674597763409a8b0b8a7681e74d245ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:01 +0000
Subject: [PATCH 15/29] fix: use after free when destroying a LocalJob with
 asynchronous instructions

The job interface was destroyed while threads of asynchronous instructions could still be using it.
---
 src/lib/sup/oac-tree/runner/local_job.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/lib/sup/oac-tree/runner/local_job.cpp b/src/lib/sup/oac-tree/runner/local_job.cpp
index e346906..c820594 100644
--- a/src/lib/sup/oac-tree/runner/local_job.cpp
+++ b/src/lib/sup/oac-tree/runner/local_job.cpp
@@ -32,12 +32,12 @@ namespace oac_tree
 struct LocalJob::LocalJobImpl
 {
   LocalJobImpl(std::unique_ptr<Procedure> proc, IJobInfoIO& job_info_io);
-  ~LocalJobImpl() = default;
+  ~LocalJobImpl();
 
   std::unique_ptr<Procedure> m_proc;
   JobInterfaceAdapter m_job_interface;
 
-  AsyncRunner m_runner;
+  std::unique_ptr<AsyncRunner> m_runner;
   std::unique_ptr<JobInfo> m_job_info;
   std::vector<const oac_tree::Instruction*> m_ordered_instructions;
 };
@@ -113,13 +113,13 @@ void LocalJob::Halt()
 
 AsyncRunner& LocalJob::Runner()
 {
-  return m_impl->m_runner;
+  return *m_impl->m_runner;
 }
 
 LocalJob::LocalJobImpl::LocalJobImpl(std::unique_ptr<Procedure> proc, IJobInfoIO& job_info_io)
   : m_proc{std::move(proc)}
   , m_job_interface{*m_proc, job_info_io}
-  , m_runner{*m_proc, m_job_interface}
+  , m_runner{new AsyncRunner{*m_proc, m_job_interface}}
   , m_job_info{}
   , m_ordered_instructions{}
 {
@@ -129,6 +129,14 @@ LocalJob::LocalJobImpl::LocalJobImpl(std::unique_ptr<Procedure> proc, IJobInfoIO
   m_ordered_instructions = m_job_interface.GetOrderedInstructions();
 }
 
+LocalJob::LocalJobImpl::~LocalJobImpl()
+{
+  // Asynchronous instructions may still be using the job interface. Destroying the procedure waits
+  // for those, so this needs to be done before the job interface is destroyed.
+  m_runner.reset();
+  m_proc.reset();
+}
+
 }  // namespace oac_tree
 
 }  // namespace sup
-- 
2.43.0


From 5cb24bf29acc21a229bda1f5a9fae93ea0d695fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:01 +0000
Subject: [PATCH 16/29] fix: reject NaN as a timeout

---
 src/lib/sup/oac-tree/instructions/instruction_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/sup/oac-tree/instructions/instruction_utils.cpp b/src/lib/sup/oac-tree/instructions/instruction_utils.cpp
index 3e9e829..b9600e9 100644
--- a/src/lib/sup/oac-tree/instructions/instruction_utils.cpp
+++ b/src/lib/sup/oac-tree/instructions/instruction_utils.cpp
@@ -37,7 +37,7 @@ namespace instruction_utils
 
 bool ConvertToTimeoutNanoseconds(sup::dto::float64 timeout_sec, sup::dto::int64& timeout_ns)
 {
-  if (timeout_sec < 0.0 || timeout_sec > kMaxTimeoutSeconds)
+  if (!(timeout_sec >= 0.0 && timeout_sec <= kMaxTimeoutSeconds))
   {
     return false;
   }
-- 
2.43.0


From 526ca638a34c2db59564d98bf3dc3954442e8c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:01 +0000
Subject: [PATCH 17/29] fix: WaitForVariables ignored that its variable type
 attribute can refer to a variable

The name of the referenced variable was used as type, so the instruction succeeded immediately.
---
 src/lib/sup/oac-tree/instructions/wait_for_variables.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib/sup/oac-tree/instructions/wait_for_variables.cpp b/src/lib/sup/oac-tree/instructions/wait_for_variables.cpp
index d2cded5..78f0318 100644
--- a/src/lib/sup/oac-tree/instructions/wait_for_variables.cpp
+++ b/src/lib/sup/oac-tree/instructions/wait_for_variables.cpp
@@ -69,7 +69,11 @@ bool WaitForVariables::InitHook(UserInterface& ui, Workspace& ws)
     return false;
   }
   m_finish = utils::GetNanosecsSinceEpoch() + timeout_ns;
-  const auto var_type = GetAttributeString(Constants::VARIABLE_TYPE_ATTRIBUTE_NAME);
+  std::string var_type;
+  if (!GetAttributeValueAs(Constants::VARIABLE_TYPE_ATTRIBUTE_NAME, ws, ui, var_type))
+  {
+    return false;
+  }
   m_var_names = GetVarNamesOfType(ws, var_type);
   return true;
 }
-- 
2.43.0


From ae503db7d85ca3442134ce8653c764449f456b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:36 +0000
Subject: [PATCH 18/29] fix: race between halting and polling of instructions
 that wait for user input

Input, UserConfirmation and UserChoice destroyed their future from the halting thread, while the executing
thread could be using it.
---
 src/lib/sup/oac-tree/instructions/input.cpp   | 34 +++++++++++++------
 src/lib/sup/oac-tree/instructions/input.h     |  3 ++
 .../sup/oac-tree/instructions/user_choice.cpp | 34 +++++++++++++------
 .../sup/oac-tree/instructions/user_choice.h   |  4 +++
 .../instructions/user_confirmation.cpp        | 34 +++++++++++++------
 .../oac-tree/instructions/user_confirmation.h |  5 +++
 6 files changed, 81 insertions(+), 33 deletions(-)

diff --git a/src/lib/sup/oac-tree/instructions/input.cpp b/src/lib/sup/oac-tree/instructions/input.cpp
index 6c145c3..0b95494 100644
--- a/src/lib/sup/oac-tree/instructions/input.cpp
+++ b/src/lib/sup/oac-tree/instructions/input.cpp
@@ -38,6 +38,7 @@ const std::string Input::Type = "Input";
 Input::Input()
   : Instruction(Input::Type)
   , m_future{}
+  , m_future_mtx{}
 {
   AddAttributeDefinition(Constants::OUTPUT_VARIABLE_NAME_ATTRIBUTE_NAME)
     .SetCategory(AttributeCategory::kVariableName).SetMandatory();
@@ -59,17 +60,15 @@ bool Input::InitHook(UserInterface& ui, Workspace& ws)
   {
     return false;
   }
-  m_future = CreateUserValueFuture(ui, *this, value, description);
-  if (!m_future)
-  {
-    return false;
-  }
-  return true;
+  auto future = CreateUserValueFuture(ui, *this, value, description);
+  std::lock_guard<std::mutex> lk{m_future_mtx};
+  m_future = std::move(future);
+  return static_cast<bool>(m_future);
 }
 
 ExecutionStatus Input::ExecuteSingleImpl(UserInterface& ui, Workspace& ws)
 {
-  if (IsHaltRequested() || !m_future)
+  if (IsHaltRequested())
   {
     return ExecutionStatus::FAILURE;
   }
@@ -83,16 +82,29 @@ void Input::ResetHook(UserInterface& ui)
 
 void Input::HaltImpl()
 {
-  m_future.reset();
+  // Cancel a pending request, but avoid keeping the lock during that call.
+  std::unique_ptr<IUserInputFuture> future;
+  {
+    std::lock_guard<std::mutex> lk{m_future_mtx};
+    std::swap(future, m_future);
+  }
 }
 
 ExecutionStatus Input::PollInputFuture(UserInterface& ui, Workspace& ws)
 {
-  if (!m_future->IsReady())
+  UserInputReply reply{kInvalidUserInputReply};
   {
-    return ExecutionStatus::RUNNING;
+    std::lock_guard<std::mutex> lk{m_future_mtx};
+    if (!m_future)
+    {
+      return ExecutionStatus::FAILURE;
+    }
+    if (!m_future->IsReady())
+    {
+      return ExecutionStatus::RUNNING;
+    }
+    reply = m_future->GetValue();
   }
-  auto reply = m_future->GetValue();
   auto [success, user_value] = ParseUserValueReply(reply);
   if (!success)
   {
diff --git a/src/lib/sup/oac-tree/instructions/input.h b/src/lib/sup/oac-tree/instructions/input.h
index 32ed0e9..7f45d72 100644
--- a/src/lib/sup/oac-tree/instructions/input.h
+++ b/src/lib/sup/oac-tree/instructions/input.h
@@ -26,6 +26,7 @@
 #include <sup/oac-tree/instruction.h>
 
 #include <memory>
+#include <mutex>
 
 namespace sup
 {
@@ -49,6 +50,8 @@ public:
 
 private:
   std::unique_ptr<IUserInputFuture> m_future;
+  // Protects the future, since Halt can be called from another thread.
+  std::mutex m_future_mtx;
 
   bool InitHook(UserInterface& ui, Workspace& ws) override;
 
diff --git a/src/lib/sup/oac-tree/instructions/user_choice.cpp b/src/lib/sup/oac-tree/instructions/user_choice.cpp
index 69a569e..e0b2fcd 100644
--- a/src/lib/sup/oac-tree/instructions/user_choice.cpp
+++ b/src/lib/sup/oac-tree/instructions/user_choice.cpp
@@ -36,6 +36,7 @@ UserChoice::UserChoice()
   : CompoundInstruction(UserChoice::Type)
   , m_choice{-1}
   , m_future{}
+  , m_future_mtx{}
 {
   AddAttributeDefinition(Constants::DESCRIPTION_ATTRIBUTE_NAME)
     .SetCategory(AttributeCategory::kBoth);
@@ -55,27 +56,33 @@ bool UserChoice::InitHook(UserInterface& ui, Workspace& ws)
   metadata.AddMember(Constants::USER_CHOICES_DIALOG_TYPE_NAME,
                      {sup::dto::UnsignedInteger32Type, dialog_type::kSelection});
   auto options = GetChoices();
-  m_future = CreateUserChoiceFuture(ui, *this, options, metadata);
-  if (!m_future)
-  {
-    return false;
-  }
-  return true;
+  auto future = CreateUserChoiceFuture(ui, *this, options, metadata);
+  std::lock_guard<std::mutex> lk{m_future_mtx};
+  m_future = std::move(future);
+  return static_cast<bool>(m_future);
 }
 
 ExecutionStatus UserChoice::ExecuteSingleImpl(UserInterface& ui, Workspace& ws)
 {
-  if (IsHaltRequested() || !m_future)
+  if (IsHaltRequested())
   {
     return ExecutionStatus::FAILURE;
   }
   if (m_choice < 0)
   {
-    if (!m_future->IsReady())
+    UserInputReply reply{kInvalidUserInputReply};
     {
-      return ExecutionStatus::RUNNING;
+      std::lock_guard<std::mutex> lk{m_future_mtx};
+      if (!m_future)
+      {
+        return ExecutionStatus::FAILURE;
+      }
+      if (!m_future->IsReady())
+      {
+        return ExecutionStatus::RUNNING;
+      }
+      reply = m_future->GetValue();
     }
-    auto reply = m_future->GetValue();
     auto [success, choice] = ParseUserChoiceReply(reply);
     if (!success)
     {
@@ -109,7 +116,12 @@ void UserChoice::ResetHook(UserInterface& ui)
 
 void UserChoice::HaltImpl()
 {
-  m_future.reset();
+  // Cancel a pending request, but avoid keeping the lock during that call.
+  std::unique_ptr<IUserInputFuture> future;
+  {
+    std::lock_guard<std::mutex> lk{m_future_mtx};
+    std::swap(future, m_future);
+  }
 }
 
 std::vector<const Instruction*> UserChoice::NextInstructionsImpl() const
diff --git a/src/lib/sup/oac-tree/instructions/user_choice.h b/src/lib/sup/oac-tree/instructions/user_choice.h
index c9be1da..e9373f9 100644
--- a/src/lib/sup/oac-tree/instructions/user_choice.h
+++ b/src/lib/sup/oac-tree/instructions/user_choice.h
@@ -25,6 +25,8 @@
 
 #include <sup/oac-tree/compound_instruction.h>
 
+#include <memory>
+#include <mutex>
 #include <string>
 #include <vector>
 
@@ -50,6 +52,8 @@ public:
 private:
   sup::dto::int32 m_choice;
   std::unique_ptr<IUserInputFuture> m_future;
+  // Protects the future, since Halt can be called from another thread.
+  std::mutex m_future_mtx;
 
   bool InitHook(UserInterface& ui, Workspace& ws) override;
 
diff --git a/src/lib/sup/oac-tree/instructions/user_confirmation.cpp b/src/lib/sup/oac-tree/instructions/user_confirmation.cpp
index 05bfd65..4cc5639 100644
--- a/src/lib/sup/oac-tree/instructions/user_confirmation.cpp
+++ b/src/lib/sup/oac-tree/instructions/user_confirmation.cpp
@@ -37,6 +37,7 @@ const std::string DEFAULT_CANCEL_TEXT = "Cancel";
 UserConfirmation::UserConfirmation()
   : Instruction(UserConfirmation::Type)
   , m_future{}
+  , m_future_mtx{}
 {
   AddAttributeDefinition(Constants::DESCRIPTION_ATTRIBUTE_NAME)
     .SetCategory(AttributeCategory::kBoth).SetMandatory();
@@ -69,17 +70,15 @@ bool UserConfirmation::InitHook(UserInterface& ui, Workspace& ws)
   metadata.AddMember(Constants::USER_CHOICES_DIALOG_TYPE_NAME,
                      {sup::dto::UnsignedInteger32Type, dialog_type::kConfirmation});
   std::vector<std::string> options = { ok_text, cancel_text };
-  m_future = CreateUserChoiceFuture(ui, *this, options, metadata);
-  if (!m_future)
-  {
-    return false;
-  }
-  return true;
+  auto future = CreateUserChoiceFuture(ui, *this, options, metadata);
+  std::lock_guard<std::mutex> lk{m_future_mtx};
+  m_future = std::move(future);
+  return static_cast<bool>(m_future);
 }
 
 ExecutionStatus UserConfirmation::ExecuteSingleImpl(UserInterface& ui, Workspace& ws)
 {
-  if (IsHaltRequested() || !m_future)
+  if (IsHaltRequested())
   {
     return ExecutionStatus::FAILURE;
   }
@@ -93,16 +92,29 @@ void UserConfirmation::ResetHook(UserInterface& ui)
 
 void UserConfirmation::HaltImpl()
 {
-  m_future.reset();
+  // Cancel a pending request, but avoid keeping the lock during that call.
+  std::unique_ptr<IUserInputFuture> future;
+  {
+    std::lock_guard<std::mutex> lk{m_future_mtx};
+    std::swap(future, m_future);
+  }
 }
 
 ExecutionStatus UserConfirmation::PollInputFuture(UserInterface& ui, Workspace& ws)
 {
-  if (!m_future->IsReady())
+  UserInputReply reply{kInvalidUserInputReply};
   {
-    return ExecutionStatus::RUNNING;
+    std::lock_guard<std::mutex> lk{m_future_mtx};
+    if (!m_future)
+    {
+      return ExecutionStatus::FAILURE;
+    }
+    if (!m_future->IsReady())
+    {
+      return ExecutionStatus::RUNNING;
+    }
+    reply = m_future->GetValue();
   }
-  auto reply = m_future->GetValue();
   auto [success, choice] = ParseUserChoiceReply(reply);
   if (!success)
   {
diff --git a/src/lib/sup/oac-tree/instructions/user_confirmation.h b/src/lib/sup/oac-tree/instructions/user_confirmation.h
index 086299f..6808b6f 100644
--- a/src/lib/sup/oac-tree/instructions/user_confirmation.h
+++ b/src/lib/sup/oac-tree/instructions/user_confirmation.h
@@ -25,6 +25,9 @@
 
 #include <sup/oac-tree/instruction.h>
 
+#include <memory>
+#include <mutex>
+
 namespace sup
 {
 namespace oac_tree
@@ -44,6 +47,8 @@ public:
 
 private:
   std::unique_ptr<IUserInputFuture> m_future;
+  // Protects the future, since Halt can be called from another thread.
+  std::mutex m_future_mtx;
 
   bool InitHook(UserInterface& ui, Workspace& ws) override;
 
-- 
2.43.0


From 2748bd81a6458ef6146fff2c6cab9d8d8c4db195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:36 +0000
Subject: [PATCH 19/29] fix: UserChoice did not propagate a halt to its child
 instructions

---
 src/lib/sup/oac-tree/instructions/user_choice.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib/sup/oac-tree/instructions/user_choice.cpp b/src/lib/sup/oac-tree/instructions/user_choice.cpp
index e0b2fcd..c724899 100644
--- a/src/lib/sup/oac-tree/instructions/user_choice.cpp
+++ b/src/lib/sup/oac-tree/instructions/user_choice.cpp
@@ -122,6 +122,10 @@ void UserChoice::HaltImpl()
     std::lock_guard<std::mutex> lk{m_future_mtx};
     std::swap(future, m_future);
   }
+  for (auto instruction : ChildInstructions())
+  {
+    instruction->Halt();
+  }
 }
 
 std::vector<const Instruction*> UserChoice::NextInstructionsImpl() const
-- 
2.43.0


From a1e98e306cd65a4ba7a2cde88daca137d001a4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:36 +0000
Subject: [PATCH 20/29] fix: an exception from the user input function blocked
 all further user input

The handling thread terminated, so this and all later requests never received a reply.
---
 src/lib/sup/oac-tree/async_input_adapter.h       |  3 +++
 .../sup/oac-tree/base/async_input_adapter.cpp    | 16 +++++++++++++++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/lib/sup/oac-tree/async_input_adapter.h b/src/lib/sup/oac-tree/async_input_adapter.h
index a99ae9e..836f4b9 100644
--- a/src/lib/sup/oac-tree/async_input_adapter.h
+++ b/src/lib/sup/oac-tree/async_input_adapter.h
@@ -59,6 +59,9 @@ private:
   // Handle all requests in a single thread.
   void HandleRequestQueue();
 
+  // Get a reply for the given request. The reply is invalid when the input function throws.
+  UserInputReply GetInputReply(const UserInputRequest& request, sup::dto::uint64 id) const;
+
   // Create a new input request id
   sup::dto::uint64 GetNewRequestId();
 
diff --git a/src/lib/sup/oac-tree/base/async_input_adapter.cpp b/src/lib/sup/oac-tree/base/async_input_adapter.cpp
index 777d8a1..79842df 100644
--- a/src/lib/sup/oac-tree/base/async_input_adapter.cpp
+++ b/src/lib/sup/oac-tree/base/async_input_adapter.cpp
@@ -99,7 +99,7 @@ void AsyncInputAdapter::HandleRequestQueue()
     m_current_id = id;
     lk.unlock();
     // If another thread sees the current id as not zero, this thread must be here:
-    auto reply = m_input_func(request, id);
+    auto reply = GetInputReply(request, id);
     lk.lock();
     // If someone has reset the current id, the reply is no longer needed:
     if (m_current_id == id)
@@ -111,6 +111,20 @@ void AsyncInputAdapter::HandleRequestQueue()
   }
 }
 
+UserInputReply AsyncInputAdapter::GetInputReply(const UserInputRequest& request,
+                                                sup::dto::uint64 id) const
+{
+  try
+  {
+    return m_input_func(request, id);
+  }
+  catch (...)
+  {
+    // An exception may not terminate the handling thread: other requests would never get a reply.
+    return kInvalidUserInputReply;
+  }
+}
+
 sup::dto::uint64 AsyncInputAdapter::GetNewRequestId()
 {
   // no checks for wrap-around needed here:
-- 
2.43.0


From 5dcadc842072202ddae9d979fa26c91180f4b0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:36 +0000
Subject: [PATCH 21/29] fix: user input for 8 bit integers and int64 in the
 command line interface

8 bit integers were parsed as characters and int64 values were always rejected.
---
 src/app/oac-tree-cli/cl_interface.cpp | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/app/oac-tree-cli/cl_interface.cpp b/src/app/oac-tree-cli/cl_interface.cpp
index 8729d48..6238c4c 100644
--- a/src/app/oac-tree-cli/cl_interface.cpp
+++ b/src/app/oac-tree-cli/cl_interface.cpp
@@ -30,6 +30,7 @@
 
 #include <cstring>
 #include <iostream>
+#include <limits>
 #include <map>
 #include <sstream>
 
@@ -260,17 +261,35 @@ bool ParserFunctionT<std::string>(sup::dto::AnyValue &value, const std::string &
   return true;
 }
 
+/**
+ * Stream extraction treats 8 bit integers as characters, so these are parsed as a larger type.
+ */
+template <typename T>
+bool ParserFunctionSmallInt(sup::dto::AnyValue &value, const std::string &str)
+{
+  std::istringstream istr(str);
+  int val;
+  istr >> val;
+  if (istr.fail() || val < std::numeric_limits<T>::min() || val > std::numeric_limits<T>::max())
+  {
+    return false;
+  }
+  value = static_cast<T>(val);
+  return true;
+}
+
 static std::map<std::string, ParseFunction> CreateParserMap()
 {
   std::map<std::string, ParseFunction> parser_map;
   parser_map["bool"] = ParserFunctionT<sup::dto::boolean>;
   parser_map["char8"] = ParserFunctionT<sup::dto::char8>;
-  parser_map["int8"] = ParserFunctionT<sup::dto::int8>;
-  parser_map["uint8"] = ParserFunctionT<sup::dto::uint8>;
+  parser_map["int8"] = ParserFunctionSmallInt<sup::dto::int8>;
+  parser_map["uint8"] = ParserFunctionSmallInt<sup::dto::uint8>;
   parser_map["int16"] = ParserFunctionT<sup::dto::int16>;
   parser_map["uint16"] = ParserFunctionT<sup::dto::uint16>;
   parser_map["int32"] = ParserFunctionT<sup::dto::int32>;
   parser_map["uint32"] = ParserFunctionT<sup::dto::uint32>;
+  parser_map["int64"] = ParserFunctionT<sup::dto::int64>;
   parser_map["uint64"] = ParserFunctionT<sup::dto::uint64>;
   parser_map["float32"] = ParserFunctionT<sup::dto::float32>;
   parser_map["float64"] = ParserFunctionT<sup::dto::float64>;
-- 
2.43.0


From 8dffac2ca746a373f24e9ce90ec443b00260a1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:36 +0000
Subject: [PATCH 22/29] fix: negative user input for unsigned integers was
 accepted and wrapped around

---
 src/app/oac-tree-cli/cl_interface.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/app/oac-tree-cli/cl_interface.cpp b/src/app/oac-tree-cli/cl_interface.cpp
index 6238c4c..723b69a 100644
--- a/src/app/oac-tree-cli/cl_interface.cpp
+++ b/src/app/oac-tree-cli/cl_interface.cpp
@@ -33,6 +33,7 @@
 #include <limits>
 #include <map>
 #include <sstream>
+#include <type_traits>
 
 static bool ParseStringToScalarAnyvalue(sup::dto::AnyValue &value, const std::string &str);
 
@@ -232,6 +233,11 @@ bool ParserFunctionT(sup::dto::AnyValue &value, const std::string &str)
   {
     return false;
   }
+  if (std::is_unsigned<T>::value && str.find('-') != std::string::npos)
+  {
+    // Stream extraction would wrap negative numbers around
+    return false;
+  }
   value = val;
   return true;
 }
-- 
2.43.0


From 1ad1cc1ab745b1aed789f7db65b5eea0d244f0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:36 +0000
Subject: [PATCH 23/29] fix: integer overflow when the user chooses the
 smallest integer

---
 src/app/oac-tree-cli/cl_interface.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/app/oac-tree-cli/cl_interface.cpp b/src/app/oac-tree-cli/cl_interface.cpp
index 723b69a..0871e5f 100644
--- a/src/app/oac-tree-cli/cl_interface.cpp
+++ b/src/app/oac-tree-cli/cl_interface.cpp
@@ -203,16 +203,16 @@ int CLInterface::GetUserChoice(const std::vector<std::string>& options,
     m_logger.LogMessage(log::SUP_SEQ_LOG_ERR, error_message);
     return -1;
   }
-  // Decrement input as the interface uses 1-based indexing
-  --input;
-  if (input < 0 || input >= options.size())
+  if (input < 1 || input > options.size())
   {
     std::string error_message =
       "CLInterface::GetUserChoice(): user provided value [" +
-      std::to_string(input + 1) + "] must be in the range [1, " + std::to_string(options.size()) + "]";
+      std::to_string(input) + "] must be in the range [1, " + std::to_string(options.size()) + "]";
     m_logger.LogMessage(log::SUP_SEQ_LOG_ERR, error_message);
     return -1;
   }
+  // Decrement input as the interface uses 1-based indexing
+  --input;
   std::cout << options[input] << " selected" << std::endl;
   return input;
 }
-- 
2.43.0


From 54a325763f2c77422ddf919fe62fe9347af78bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:15 +0000
Subject: [PATCH 24/29] fix: procedure attributes were lost when writing a
 procedure to XML

---
 .../sup/oac-tree/parser/procedure_to_treedata_utils.cpp    | 4 ++++
 src/lib/sup/oac-tree/procedure.h                           | 7 +++++++
 src/lib/sup/oac-tree/procedure/procedure.cpp               | 5 +++++
 3 files changed, 16 insertions(+)

diff --git a/src/lib/sup/oac-tree/parser/procedure_to_treedata_utils.cpp b/src/lib/sup/oac-tree/parser/procedure_to_treedata_utils.cpp
index 72077d4..85a5b05 100644
--- a/src/lib/sup/oac-tree/parser/procedure_to_treedata_utils.cpp
+++ b/src/lib/sup/oac-tree/parser/procedure_to_treedata_utils.cpp
@@ -92,6 +92,10 @@ namespace oac_tree
 std::unique_ptr<sup::xml::TreeData> ToTreeData(const Procedure& procedure)
 {
   auto result = internal::make_unique<sup::xml::TreeData>(Constants::PROCEDURE_ELEMENT_NAME);
+  for (const auto& [attr_name, attr_value] : procedure.GetStringAttributes())
+  {
+    result->AddAttribute(attr_name, attr_value);
+  }
   internal::AddPreamble(*result, procedure.GetPreamble());
   for (auto instruction : procedure.GetTopInstructions())
   {
diff --git a/src/lib/sup/oac-tree/procedure.h b/src/lib/sup/oac-tree/procedure.h
index 5b2b60e..ed4bd93 100644
--- a/src/lib/sup/oac-tree/procedure.h
+++ b/src/lib/sup/oac-tree/procedure.h
@@ -235,6 +235,13 @@ public:
    */
   std::string GetAttributeString(const std::string& name) const;
 
+  /**
+   * @brief Get all attributes with their unparsed values.
+   *
+   * @return List of attributes.
+   */
+  const StringAttributeList& GetStringAttributes() const;
+
   /**
    * @brief Set attribute with given name and value.
    *
diff --git a/src/lib/sup/oac-tree/procedure/procedure.cpp b/src/lib/sup/oac-tree/procedure/procedure.cpp
index 88786d5..57b40bd 100644
--- a/src/lib/sup/oac-tree/procedure/procedure.cpp
+++ b/src/lib/sup/oac-tree/procedure/procedure.cpp
@@ -248,6 +248,11 @@ std::string Procedure::GetAttributeString(const std::string &name) const
   return GetStringAttributeValue(m_attribute_handler.GetStringAttributes(), name);
 }
 
+const StringAttributeList& Procedure::GetStringAttributes() const
+{
+  return m_attribute_handler.GetStringAttributes();
+}
+
 bool Procedure::AddAttribute(const std::string &name, const std::string &value)
 {
   return m_attribute_handler.AddStringAttribute(name, value);
-- 
2.43.0


From 63acd049be4abaa71bf114e35220b0ea566ce16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:02 +0000
Subject: [PATCH 25/29] fix: an observer could be left with a wrong breakpoint
 state after concurrent changes

---
 src/lib/sup/oac-tree/runner/async_runner.cpp | 36 ++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/src/lib/sup/oac-tree/runner/async_runner.cpp b/src/lib/sup/oac-tree/runner/async_runner.cpp
index cbd7174..0397a19 100644
--- a/src/lib/sup/oac-tree/runner/async_runner.cpp
+++ b/src/lib/sup/oac-tree/runner/async_runner.cpp
@@ -25,6 +25,16 @@
 #include <sup/oac-tree/exceptions.h>
 #include <sup/oac-tree/log_severity.h>
 
+#include <algorithm>
+
+namespace
+{
+using namespace sup::oac_tree;
+
+void NotifyBreakpointChange(const Runner& runner, JobStateMonitor& state_monitor,
+                            const Instruction* instruction, bool breakpoint_set);
+}  // unnamed namespace
+
 namespace sup
 {
 namespace oac_tree
@@ -60,7 +70,7 @@ void AsyncRunner::SetBreakpoint(const Instruction* instruction)
   {
     if (m_runner.SetBreakpoint(instruction))
     {
-      m_state_monitor.OnBreakpointChange(instruction, true);
+      NotifyBreakpointChange(m_runner, m_state_monitor, instruction, true);
     }
   }
   catch(const MessageException&)
@@ -73,7 +83,7 @@ void AsyncRunner::RemoveBreakpoint(const Instruction* instruction)
 {
   if (m_runner.RemoveBreakpoint(instruction))
   {
-    m_state_monitor.OnBreakpointChange(instruction, false);
+    NotifyBreakpointChange(m_runner, m_state_monitor, instruction, false);
   }
 }
 
@@ -348,3 +358,25 @@ bool AsyncRunner::SwitchStateOnFinished()
 }  // namespace oac_tree
 
 }  // namespace sup
+
+namespace
+{
+// Different threads can change the same breakpoint and their notifications may arrive in a different
+// order. This function makes sure that the last notification always corresponds to the actual state.
+void NotifyBreakpointChange(const Runner& runner, JobStateMonitor& state_monitor,
+                            const Instruction* instruction, bool breakpoint_set)
+{
+  auto has_breakpoint = [&runner, instruction]() {
+    auto breakpoints = runner.GetBreakpoints();
+    return std::any_of(breakpoints.begin(), breakpoints.end(), [instruction](const auto& breakpoint) {
+      return breakpoint.GetInstruction() == instruction;
+    });
+  };
+  state_monitor.OnBreakpointChange(instruction, breakpoint_set);
+  while (has_breakpoint() != breakpoint_set)
+  {
+    breakpoint_set = !breakpoint_set;
+    state_monitor.OnBreakpointChange(instruction, breakpoint_set);
+  }
+}
+}  // unnamed namespace
-- 
2.43.0


From bce81fa66869b748598ccca66c0b28d74f298367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:39 +0000
Subject: [PATCH 26/29] fix: recursive inclusion of instructions overflowed the
 stack

---
 src/lib/sup/oac-tree/instructions/include.cpp |  1 +
 .../instructions/include_procedure.cpp        |  1 +
 .../instructions/instruction_helper.cpp       | 31 +++++++++++++++++++
 .../instructions/instruction_helper.h         | 23 ++++++++++++++
 4 files changed, 56 insertions(+)

diff --git a/src/lib/sup/oac-tree/instructions/include.cpp b/src/lib/sup/oac-tree/instructions/include.cpp
index b488cb2..9275c9f 100644
--- a/src/lib/sup/oac-tree/instructions/include.cpp
+++ b/src/lib/sup/oac-tree/instructions/include.cpp
@@ -54,6 +54,7 @@ void Include::SetupImpl(const Procedure& proc)
     auto filename = GetAttributeString(Constants::FILENAME_ATTRIBUTE_NAME);
     proc_filename = ResolveRelativePath(proc, filename);
   }
+  InstructionHelper::IncludeGuard include_guard{*this, proc_filename};
   auto proc_context = proc.GetContext();
   auto path = GetAttributeString(Constants::PATH_ATTRIBUTE_NAME);
   auto clone = proc_context.CloneInstructionPath(proc_filename, path);
diff --git a/src/lib/sup/oac-tree/instructions/include_procedure.cpp b/src/lib/sup/oac-tree/instructions/include_procedure.cpp
index 4b50bf4..dd4d603 100644
--- a/src/lib/sup/oac-tree/instructions/include_procedure.cpp
+++ b/src/lib/sup/oac-tree/instructions/include_procedure.cpp
@@ -51,6 +51,7 @@ void IncludeProcedure::SetupImpl(const Procedure& proc)
 {
   auto filename = GetAttributeString(Constants::FILENAME_ATTRIBUTE_NAME);
   auto proc_filename = ResolveRelativePath(proc, filename);
+  InstructionHelper::IncludeGuard include_guard{*this, proc_filename};
   auto proc_context = proc.GetContext();
   std::string path = GetAttributeString(Constants::PATH_ATTRIBUTE_NAME);
   auto instr_clone = proc_context.CloneInstructionPath(proc_filename, path);
diff --git a/src/lib/sup/oac-tree/instructions/instruction_helper.cpp b/src/lib/sup/oac-tree/instructions/instruction_helper.cpp
index 2ee8a88..22d18ca 100644
--- a/src/lib/sup/oac-tree/instructions/instruction_helper.cpp
+++ b/src/lib/sup/oac-tree/instructions/instruction_helper.cpp
@@ -26,12 +26,19 @@
 #include <sup/oac-tree/decorator_instruction.h>
 
 #include <sup/oac-tree/constants.h>
+#include <sup/oac-tree/exceptions.h>
 #include <sup/oac-tree/instruction_registry.h>
 
 #include <algorithm>
+#include <utility>
+#include <vector>
 
 namespace
 {
+// Identification of an inclusion: the file and the attributes of the including instruction.
+using Inclusion = std::pair<std::string, sup::oac_tree::StringAttributeList>;
+// Inclusions that are being set up by the current thread.
+std::vector<Inclusion>& ActiveInclusions();
 std::pair<std::string, std::string> StripPath(const std::string& path);
 bool CloneChildInstructions(sup::oac_tree::Instruction& clone,
                             const sup::oac_tree::Instruction* source);
@@ -133,6 +140,24 @@ bool AttributeStartsWith(const std::string& attr_str, char c)
   return attr_str[0] == c;
 }
 
+IncludeGuard::IncludeGuard(const Instruction& instruction, const std::string& filename)
+{
+  auto& inclusions = ActiveInclusions();
+  Inclusion inclusion{ filename, instruction.GetStringAttributes() };
+  if (std::find(inclusions.begin(), inclusions.end(), inclusion) != inclusions.end())
+  {
+    std::string error_message = InstructionSetupExceptionProlog(instruction) +
+      "recursive inclusion from file [" + filename + "]";
+    throw InstructionSetupException(error_message);
+  }
+  inclusions.push_back(std::move(inclusion));
+}
+
+IncludeGuard::~IncludeGuard()
+{
+  ActiveInclusions().pop_back();
+}
+
 }  // namespace InstructionHelper
 
 }  // namespace oac_tree
@@ -177,4 +202,10 @@ bool AddClonedChildInstruction(Instruction& instr, const Instruction* child)
   return AppendChildInstruction(instr, std::move(cloned_child));
 }
 
+std::vector<Inclusion>& ActiveInclusions()
+{
+  thread_local std::vector<Inclusion> active_inclusions;
+  return active_inclusions;
+}
+
 }  // Unnamed namespace
diff --git a/src/lib/sup/oac-tree/instructions/instruction_helper.h b/src/lib/sup/oac-tree/instructions/instruction_helper.h
index b325cd4..28dcf70 100644
--- a/src/lib/sup/oac-tree/instructions/instruction_helper.h
+++ b/src/lib/sup/oac-tree/instructions/instruction_helper.h
@@ -83,6 +83,29 @@ bool InitialisePlaceholderAttributes(AttributeHandler& attribute_handler,
  */
 bool AttributeStartsWith(const std::string& attr_str, char c);
 
+/**
+ * @brief RAII class that needs to be alive during the setup of an instruction that includes other
+ * instructions. It detects recursive inclusions.
+ */
+class IncludeGuard
+{
+public:
+  /**
+   * @brief Constructor.
+   *
+   * @param instruction Including instruction.
+   * @param filename Name of the file from which instructions will be included.
+   *
+   * @throws InstructionSetupException when the same inclusion, i.e. from the same file and with the
+   * same attributes, is already being set up: this would never end.
+   */
+  IncludeGuard(const Instruction& instruction, const std::string& filename);
+  ~IncludeGuard();
+
+  IncludeGuard(const IncludeGuard&) = delete;
+  IncludeGuard& operator=(const IncludeGuard&) = delete;
+};
+
 }  // namespace InstructionHelper
 
 }  // namespace oac_tree
-- 
2.43.0


From a24c5ba4da1a96c5bba1964d134d7f1b8de655fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:25 +0000
Subject: [PATCH 27/29] fix: waiting with a very large timeout ended
 immediately

---
 src/lib/sup/oac-tree/base/application_utils.cpp   | 2 +-
 src/lib/sup/oac-tree/base/async_input_adapter.cpp | 3 ++-
 src/lib/sup/oac-tree/base/generic_utils.cpp       | 9 +++++++++
 src/lib/sup/oac-tree/generic_utils.h              | 8 ++++++++
 src/lib/sup/oac-tree/procedure/workspace.cpp      | 3 ++-
 5 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/lib/sup/oac-tree/base/application_utils.cpp b/src/lib/sup/oac-tree/base/application_utils.cpp
index 31ea5e6..524813a 100644
--- a/src/lib/sup/oac-tree/base/application_utils.cpp
+++ b/src/lib/sup/oac-tree/base/application_utils.cpp
@@ -126,7 +126,7 @@ JobState SimpleJobStateMonitor::WaitForFinished() const
 
 bool SimpleJobStateMonitor::WaitForState(JobState state, double seconds) const
 {
-  auto duration = std::chrono::duration<double>(seconds);
+  auto duration = GetWaitDuration(seconds);
   std::unique_lock<std::mutex> lk{m_mtx};
   return m_cv.wait_for(lk, duration, [this, state](){
     return m_state == state;
diff --git a/src/lib/sup/oac-tree/base/async_input_adapter.cpp b/src/lib/sup/oac-tree/base/async_input_adapter.cpp
index 79842df..42f9b87 100644
--- a/src/lib/sup/oac-tree/base/async_input_adapter.cpp
+++ b/src/lib/sup/oac-tree/base/async_input_adapter.cpp
@@ -23,6 +23,7 @@
 #include <sup/oac-tree/async_input_adapter.h>
 
 #include <sup/oac-tree/exceptions.h>
+#include <sup/oac-tree/generic_utils.h>
 
 #include <algorithm>
 #include <chrono>
@@ -148,7 +149,7 @@ bool AsyncInputAdapter::WaitForRequestReady(const Future& token, double seconds)
   {
     return false;
   }
-  auto duration = std::chrono::duration<double>(seconds);
+  auto duration = utils::GetWaitDuration(seconds);
   auto id = token.GetId();
   auto pred = [this, id]() {
     return m_replies.find(id) != m_replies.end();
diff --git a/src/lib/sup/oac-tree/base/generic_utils.cpp b/src/lib/sup/oac-tree/base/generic_utils.cpp
index 6be33e4..3e2fca5 100644
--- a/src/lib/sup/oac-tree/base/generic_utils.cpp
+++ b/src/lib/sup/oac-tree/base/generic_utils.cpp
@@ -28,6 +28,7 @@
 #include <sup/dto/anyvalue.h>
 #include <sup/dto/json_value_parser.h>
 
+#include <algorithm>
 #include <chrono>
 #include <cstdlib>
 #include <dlfcn.h>
@@ -137,6 +138,14 @@ unsigned long long GetNanosecsSinceEpoch()
   return ns.count();
 }
 
+std::chrono::duration<double> GetWaitDuration(double seconds)
+{
+  // Roughly 30 years: adding it to any current time can still be represented in nanoseconds.
+  constexpr double kMaxWaitSeconds = 1e9;
+  // The order of the arguments ensures that NaN leads to a zero duration.
+  return std::chrono::duration<double>{std::min(std::max(0.0, seconds), kMaxWaitSeconds)};
+}
+
 }  // namespace utils
 
 }  // namespace oac_tree
diff --git a/src/lib/sup/oac-tree/generic_utils.h b/src/lib/sup/oac-tree/generic_utils.h
index 33f4fa3..bb87d03 100644
--- a/src/lib/sup/oac-tree/generic_utils.h
+++ b/src/lib/sup/oac-tree/generic_utils.h
@@ -23,6 +23,7 @@
 #ifndef SUP_OAC_TREE_GENERIC_UTILS_H_
 #define SUP_OAC_TREE_GENERIC_UTILS_H_
 
+#include <chrono>
 #include <string>
 
 namespace sup
@@ -45,6 +46,13 @@ std::string GetEnvironmentVariable(const std::string& varname);
 
 unsigned long long GetNanosecsSinceEpoch();
 
+/**
+ * @brief Get the duration to pass to the waiting functions of the standard library for a given
+ * timeout in seconds. The result is limited to a range in which conversion to clock durations is
+ * well defined.
+ */
+std::chrono::duration<double> GetWaitDuration(double seconds);
+
 }  // namespace utils
 
 }  // namespace oac_tree
diff --git a/src/lib/sup/oac-tree/procedure/workspace.cpp b/src/lib/sup/oac-tree/procedure/workspace.cpp
index e306542..9ae0ec9 100644
--- a/src/lib/sup/oac-tree/procedure/workspace.cpp
+++ b/src/lib/sup/oac-tree/procedure/workspace.cpp
@@ -23,6 +23,7 @@
 #include <sup/oac-tree/workspace.h>
 
 #include <sup/oac-tree/exceptions.h>
+#include <sup/oac-tree/generic_utils.h>
 
 #include <sup/dto/anytype_registry.h>
 
@@ -162,7 +163,7 @@ bool Workspace::WaitForVariable(const std::string& name, double timeout_sec, boo
   {
     return false;
   }
-  auto timeout_duration = std::chrono::duration<double>(timeout_sec);
+  auto timeout_duration = utils::GetWaitDuration(timeout_sec);
   int dummy_listener; // to get a unique address
   std::mutex mx;
   std::condition_variable cv;
-- 
2.43.0


From 02876d2b22390f254344145728b7fc4a927f4859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:18 +0000
Subject: [PATCH 28/29] fix: the command-line interface accepted input with
 trailing garbage

---
 src/app/oac-tree-cli/cl_interface.cpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/app/oac-tree-cli/cl_interface.cpp b/src/app/oac-tree-cli/cl_interface.cpp
index 0871e5f..2ceef42 100644
--- a/src/app/oac-tree-cli/cl_interface.cpp
+++ b/src/app/oac-tree-cli/cl_interface.cpp
@@ -37,6 +37,9 @@
 
 static bool ParseStringToScalarAnyvalue(sup::dto::AnyValue &value, const std::string &str);
 
+// Return true when a value was extracted from the stream and only whitespace is left after it.
+static bool IsFullyParsed(std::istringstream& istr);
+
 namespace sup
 {
 namespace oac_tree
@@ -195,7 +198,7 @@ int CLInterface::GetUserChoice(const std::vector<std::string>& options,
   std::getline(std::cin, input_str);
   std::istringstream istr(input_str);
   istr >> input;
-  if (istr.fail())
+  if (!IsFullyParsed(istr))
   {
     std::string error_message =
       "CLInterface::GetUserChoice(): user provided value [" + input_str +
@@ -221,6 +224,15 @@ int CLInterface::GetUserChoice(const std::vector<std::string>& options,
 
 }  // namespace sup
 
+static bool IsFullyParsed(std::istringstream& istr)
+{
+  if (istr.fail())
+  {
+    return false;
+  }
+  return istr.eof() || (istr >> std::ws).eof();
+}
+
 using ParseFunction = bool (*)(sup::dto::AnyValue &, const std::string &);
 
 template <typename T>
@@ -229,7 +241,7 @@ bool ParserFunctionT(sup::dto::AnyValue &value, const std::string &str)
   std::istringstream istr(str);
   T val;
   istr >> val;
-  if (istr.fail())
+  if (!IsFullyParsed(istr))
   {
     return false;
   }
@@ -252,7 +264,7 @@ bool ParserFunctionT<sup::dto::boolean>(sup::dto::AnyValue &value, const std::st
   std::istringstream istr(str);
   sup::dto::boolean val;
   istr >> std::boolalpha >> val;
-  if (istr.fail())
+  if (!IsFullyParsed(istr))
   {
     return false;
   }
@@ -276,7 +288,7 @@ bool ParserFunctionSmallInt(sup::dto::AnyValue &value, const std::string &str)
   std::istringstream istr(str);
   int val;
   istr >> val;
-  if (istr.fail() || val < std::numeric_limits<T>::min() || val > std::numeric_limits<T>::max())
+  if (!IsFullyParsed(istr) || val < std::numeric_limits<T>::min() || val > std::numeric_limits<T>::max())
   {
     return false;
   }
-- 
2.43.0


From 8dd532349d1a423b6689d0f0b6a583263d3263ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:35 +0000
Subject: [PATCH 29/29] fix: a reset set up workspaces of procedures that were
 only included for their instructions

---
 src/lib/sup/oac-tree/procedure/procedure_store.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lib/sup/oac-tree/procedure/procedure_store.cpp b/src/lib/sup/oac-tree/procedure/procedure_store.cpp
index 267e686..2e8bf81 100644
--- a/src/lib/sup/oac-tree/procedure/procedure_store.cpp
+++ b/src/lib/sup/oac-tree/procedure/procedure_store.cpp
@@ -64,6 +64,11 @@ void ProcedureStore::ResetProcedureWorkspaces(UserInterface& ui) const
   for (auto& [_, procedure] : m_procedure_cache)
   {
     auto& ws = procedure->GetWorkspace();
+    // Procedures from which only instructions were included do not use their own workspace:
+    if (!ws.IsSuccessfullySetup())
+    {
+      continue;
+    }
     ws.Teardown();
     ws.Setup();
   }
-- 
2.43.0

