from mkseed import seed

seed("c01-notify-on-empty", "C01", "core",
[("runner/job_command_queue.cpp", """    std::lock_guard<std::mutex> lk{m_mtx};
    m_command_queue.push_back(command);
  }
  m_cv.notify_one();""", """    std::lock_guard<std::mutex> lk{m_mtx};
    m_command_queue.push_back(command);
    if (m_command_queue.size() > 1)
    {
      return;
    }
  }
  m_cv.notify_one();""")],
r"""
#include <sup/oac-tree/job_command_queue.h>
#include <atomic>
#include <chrono>
#include <cstdlib>
#include <thread>
using namespace sup::oac_tree;
int main()
{
  for (int i = 0; i < 300; ++i)
  {
    auto q = new JobCommandQueue;
    std::atomic<int> got{0};
    std::thread a([&] { q->WaitForNextCommand(); ++got; });
    std::thread b([&] { q->WaitForNextCommand(); ++got; });
    std::this_thread::sleep_for(std::chrono::milliseconds(5));   // both are blocked
    q->Push(JobCommand::kStart);
    q->Push(JobCommand::kStep);
    for (int k = 0; k < 2000 && got < 2; ++k) std::this_thread::sleep_for(std::chrono::milliseconds(1));
    if (got < 2) std::_Exit(1);   // a consumer sleeps although a command is available
    a.join();
    b.join();
    delete q;
  }
}
""",
"two consumers blocked on the empty queue and two pushes before the first of them has run",
"the second push does not wake the second consumer, which sleeps on although a command is queued")

seed("c01-priority-unlocked", "C01", "core",
[("runner/job_command_queue.cpp", """    if (func)
    {
      func();
    }
    m_command_queue.push_front(command);
  }
  m_cv.notify_one();
  return true;""", """    m_command_queue.push_front(command);
  }
  m_cv.notify_one();
  if (func)
  {
    func();
  }
  return true;""")],
r"""
#include <sup/oac-tree/job_command_queue.h>
#include <atomic>
#include <chrono>
#include <cstdlib>
#include <thread>
using namespace sup::oac_tree;
int main()
{
  for (int i = 0; i < 50; ++i)
  {
    JobCommandQueue q;
    std::atomic<bool> done{false};
    std::atomic<bool> early{false};
    std::thread a([&] { q.WaitForNextCommand(); if (!done) early = true; });
    std::this_thread::sleep_for(std::chrono::milliseconds(2));
    q.PriorityPush(JobCommand::kHalt, [&] { std::this_thread::sleep_for(std::chrono::milliseconds(5)); done = true; });
    a.join();
    if (early) return 1;
  }
}
""",
"a consumer that is already blocked (or polls) while the priority push is being made",
"the consumer receives the priority command before the action attached to it has run")

seed("c02-unregister-both-kinds", "C02", "core",
[("named_callback_manager.h", """  auto new_end_it =
      std::remove_if(cb_entries.begin(), cb_entries.end(),
                     [listener](CallbackEntry cb_entry) { return cb_entry.listener == listener; });
  result = result || new_end_it != cb_entries.end();
  cb_entries.erase(new_end_it, cb_entries.end());
  return result;""", """  if (!result)
  {
    auto new_end_it =
        std::remove_if(cb_entries.begin(), cb_entries.end(),
                       [listener](CallbackEntry cb_entry) { return cb_entry.listener == listener; });
    result = new_end_it != cb_entries.end();
    cb_entries.erase(new_end_it, cb_entries.end());
  }
  return result;""")],
r"""
#include <sup/oac-tree/named_callback_manager.h>
using namespace sup::oac_tree;
int main()
{
  NamedCallbackManager<int> m;
  int n = 0, l = 0;
  m.RegisterCallback("a", [&](int) { ++n; }, &l);
  m.RegisterGenericCallback([&](const std::string&, int) { ++n; }, &l);
  if (!m.UnregisterListener(&l)) return 2;
  m.ExecuteCallbacks("a", 1);
  return n == 0 ? 0 : 1;
}
""",
"a listener that has registered both a generic callback and a callback for a name",
"its named callbacks stay registered after UnregisterListener and run with a listener that may be gone")

seed("c03-assign-swaps", "C03", "core",
[("base/scope_guard.cpp", """  ScopeGuard moved{std::move(other)};
  Swap(moved);
  return *this;""", """  Swap(other);
  return *this;""")],
r"""
#include <sup/oac-tree/scope_guard.h>
using namespace sup::oac_tree;
int main()
{
  int n = 0;
  ScopeGuard a{[&] { ++n; }};
  ScopeGuard b{[] {}};
  a = std::move(b);
  return n == 1 && !b.IsValid() ? 0 : 1;
}
""",
"assigning one guard to another that already owns an action while the source object lives on",
"the overwritten action is not run at the assignment but when the source guard goes away, which stays valid")

seed("c04-lazy-finished-set", "C04", "core",
[("runner/job_states.cpp", """  static const std::set<JobState> finished_states = {
    JobState::kSucceeded,
    JobState::kFailed,
    JobState::kHalted
  };
  return""", """  static std::set<JobState> finished_states;
  if (finished_states.empty())
  {
    finished_states.insert(JobState::kSucceeded);
    finished_states.insert(JobState::kFailed);
    finished_states.insert(JobState::kHalted);
  }
  return""")],
r"""
#include <sup/oac-tree/job_states.h>
#include <atomic>
#include <cstdlib>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
#include <vector>
using namespace sup::oac_tree;
int main()
{
  for (int i = 0; i < 1500; ++i)
  {
    if (auto pid = fork())
    {
      int st = 0;
      waitpid(pid, &st, 0);
      if (st != 0) return 1;
      continue;
    }
    alarm(10);
    std::atomic<int> ready{0};
    std::atomic<bool> bad{false};
    std::vector<std::thread> t;
    for (int k = 0; k < 4; ++k)
      t.emplace_back([&] {
        ++ready;
        while (ready < 4) {}
        for (int r = 0; r < 50; ++r)
          if (!IsFinishedJobState(JobState::kHalted)) bad = true;
      });
    for (auto& x : t) x.join();
    std::_Exit(bad ? 1 : 0);
  }
}
""",
"several threads asking for the first time at the same moment",
"the table is filled without protection: a thread gets a wrong answer for a final state, or the table is corrupted")
