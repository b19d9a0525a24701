// Random procedures over the whole instruction set.
#ifndef FULL_H_
#define FULL_H_
#include "fx.h"

namespace fx
{
struct FullOpt
{
  int max_nodes = 16;
  int max_depth = 5;
  bool async = true;      // ParallelSequence, Async
  bool input = true;      // Input, UserChoice, UserConfirmation
  bool includes = true;   // Include, IncludeProcedure, CopyTo/FromProcedure (files are written into dir)
  bool files = true;      // a File variable in dir
  bool endless = true;    // unbounded loops and waits that never end by themselves
  bool blocking = true;   // leaves that block until halted
  bool waits = true;
  bool hxvars = true;     // variables driven by the harness
  bool loops = true;
  bool logs = true;
  int us = 0;
  std::string dir;
};
// A procedure that is accepted at setup. Variables have well-known names (see FullVars).
ProcSpec GenFull(hx::Rng& r, const FullOpt& o);
std::vector<VarSpec> FullVars(hx::Rng& r, const FullOpt& o);
const std::vector<std::string>& FullScalarNames();   // names of scalar variables
void WriteFile(const std::string& path, const std::string& content);
std::string ReadFile(const std::string& path);
// An observer or user interface policy: answers at once, late, never, wrongly.
std::unique_ptr<IUserInputFuture> RandomAnswer(hx::Rng& r, const UserInputRequest& rq, std::function<void()> on_destroy = {});
bool ContainsType(const Spec& s, const std::string& type);
int ThreadCount();
}  // namespace fx
#endif
