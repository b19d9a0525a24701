# usage: . build.sh; build_core|build_full DEMO.cpp OUT   (cwd: the repository)
REPO=$PWD
INC="-I$REPO/src/lib -I$REPO/src/app/oac-tree-cli -I$REPO/src/app/oac-tree-daemon -I$REPO/src/lib/sup/oac-tree -I$HERE/standin/include -I/usr/include/libxml2"
FL="-std=c++17 -w -O0 ${SAN:-} $INC"
build_core() {
  local L=$REPO/src/lib/sup/oac-tree
  g++ $FL -O1 "$1" $L/base/exceptions.cpp $L/base/log_severity.cpp $L/base/scope_guard.cpp \
    $L/procedure/execution_status.cpp $L/procedure/procedure_preamble.cpp $L/runner/breakpoint.cpp \
    $L/runner/job_command_queue.cpp $L/runner/job_commands.cpp $L/runner/job_state_monitor.cpp \
    $L/runner/job_states.cpp -o "$2" -pthread
}
build_full() {
  local W; W=$(dirname "$2")
  mkdir -p "$W/o"
  { find "$REPO/src/lib" "$HERE/standin/src" -name '*.cpp'; echo "$1"; } |
    xargs -P 8 -I{} sh -c 'g++ '"$FL"' -c "$1" -o "'"$W"'/o/$(echo "$1" | md5sum | cut -c1-16).o" || exit 255' sh {} || return 1
  g++ ${SAN:-} "$W"/o/*.o -o "$2" -lxml2 -ldl -pthread
}
