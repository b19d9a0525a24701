#!/bin/bash
# Runs the repository's own unit tests against the stand-in (development aid, not a check).
# usage: unit_tests.sh [asan|tsan] [gtest filter]    REPO=/repo by default
set -eo pipefail
V=$(cd "$(dirname "$0")/.." && pwd); R=${REPO:-/repo}; K=${1:-asan}; B=$V/build/ut-$K; mkdir -p $B
S="-fsanitize=address,undefined -fno-sanitize-recover=all"; [ $K = tsan ] && S="-fsanitize=thread"
INC="-I$R/src -I$R/src/lib -I$R/src/app/oac-tree-cli -I$R/src/app/oac-tree-daemon -I$R/test/unit -I$V/standin/include -I/usr/include/libxml2"
cat > $B/Makefile <<M
SRC := \$(shell find $R/src/lib -name '*.cpp') $V/standin/src/dto.cpp $V/standin/src/json.cpp $V/standin/src/utils.cpp $R/src/app/oac-tree-cli/cl_interface.cpp $R/src/app/oac-tree-daemon/daemon_interface.cpp \$(wildcard $R/test/unit/*.cpp)
OBJ := \$(subst /,_,\$(SRC:.cpp=.o))
all: ut
define rule
\$(subst /,_,\$(1:.cpp=.o)): \$(1)
	clang++ -std=c++17 -w -g1 -O1 $S $INC -MMD -c \$(1) -o \$\$@
endef
\$(foreach s,\$(SRC),\$(eval \$(call rule,\$(s))))
ut: \$(OBJ)
	clang++ $S -o ut \$(OBJ) -lgmock -lgtest -lgtest_main -lxml2 -ldl -pthread
-include *.d
M
make -s -C $B -j8 2>&1 | tail -20
rm -rf $B/resources && cp -a $R/test/resources $B/resources
cd $B/resources && $B/ut --gtest_brief=1 ${2:+--gtest_filter=$2}
