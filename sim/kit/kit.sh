# usage: . kit.sh; kit_build <out> <image kind> <sources...>   (cwd: repository)
KIT=$(cd "$(dirname "$0")" && pwd); W=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$W"' EXIT; REPO=$(pwd)
kit_build() {
  local out=$1 kind=$2; shift 2; local s d="-DPLATFORM_Linux -DINITIAL_EVENT_QUEUE_SIZE=10 -DINITIAL_REACT_QUEUE_SIZE=10 -DLOG_LEVEL=2 -D_GNU_SOURCE -DMODAL_REACTORS=1 $KIT_DEFS"
  local i=; for s in include include/core include/core/federated include/core/federated/network include/core/modal_models include/core/threaded include/core/utils include/core/platform core/federated/RTI low_level_platform/api platform/api tag/api version/api logging/api trace/api trace/api/types trace/impl/include include/api; do i="$i -I$REPO/$s"; done
  local src="core/tag.c core/clock.c core/port.c core/mixed_radix.c core/reactor_common.c core/lf_token.c core/environment.c lib/schedule.c core/modal_models/modes.c $(ls core/utils/vector.c core/utils/pqueue*.c core/utils/util.c core/utils/hashset/*.c low_level_platform/impl/src/lf_unix_clock_support.c low_level_platform/impl/src/lf_linux_support.c low_level_platform/impl/src/lf_atomic_gcc_clang.c low_level_platform/impl/src/lf_platform_util.c platform/impl/platform.c)"
  local t="core/threaded/reactor_threaded.c core/threaded/watchdog.c core/utils/lf_semaphore.c $(ls core/threaded/scheduler*.c)"
  case $kind in
  st) d="$d -DLF_SINGLE_THREADED=1"; src="$src core/reactor.c";;
  np) d="$d -DNUMBER_OF_WORKERS=2 -DSCHEDULER=SCHED_NP"; src="$src $t";;
  gedf) d="$d -DNUMBER_OF_WORKERS=2 -DSCHEDULER=SCHED_GEDF_NP"; src="$src $t";;
  adapt) d="$d -DNUMBER_OF_WORKERS=2 -DSCHEDULER=SCHED_ADAPTIVE"; src="$src $t";;
  esac
  src="$src $KIT_SRC"
  gcc -std=gnu11 -g -O1 -w -DKIT $KIT_FLAGS $d $i -I"$KIT" -o "$W/$out" "$KIT/kit.c" "$KIT/glue.c" "$@" $src -lm -lpthread $KIT_LIBS || exit 99
}
