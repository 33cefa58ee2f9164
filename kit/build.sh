# build.sh OUT PROGRAM.c [gcc flags]: compiles the runtime's sources in the current directory (/repo) together with a
# program.  CONF=single|multi|fed-cent|fed-dec chooses the configuration (default multi); EXTRA adds source files.
lf_build() {
  local out=$1 prog=$2; shift 2
  local inc="-Iinclude -Iinclude/core -Iinclude/core/federated -Iinclude/core/federated/network -Iinclude/core/modal_models -Iinclude/core/platform -Iinclude/core/threaded -Iinclude/core/utils -Iinclude/api -Icore/federated/RTI -Itrace/api -Itrace/api/types -Itrace/impl/include -Iversion/api -Ilogging/api -Itag/api -Ilow_level_platform/api -Iplatform/api"
  local src="core/tag.c core/clock.c core/port.c core/mixed_radix.c core/reactor_common.c core/lf_token.c core/environment.c lib/schedule.c core/utils/vector.c core/utils/pqueue_base.c core/utils/pqueue_tag.c core/utils/pqueue.c core/utils/util.c core/utils/lf_semaphore.c core/utils/hashset/hashset.c core/utils/hashset/hashset_itr.c $(ls lib/*.c | grep -v schedule.c) platform/impl/platform.c low_level_platform/impl/src/lf_unix_clock_support.c low_level_platform/impl/src/lf_linux_support.c low_level_platform/impl/src/lf_atomic_gcc_clang.c low_level_platform/impl/src/lf_platform_util.c"
  local thr="core/threaded/reactor_threaded.c core/threaded/scheduler_adaptive.c core/threaded/scheduler_GEDF_NP.c core/threaded/scheduler_NP.c core/threaded/scheduler_sync_tag_advance.c core/threaded/scheduler_instance.c core/threaded/watchdog.c"
  local fed="core/federated/federate.c core/federated/clock-sync.c core/federated/network/net_util.c"
  local def="-DINITIAL_EVENT_QUEUE_SIZE=10 -DINITIAL_REACT_QUEUE_SIZE=10 -DPLATFORM_Linux -DLOG_LEVEL=${LOGLEVEL:-2} -D_GNU_SOURCE"
  case ${CONF:-multi} in
  single) def="$def -DLF_SINGLE_THREADED=1"; src="$src core/reactor.c" ;;
  multi) def="$def -DNUMBER_OF_WORKERS=4"; src="$src $thr" ;;
  fed-cent) def="$def -DNUMBER_OF_WORKERS=4 -DFEDERATED=1 -DFEDERATED_CENTRALIZED=1 -DNUMBER_OF_FEDERATES=2 -DFEDERATE_ID=0 -DADVANCE_MESSAGE_INTERVAL=10000000"; src="$src $thr $fed" ;;
  fed-dec) def="$def -DNUMBER_OF_WORKERS=4 -DFEDERATED=1 -DFEDERATED_DECENTRALIZED=1 -DNUMBER_OF_FEDERATES=2 -DFEDERATE_ID=0 -DADVANCE_MESSAGE_INTERVAL=10000000"; src="$src $thr $fed" ;;
  esac
  case " $* " in *" -D_LF_FEDERATE_NAMES"*) ;; *) [ -n "${CONF##fed*}" ] || set -- "$@" "-D_LF_FEDERATE_NAMES_COMMA_SEPARATED=\"a,b\"" ;; esac
  case " $* " in *" -DMODAL_REACTORS"*) src="$src core/modal_models/modes.c" ;; esac
  gcc -g -O1 -std=gnu11 -w $def $inc "$@" -o "$out" "$prog" $src $EXTRA -lm -lpthread
}
