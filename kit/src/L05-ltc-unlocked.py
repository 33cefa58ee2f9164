PROP = "C05"
NEEDS = "one federate confirming a tag while another one's message to it is being recorded as in transit"
BREAKS = "the queue of messages in transit is changed by one RTI thread without the lock under which other threads read it"
EDITS = [("core/federated/RTI/rti_remote.c", """  // FIXME: Should this function be in the enclave version?
  LF_MUTEX_LOCK(&rti_mutex);
  // See if we can remove any of the recorded in-transit messages for this.
  pqueue_tag_remove_up_to(fed->in_transit_message_tags, completed);
  LF_MUTEX_UNLOCK(&rti_mutex);""", """  // Only this federate's thread removes messages from this federate's queue.
  pqueue_tag_remove_up_to(fed->in_transit_message_tags, completed);""")]
PRE = """t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
R=core/federated/RTI
inc="-Iinclude -Iinclude/core -Iinclude/core/federated -Iinclude/core/federated/network -Iinclude/core/modal_models -Iinclude/core/platform -Iinclude/core/threaded -Iinclude/core/utils -I$R -Itrace/api -Itrace/api/types -Itrace/impl/include -Iversion/api -Ilogging/api -Itag/api -Ilow_level_platform/api -Iplatform/api"
gcc -g -O1 -std=gnu11 -w -fsanitize=thread -D_GNU_SOURCE -DPLATFORM_Linux -DRTI_TRACE -DSTANDALONE_RTI=1 -DFEDERATED=1 -DLF_TRACE -DLOG_LEVEL=2 -DINITIAL_EVENT_QUEUE_SIZE=10 $inc -o "$t/RTI" $R/main.c $R/rti_common.c $R/rti_remote.c trace/impl/src/trace_impl.c core/tracepoint.c low_level_platform/impl/src/lf_unix_clock_support.c low_level_platform/impl/src/lf_linux_support.c low_level_platform/impl/src/lf_atomic_gcc_clang.c low_level_platform/impl/src/lf_platform_util.c platform/impl/platform.c core/utils/util.c core/tag.c core/clock.c core/federated/network/net_util.c core/utils/pqueue_base.c core/utils/pqueue_tag.c core/utils/pqueue.c -lm -lpthread || exit 4
export RTI_BIN=$t/RTI TSAN_OPTIONS="detect_deadlocks=0 exitcode=0 log_path=$t/tsan"
"""
PY = """
import glob
def demo():
    r = RTI(2, path=os.environ["RTI_BIN"])
    (a, b), t0 = federation(r, [([], [1]), ([(0, 10**6)], [])])
    a.net(t0)
    for i in range(1, 400):
        a.msg(1, 0, t0 + 1000 * i)
        b.ltc(t0 + 1000 * i - 500)
    time.sleep(1)
    a.resign(); b.resign(); a.close(); b.close()
    try: r.wait(10)
    except Fail: pass
    for f in glob.glob(os.path.dirname(os.environ["RTI_BIN"]) + "/tsan*"):
        s = open(f).read()
        if "pqueue" in s:
            raise Fail(s[:3000])
"""
