PROP = "P01"
NEEDS = "a port that no reaction outside of its reactor reads, which is written to at a tag and read by its own reactor at a later one"
BREAKS = "the mark of a port without destinations is not noted, so that the port is still present at later tags"
EDITS = [("core/threaded/reactor_threaded.c", """  int ipfas = lf_atomic_fetch_add(&env->is_present_fields_abbreviated_size, 1);
  if (ipfas < env->is_present_fields_size) {
    env->is_present_fields_abbreviated[ipfas] = is_present_field;
  }
  *is_present_field = true;
""", """  if (port->num_destinations > 0) {
    int ipfas = lf_atomic_fetch_add(&env->is_present_fields_abbreviated_size, 1);
    if (ipfas < env->is_present_fields_size) {
      env->is_present_fields_abbreviated[ipfas] = is_present_field;
    }
  }
  *is_present_field = true;
""")]
C = r"""#include "lfprog.h"
#undef lf_set_present
static lf_port_base_t port;
static int n, stale;
static self_t* s;
static void first(void* self) { n++; if (n > 1 && port.is_present) stale++; if (n == 1) lf_set_present(&port); }
static void setup(void) {
  s = mkself();
  port.source_reactor = &s->base;
  port.destination_channel = -1;
  present_[npresent++] = &port.is_present;
  on(mktimer(0, MSEC(1)), mkreaction(s, first, 0));
}
int main() {
  arg("-o"); arg("5"); arg("msec"); arg("-f"); arg("true");
  go();
  CHECK(n > 1 && stale == 0, "the port was present at %d tags at which it was not set", stale);
  return 0;
}
"""
