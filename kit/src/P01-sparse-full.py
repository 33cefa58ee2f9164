PROP = "P01"
NEEDS = "a sparse multiport of which more channels are set at a tag than its record has space for, by exactly one"
BREAKS = "a record of a multiport that is full is given up only when the second channel too many is set, and the first one is written after the end of the record"
EDITS = [("core/threaded/reactor_threaded.c", """    if (next >= port->sparse_record->capacity) {
""", """    if (next > port->sparse_record->capacity) {
""")]
C = r"""#include "lfprog.h"
#include "port.h"
#undef lf_set_present
static lf_port_base_t p[8], *ps[8];
static struct { lf_sparse_io_record_t r; size_t room[4]; } rec;
static int setat(int n) {
  _lf_start_time_step(&envs_[0]);
  rec.r.size = 0;
  for (int i = 0; i < 4; i++) rec.room[i] = 77;
  for (int i = 0; i < n; i++) lf_set_present(&p[i]);
  for (int i = 2; i < 4; i++) if (rec.room[i] != 77) return -1;
  lf_multiport_iterator_t it = _lf_multiport_iterator_impl(ps, 8);
  int k = 0;
  while (lf_multiport_next(&it) >= 0) k++;
  return k;
}
static void setup(void) {}
int main() {
  _lf_number_of_workers = 1;
  lf_create_environments();
  self_t* s = mkself();
  rec.r.capacity = 2;
  rec.r.present_channels = rec.room;
  for (int i = 0; i < 8; i++) {
    ps[i] = &p[i];
    p[i].source_reactor = &s->base;
    p[i].destination_channel = i;
    p[i].sparse_record = &rec.r;
  }
  envs_[0].execution_started = true;
  for (int n = 1; n < 6; n++) {
    for (int i = 0; i < 8; i++) p[i].is_present = false;
    int k = setat(n);
    CHECK(k == n, "%d channels were set, the iteration found %d", n, k);
  }
  return 0;
}
"""
