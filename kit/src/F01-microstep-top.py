PROP = "F01"
NEEDS = "a number with its most significant bit set, such as the microstep of FOREVER or of a tag just before a time"
BREAKS = "what is decoded is another tag than was encoded"
EDITS = [("core/federated/network/net_util.c", "buffer[3] = (unsigned char)((data & (uint32_t)0xff000000) >> 24);",
          "buffer[3] = (unsigned char)((data & 0x7f000000) >> 24);")]
CONF = "fed-cent"
C = r"""#define NO_RTI
#include "lfprog.h"
static void setup(void) { mkself(); }
int main() {
  alarm(20);
  unsigned char b[12];
  tag_t t = lf_delay_strict((tag_t){5000, 0}, 300);
  encode_tag(b, t);
  tag_t u = extract_tag(b);
  CHECK(lf_tag_compare(t, u) == 0, "%lld %u became %lld %u", (long long)t.time, t.microstep, (long long)u.time, u.microstep);
  return 0;
}
"""
