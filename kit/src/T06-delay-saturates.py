PROP = "T06"
NEEDS = "a delay that makes the sum exactly FOREVER"
BREAKS = "a delayed tag saturates to the time FOREVER with microstep 0, which is before FOREVER_TAG"
EDITS = [("core/tag.c", "  if (tag.time >= FOREVER - interval)\n    return FOREVER_TAG; // Overflow.\n  tag_t result", "  if (tag.time > FOREVER - interval)\n    return FOREVER_TAG; // Overflow.\n  tag_t result")]
C = r"""#include "lfprog.h"
static void setup(void) {}
int main() {
  tag_t t = {.time = 1000, .microstep = 3};
  tag_t d = lf_delay_tag(t, FOREVER - 1000);
  CHECK(lf_tag_compare(d, FOREVER_TAG) == 0, "delayed to microstep %u", d.microstep);
  return 0;
}
"""
