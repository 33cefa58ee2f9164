PROP = "R03"
NEEDS = "three federates in a row, the middle one silent because it has nothing to do, the last one waiting for the first"
BREAKS = "federates that are not directly downstream are no longer looked at when the node in between is granted nothing new"
EDITS = [("core/federated/RTI/rti_common.c", """    notify_advance_grant_if_safe(downstream);
    notify_downstream_advance_grant_if_safe(downstream, visited);
  }
}""", """    tag_t before = downstream->last_granted;
    notify_advance_grant_if_safe(downstream);
    // Those further downstream wait only for what this one has been granted.
    if (downstream->num_upstream == 0 || lf_tag_compare(before, downstream->last_granted) != 0 ||
        lf_tag_compare(downstream->last_provisionally_granted, before) > 0)
      notify_downstream_advance_grant_if_safe(downstream, visited);
  }
}""")]
PY = """
def demo():
    r = RTI(4)
    no = -(1 << 63)
    (a, b, c, d), t0 = federation(r, [([], [1]), ([(0, no)], [2]), ([(1, no)], [3]), ([(2, no)], [])])
    b.net(FOREVER)
    c.net(FOREVER)
    d.net(t0 + 1000)
    d.quiet(0.3)
    a.net(t0 + 5000)
    assert d.expect(TAG)[0] >= t0 + 1000
"""
