prop("C90", "Legacy text readers and writers are inverse to each other",
 "Coordinates written in the well-known-text and table forms read back as the same coordinates.",
 ["inputs"], "every list of coordinates",
 "Their tests read one file each.",
 ["io.go"], [("line-wise parsing and printing", "io.go")], ["returned coordinates"],
 na="These helpers are unexported functions called from nowhere in the tool (dead code), and pure conversions of a string with no concurrency, time, fault or multi-party behaviour: nothing for a simulated schedule or fault to decide.")
prop("C91", "Range arithmetic is exact",
 "Splitting, striding and joining index ranges covers each index of the original range, in order, sharing only end points.",
 ["inputs"], "every range and set of cut points",
 "Tests hold a few ranges.",
 ["rng"], [("integer arithmetic on ranges", "rng/split.go, rng/stride.go")], ["returned ranges"],
 na="Pure integer functions without concurrency, time, I/O or state; their effect on users is decided through C05, C06 and C12, which would fail if ranges lost or repeated a vertex.")
