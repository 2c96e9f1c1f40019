NA = {}
t("C25 C26 C27", "TLA+ spec checked with TLC; TLC-generated histories replayed on the code, recorded traces validated by TLC",
  "design exhaustively checked in small scope; code checked on every generated short history and on random long ones, each step judged by the TLA+ trace specification")
t("C13 C14 C15 C28 C29 C30 C31", "executable TLA+ specification of the text helpers checked with TLC; every recorded call of the real code is judged by the TLA+ trace specification",
  "meaning of each helper defined in TLA+ and checked on all short inputs; code checked on TLC-enumerated and random inputs, results judged by TLC")
t("C08 C09 C10 C11 C12 C16", "TLA+ specification of one HTTP exchange (reading, routing, handlers, framing, ranges, files); TLC-generated and random exchanges run through the real reading/handling/sending code, traces validated by TLC",
  "design checked exhaustively in small scope; exchanges of the real code over real sockets judged byte for byte by the TLA+ trace specification")
t("C06", "TLA+ specification of one HTTP exchange with a resource ledger; memory, descriptors and mappings held after each exchange are recorded from the real code and judged by the TLA+ trace specification",
  "every exchange TLC enumerates and random ones, including failing clients, must leave the ledger empty")
t("C17 C18 C19 C20 C21 C22 C23 C24", "executable TLA+ specification of the template language checked with TLC; TLC-enumerated and random templates and contexts rendered by the real code, every result judged by the TLA+ trace specification",
  "meaning of templates defined as a TLA+ function on line sequences; all small templates of each construct are enumerated by TLC, and larger random ones generated; results compared by TLC byte for byte")
t("C32", "executable TLA+ specification of the template language; TLC judges what the repository's Python binding hands over, gets back and retains, for random contexts and templates",
  "the binding as shipped, on the engine built from the working tree, in the main and in other threads; every rendering, filter call and release judged by the TLA+ trace specification")
t("C01 C02 C03 C04 C05 C07", "TLA+ design model of the server pipeline checked with TLC (safety and liveness); TLC-drawn behaviours replayed as thread schedules on the real server over a simulated kernel, plus random and priority schedules with faults; every recorded history is judged by the TLA+ trace specification",
  "design exhaustively checked for 3 clients, 2 workers, queues of 1, partial writes, vanishing clients and refused hand-overs; the unchanged server code runs under a controlled scheduler and each call into the kernel is judged by TLC")
