SPECIFICATION Spec
CONSTANTS
  Procs = {p1, p2, p3}
  Mids = {m1}
  Tags = {t1}
  MaxRev = 2
  MaxPubs = 3
  MaxUsed = 1
VIEW View
SYMMETRY Sym
CONSTRAINT Bound
INVARIANTS OneWriter ReadersSeeCommits NothingLost WorldOk PubIsLast
CHECK_DEADLOCK FALSE
