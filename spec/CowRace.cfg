SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2, 3}
INVARIANTS NoRace Once Alive Clocks_
