SPECIFICATION Spec
CONSTANTS Depth = 4
          Emit = TRUE
VIEW view
INVARIANTS PathDetermined SiblingsTogether Bounded
PROPERTIES SetIsLocal ReadsAreStable
CHECK_DEADLOCK FALSE
