SPECIFICATION Spec
CONSTANTS Depth = 6
          Emit = TRUE
VIEW view
INVARIANTS PathDetermined SiblingsTogether Bounded
PROPERTIES SetIsLocal ReadsAreStable
CHECK_DEADLOCK FALSE
