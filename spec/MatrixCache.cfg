SPECIFICATION Spec
CONSTANTS Depth = 3
          Emit = TRUE
          Careless = FALSE
          Freezing = FALSE
          Sharing = FALSE
INVARIANTS Independence Usable CacheCoherent
CHECK_DEADLOCK FALSE
