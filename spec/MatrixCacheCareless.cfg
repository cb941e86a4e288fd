SPECIFICATION Spec
CONSTANTS Depth = 4
          Emit = FALSE
          Careless = TRUE
          Freezing = FALSE
          Lens <- FewLens
          Sharing = FALSE
INVARIANTS Independence Usable CacheCoherent
CHECK_DEADLOCK FALSE
