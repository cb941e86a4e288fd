SPECIFICATION Spec
CONSTANTS Depth = 4
          Emit = FALSE
          Careless = FALSE
          Freezing = FALSE
          Lens <- FewLens
          Sharing = TRUE
INVARIANTS Independence Usable CacheCoherent
CHECK_DEADLOCK FALSE
