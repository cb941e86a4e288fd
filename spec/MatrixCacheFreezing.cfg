SPECIFICATION Spec
CONSTANTS Depth = 4
          Emit = FALSE
          Careless = FALSE
          Freezing = TRUE
          Lens <- FewLens
          Sharing = FALSE
INVARIANTS Independence Usable CacheCoherent
CHECK_DEADLOCK FALSE
