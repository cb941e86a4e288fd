SPECIFICATION Spec
CONSTANTS Depth = 5
          Emit = TRUE
          Careless = FALSE
          Freezing = FALSE
          Sharing = FALSE
          Lens <- FewLens
          Types <- FewTypes
INVARIANTS Independence Usable CacheCoherent
CHECK_DEADLOCK FALSE
