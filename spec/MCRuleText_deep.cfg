SPECIFICATION MCSpec
CONSTANTS MaxLen = 4
          Alphabet = {97, 34, 92, 125, 59, 124, 58, 93, 32}
          Prefixes <- SomePrefixes
          VMs <- SomeReaders
INVARIANTS PlaceInText Viable NotViable SpellsOut SectionsWritten WeaveKeeps
PROPERTIES Progress
CHECK_DEADLOCK FALSE
