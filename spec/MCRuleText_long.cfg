SPECIFICATION MCSpec
CONSTANTS MaxLen = 7
          Alphabet = {97, 45, 62, 35, 59, 124, 34}
          Prefixes <- NoPrefix
          VMs <- AllReader
INVARIANTS PlaceInText Viable NotViable SpellsOut SectionsWritten WeaveKeeps
PROPERTIES Progress
CHECK_DEADLOCK FALSE
