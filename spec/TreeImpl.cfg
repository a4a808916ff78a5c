SPECIFICATION ISpec
CONSTANT MaxAdds = 5
INVARIANTS FreshKeys NoFreeTwice NotLinkedWhenFree
PROPERTIES Refines
CHECK_DEADLOCK FALSE
