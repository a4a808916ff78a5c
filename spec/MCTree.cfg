SPECIFICATION MCSpec
CONSTANT MaxAdds = 5
INVARIANTS ForestOK WalkOK DescOK
PROPERTIES HandlesStable OnlyBranchesGo
CHECK_DEADLOCK FALSE
