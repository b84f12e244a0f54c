SPECIFICATION MSpec
CONSTANTS Longest = 5 Costs = {0, 1, 3}
INVARIANTS DistanceIsCheapest ItselfIsFree Backwards OverC SplitJoins NoTagLeft ReplaceIsJoin ReplaceBySame TrimOnce CaseBlind
CHECK_DEADLOCK FALSE
