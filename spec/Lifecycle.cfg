SPECIFICATION Spec
CONSTANTS Classes = {1, 2} Requests = {"plain", "other", "both", "unchecked", "infeasible", "missing"} Utils = {"map", "vector"} MaxLen = 3 Copies = TRUE Memory = "none"
INVARIANTS HandedOutStays ObjectStays SameAnswer FreshAnswer Emit
CHECK_DEADLOCK FALSE
