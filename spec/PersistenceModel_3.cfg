SPECIFICATION Spec
CONSTANTS N = 4 Dmax = 2 P = 3
INVARIANTS ColumnsStayColumns EndsReduced ReadsBarcode
PROPERTY Ends
CHECK_DEADLOCK FALSE
