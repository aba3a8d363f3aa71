SPECIFICATION Spec
CONSTANTS N = 4 Dmax = 3 P = 2
INVARIANTS ColumnsStayColumns EndsReduced ReadsBarcode
PROPERTY Ends
CHECK_DEADLOCK FALSE
