SPECIFICATION Spec
CONSTANTS
  Hyper = {1, 2}
  Inputs = {3, 4}
  MaxStates = 3
  Leads <- TheLeads
INVARIANTS RunAlone Function
PROPERTY Values
CHECK_DEADLOCK FALSE
