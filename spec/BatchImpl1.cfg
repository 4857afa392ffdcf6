SPECIFICATION Spec
CONSTANTS
  RowCount = 5
  MaxRows = 1
  MayCancel = TRUE
  MaySilence = TRUE
INVARIANTS Complete Full
PROPERTIES Refines Ends Delivered
