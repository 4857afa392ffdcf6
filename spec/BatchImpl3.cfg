SPECIFICATION Spec
CONSTANTS
  RowCount = 8
  MaxRows = 3
  MayCancel = TRUE
  MaySilence = TRUE
INVARIANTS Complete Full
PROPERTIES Refines Ends Delivered
