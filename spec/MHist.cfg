SPECIFICATION Spec
INVARIANTS OneInode OneHandle WriteLaws PrepareLaws MoveLaws
CHECK_DEADLOCK FALSE
CONSTANT MaxIno = 3
