SPECIFICATION Spec
CONSTANTS Workers = {w1, w2}
  FilesOf <- SmallFiles
  MaxIds = 1

PROPERTIES Terminates
CHECK_DEADLOCK FALSE
