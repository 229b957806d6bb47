SPECIFICATION Spec
CONSTANTS Workers = {w1, w2}
  FilesOf <- LargerFiles
  MaxIds = 2
VIEW View
INVARIANTS ResultRight Once Held
CHECK_DEADLOCK FALSE
