SPECIFICATION Spec
VIEW View
INVARIANTS TypeOK StorageOK
CONSTANT Chunk = 300
CHECK_DEADLOCK FALSE
