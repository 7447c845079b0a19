INIT Init
NEXT NextOps
