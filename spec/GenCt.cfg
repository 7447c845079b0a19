INIT Init
NEXT NextCt
