INIT Init
NEXT ThrNext
