INIT WsInit
NEXT WsStep
