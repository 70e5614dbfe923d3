INIT TInit
NEXT TNext
ALIAS Alias
