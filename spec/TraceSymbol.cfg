SPECIFICATION TSpec
CONSTANT Max = 65534
