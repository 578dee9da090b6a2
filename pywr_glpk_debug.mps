* Problem:
* Class:      LP
* Rows:       19
* Columns:    12
* Non-zeros:  34
* Format:     Free MPS
*
NAME
ROWS
 N R0000000
 E R0000001
 E R0000002
 G R0000003
 G R0000004
 G R0000005
 G R0000006
 G R0000007
 G R0000008
 G R0000009
 G R0000010
 G R0000011
 G R0000012
 E R0000013
 E R0000014
 E R0000015
 E R0000016
 E R0000017
 E R0000018
 G R0000019
COLUMNS
 C0000001 R0000017 -1 R0000014 -1
 C0000001 R0000006 1 R0000001 1
 C0000002 R0000016 1 R0000002 1
 C0000003 R0000000 -1 R0000017 -1
 C0000003 R0000016 -1 R0000012 1
 C0000003 R0000010 1
 C0000004 R0000000 -10 R0000011 1
 C0000004 R0000015 1 R0000005 1
 C0000005 R0000001 0 $ empty column
 C0000006 R0000001 0 $ empty column
 C0000007 R0000001 0 $ empty column
 C0000008 R0000018 1 R0000019 1
 C0000008 R0000008 1 R0000015 -1
 C0000008 R0000007 1 R0000014 1
 C0000009 R0000018 -1 R0000019 1
 C0000009 R0000009 1 R0000015 -1
 C0000009 R0000007 1 R0000014 1
 C0000010 R0000018 -1 R0000019 1
 C0000010 R0000009 1 R0000014 1
 C0000010 R0000013 -1 R0000004 1
 C0000011 R0000001 0 $ empty column
 C0000012 R0000000 -10 R0000011 1
 C0000012 R0000013 1 R0000003 1
RHS
 RHS1 R0000001 4
RANGES
 RNG1 R0000001 6 R0000002 2
 RNG1 R0000017 12
ENDATA
