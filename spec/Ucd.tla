-------------------------------- MODULE Ucd --------------------------------
(***************************************************************************)
(* The Unicode 13 character database and the UTS #46 mapping table, pinned *)
(* in data/ucd.json.  Tables are in two levels: for each page of 256       *)
(* codepoints, which distinct page it is, and the distinct pages.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, Json
Data == JsonDeserialize("data/ucd.json")
Last == 1114111
Look(t, c) == t.pages[t.index[(c \div 256) + 1]][(c % 256) + 1]
CatTable == Data.cat
CccTable == Data.ccc
FlagTable == Data.flags
BidiTable == Data.bidi
StatusTable == Data.status
DecompTable == Data.decomp
ComposeTable == Data.compose
LowerTable == Data.lower
UpperTable == Data.upper
MappingTable == Data.mapping
Statuses == Data.statuses

Cat(c) == Look(CatTable, c)          \* number of the general category
Ccc(c) == Look(CccTable, c)          \* canonical combining class
Flags(c) == Look(FlagTable, c)       \* normal form quick check bits
\* bidirectional class: 0 L, 1 R, 2 AL, 3 AN, 4 EN, 5 ES, 6 CS, 7 ET, 8 ON,
\* 9 BN, 10 NSM, 11 the rest
Bidi(c) == Look(BidiTable, c)
\* simple case mappings of Lu and Ll
LowerOf(c) == LET k == Look(LowerTable, c) IN IF k = 0 THEN c ELSE LowerTable.values[k]
UpperOf(c) == LET k == Look(UpperTable, c) IN IF k = 0 THEN c ELSE UpperTable.values[k]
\* one step of canonical decomposition, <<>> if none (Hangul apart)
DecompOf(c) == LET k == Look(DecompTable, c) IN IF k = 0 THEN <<>> ELSE DecompTable.values[k]
\* the pairs <<second, composite>> of the primary composites that begin with c
ComposesOf(c) == LET k == Look(ComposeTable, c) IN IF k = 0 THEN <<>> ELSE ComposeTable.values[k]
\* IDNA status: 0 valid, 1 mapped, 2 ignored, 3 deviation, 4.. disallowed
Status(c) == Look(StatusTable, c)
MappingOf(c) == LET k == Look(MappingTable, c) IN IF k = 0 THEN <<>> ELSE MappingTable.values[k]
HasMapping(c) == Look(MappingTable, c) # 0
\* general categories by number
Mark(c) == Cat(c) \in {10, 11, 12}
=============================================================================
