---------------------------- MODULE IdnaTableMC ----------------------------
(***************************************************************************)
(* Laws of the pinned UTS #46 table, a page of 256 codepoints at a time.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, Idna
VARIABLES page
Init == page \in 0 .. 15
Next == page < 4336 /\ page' = page + 16
Spec == Init /\ [][Next]_page
Here == (page * 256) .. ((page * 256) + 255)
OneStatus == \A c \in Here : Status(c) \in 0 .. 6
\* mapped codepoints have mappings, and only they and the deviations do;
\* two deviations map to nothing
Mapped == \A c \in Here :
    /\ Status(c) \in {1, 6} => HasMapping(c)
    /\ HasMapping(c) => Status(c) \in {1, 3, 6}
\* what a mapping leads to is allowed as it is, and normalized
Final == \A c \in Here : Status(c) = 1 =>
    LET m == MappingOf(c)
    IN  NFC(m) = m /\ \A i \in 1 .. Len(m) : Status(m[i]) \in {0, 3}
\* ASCII: letters, digits, hyphen and dot are allowed, nothing else
Ascii == \A c \in Here \cap 0 .. 127 :
    CASE c \in 65 .. 90 -> Status(c) = 1 /\ MappingOf(c) = <<c + 32>>
      [] c \in {45, 46} \cup 48 .. 57 \cup 97 .. 122 -> Status(c) = 0
      [] OTHER -> Status(c) = 5
\* surrogates, noncharacters, private use and unassigned are disallowed
Unusable == \A c \in Here : (c \in 55296 .. 57343 \/ c % 65536 >= 65534 \/ Cat(c) = 3)
                               => Status(c) = 4
=============================================================================
