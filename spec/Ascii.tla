------------------------------- MODULE Ascii -------------------------------
(* Readable byte strings: B("DATA") \o CRLF. *)
EXTENDS Bytes
Chars == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CharCode(c) == 31 + (CHOOSE k \in 1..95 : SubSeq(Chars, k, k) = c)
B(s) == [i \in 1..Len(s) |-> CharCode(SubSeq(s, i, i))]
=============================================================================
