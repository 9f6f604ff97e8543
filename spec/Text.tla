--------------------------------- MODULE Text ---------------------------------
(* Strings as sequences of characters. *)
EXTENDS Integers, Sequences, FiniteSets

Ch(s, i) == SubSeq(s, i, i)
CharsOf(s) == {Ch(s, i) : i \in 1..Len(s)}

Lower == "abcdefghijklmnopqrstuvwxyz"
Upper == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Digits == "0123456789"

IsDigit(c) == c \in CharsOf(Digits)
\* letters beyond ASCII, in the order of their codes
Beyond == "ßéöüλ日"
IsAlpha(c) == c \in CharsOf(Lower) \cup CharsOf(Upper) \cup CharsOf(Beyond)

\* the printable characters of ASCII in the order of their codes
Ascii == " !\"#$%&'()*+,-./" \o Digits \o ":;<=>?@" \o Upper \o "[\\]^_`" \o Lower \o "{|}~"
AllChars == Ascii \o Beyond
Code == [c \in CharsOf(AllChars) |-> CHOOSE i \in 1..Len(AllChars) : Ch(AllChars, i) = c]

StartsWith(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
EndsWith(s, p) == Len(p) <= Len(s) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
From(s, i) == SubSeq(s, i, Len(s))

\* where p occurs in s
Occurs(s, p) == {i \in 1..(Len(s) + 1 - Len(p)) : SubSeq(s, i, i + Len(p) - 1) = p}
Contains(s, p) == Len(p) <= Len(s) /\ Occurs(s, p) # {}
First(s, p) == CHOOSE i \in Occurs(s, p) : \A j \in Occurs(s, p) : i <= j
Last(s, p) == CHOOSE i \in Occurs(s, p) : \A j \in Occurs(s, p) : i >= j

\* the order of the bytes
Lexi(a, b) ==
  LET n == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
      d == {i \in 1..n : Ch(a, i) # Ch(b, i)}
  IN IF d = {} THEN (IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1 ELSE 0)
     ELSE LET i == CHOOSE i \in d : \A j \in d : i <= j
          IN IF Code[Ch(a, i)] < Code[Ch(b, i)] THEN -1 ELSE 1

RECURSIVE Join(_, _)
Join(ss, sep) == IF ss = <<>> THEN "" ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o sep \o Join(Tail(ss), sep)

\* the parts of s between the occurrences of a character
RECURSIVE Split(_, _)
Split(s, c) == IF ~Contains(s, c) THEN <<s>> ELSE <<SubSeq(s, 1, First(s, c) - 1)>> \o Split(From(s, First(s, c) + 1), c)

AllIn(s, C) == \A i \in 1..Len(s) : Ch(s, i) \in C
=============================================================================
