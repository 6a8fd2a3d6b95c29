------------------------------- MODULE Text -------------------------------
(* Strings as sequences of characters; numerals; regular expressions.      *)
EXTENDS Base

Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Ch(s, i) == SubSeq(s, i, i)
CharsOf(s) == {Ch(s, i) : i \in 1..Len(s)}
Digits == "0123456789"
DigitSet == CharsOf(Digits)
WsSet == {" ", "\t", "\n", "\r"}

RECURSIVE FindFrom(_, _, _)
\* first position >= i at which t occurs in s (0: none)
FindFrom(s, t, i) == IF i + Len(t) - 1 > Len(s) THEN 0
                     ELSE IF SubSeq(s, i, i + Len(t) - 1) = t THEN i
                     ELSE FindFrom(s, t, i + 1)
Find(s, t) == FindFrom(s, t, 1)
\* ASCII code (0 for other characters)
Code(c) == LET k == Find(Ascii, c) IN IF k = 0 THEN 0 ELSE k + 31
DigitVal(c) == Find(Digits, c) - 1
From(s, i) == SubSeq(s, i, Len(s))
StartsWith(s, t) == Len(t) <= Len(s) /\ SubSeq(s, 1, Len(t)) = t
EndsWith(s, t) == Len(t) <= Len(s) /\ SubSeq(s, Len(s) - Len(t) + 1, Len(s)) = t

RECURSIVE Strip(_)
Strip(s) == IF s = "" THEN s
            ELSE IF Ch(s, 1) \in WsSet THEN Strip(From(s, 2))
            ELSE IF Ch(s, Len(s)) \in WsSet THEN Strip(SubSeq(s, 1, Len(s) - 1))
            ELSE s

\* s split at (every occurrence of) the character c
RECURSIVE Split(_, _)
Split(s, c) == LET k == Find(s, c) IN
    IF k = 0 THEN <<s>> ELSE <<SubSeq(s, 1, k - 1)>> \o Split(From(s, k + 1), c)
Words(s) == SelectSeq(Split(s, " "), LAMBDA w : w # "")

RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN "" ELSE ss[1] \o Concat(Tail(ss))

AllDigits(s) == \A i \in 1..Len(s) : Ch(s, i) \in DigitSet
RECURSIVE Nat10(_)
\* value of a string of at most 9 digits
Nat10(s) == IF s = "" THEN 0 ELSE 10 * Nat10(SubSeq(s, 1, Len(s) - 1)) + DigitVal(Ch(s, Len(s)))

RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)
RECURSIVE LPad(_, _, _)
LPad(s, n, c) == IF Len(s) >= n THEN s ELSE LPad(c \o s, n, c)
RECURSIVE TrimL(_, _)
TrimL(s, c) == IF Len(s) > 1 /\ Ch(s, 1) = c THEN TrimL(From(s, 2), c) ELSE s
RECURSIVE TrimR(_, _)
TrimR(s, c) == IF s # "" /\ Ch(s, Len(s)) = c THEN TrimR(SubSeq(s, 1, Len(s) - 1), c) ELSE s

\* canonical text of the decimal n * 10^-e (e > 0 or n without trailing zeros)
DecText(n, e) == LET t == ToString(Abs(n))
                     d == IF e = 0 THEN t \o ".0"
                          ELSE LET u == LPad(t, e + 1, "0") IN
                               SubSeq(u, 1, Len(u) - e) \o "." \o SubSeq(u, Len(u) - e + 1, Len(u))
                 IN IF n < 0 THEN "-" \o d ELSE d

\* -- base64 of a hexadecimal string
B64 == "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
HexDigits == "0123456789abcdef"
HexVal(c) == Find(HexDigits, c) - 1
ByteAt(h, i) == 16 * HexVal(Ch(h, 2*i - 1)) + HexVal(Ch(h, 2*i))
B64C(k) == Ch(B64, k + 1)
RECURSIVE Base64_(_, _)
Base64_(h, i) == LET n == Len(h) \div 2 IN
    IF i > n THEN ""
    ELSE LET a == ByteAt(h, i)
             b == IF i + 1 <= n THEN ByteAt(h, i + 1) ELSE 0
             c == IF i + 2 <= n THEN ByteAt(h, i + 2) ELSE 0
         IN B64C(a \div 4) \o B64C((a % 4) * 16 + b \div 16)
            \o (IF i + 1 <= n THEN B64C((b % 16) * 4 + c \div 64) ELSE "=")
            \o (IF i + 2 <= n THEN B64C(c % 64) ELSE "=")
            \o Base64_(h, i + 3)
Base64(h) == Base64_(h, 1)

(***************************************************************************)
(* Regular expressions (the subset of XML Schema the generators use):      *)
(*  <<"chr", c>> <<"any">> <<"cls", neg, <<chars>>, <<<<lo,hi>>>>>>         *)
(*  <<"esc", letter>> <<"cat", rs>> <<"alt", rs>> <<"rep", r, min, max>>    *)
(* Ends(r, s, i) = positions after a match of r starting at i              *)
(***************************************************************************)
IsLetter(c) == LET k == Code(c) IN (k >= 65 /\ k <= 90) \/ (k >= 97 /\ k <= 122)
EscHas(l, c) == CASE l = "d" -> c \in DigitSet
                  [] l = "D" -> c \notin DigitSet
                  [] l = "s" -> c \in WsSet
                  [] l = "S" -> c \notin WsSet
                  [] l = "w" -> IsLetter(c) \/ c \in DigitSet   \* for the alphabet in use
                  [] OTHER -> FALSE
InRange(c, r) == Code(c) # 0 /\ Code(c) >= Code(r[1]) /\ Code(c) <= Code(r[2])
ClsHas(r, c) == LET in == c \in Rng(r[3]) \/ \E k \in 1..Len(r[4]) : InRange(c, r[4][k])
                IN IF r[2] THEN ~in ELSE in
RECURSIVE Ends(_, _, _), EndsCat(_, _, _, _), EndsRep(_, _, _, _, _, _)
Ends(r, s, i) ==
    CASE r[1] = "chr" -> IF i <= Len(s) /\ Ch(s, i) = r[2] THEN {i + 1} ELSE {}
      [] r[1] = "any" -> IF i <= Len(s) /\ Ch(s, i) \notin {"\n", "\r"} THEN {i + 1} ELSE {}
      [] r[1] = "esc" -> IF i <= Len(s) /\ EscHas(r[2], Ch(s, i)) THEN {i + 1} ELSE {}
      [] r[1] = "cls" -> IF i <= Len(s) /\ ClsHas(r, Ch(s, i)) THEN {i + 1} ELSE {}
      [] r[1] = "cat" -> EndsCat(r[2], 1, s, {i})
      [] r[1] = "alt" -> UNION {Ends(r[2][k], s, i) : k \in 1..Len(r[2])}
      [] r[1] = "rep" -> EndsRep(r[2], r[3], r[4], s, {i}, {})
EndsCat(rs, k, s, I) == IF k > Len(rs) THEN I
                        ELSE EndsCat(rs, k + 1, s, UNION {Ends(rs[k], s, i) : i \in I})
\* min more iterations are due, at most max (-1: any); acc: ends collected
EndsRep(r, min, max, s, I, acc) ==
    LET acc2 == IF min = 0 THEN acc \cup I ELSE acc
        nxt == UNION {Ends(r, s, i) : i \in I}
    IN IF I = {} \/ max = 0 \/ (min = 0 /\ nxt \subseteq acc2) THEN acc2
       ELSE EndsRep(r, Max2(min - 1, 0), IF max < 0 THEN max ELSE max - 1, s, nxt, acc2)
Matches(r, s) == (Len(s) + 1) \in Ends(r, s, 1)
=============================================================================
