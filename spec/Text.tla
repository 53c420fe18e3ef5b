-------------------------------- MODULE Text --------------------------------
(* Query text as finite sequences of Unicode code points, and the character  *)
(* classes the library's documentation relies on (identifier, digit, case).  *)
(* ASCII is defined here; for any other code point that occurs in a recorded *)
(* execution the recorder supplies its Unicode properties in ExtTab (taken   *)
(* from the Unicode database, not from the code under test).                 *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

CONSTANT ExtTab   \* sequence of [c, w, d, up]: code point, word char?, decimal value or -1, upper-case text

Ext(c) == ExtTab[CHOOSE k \in 1..Len(ExtTab) : ExtTab[k].c = c]

IsAsciiDigit(c) == c >= 48 /\ c <= 57
IsUpperA(c)     == c >= 65 /\ c <= 90
IsLowerA(c)     == c >= 97 /\ c <= 122

\* May start an identifier (the library recognises ASCII starts only).
IsStart(c) == IsUpperA(c) \/ IsLowerA(c) \/ c = 95
\* May continue an identifier.
IsWord(c)  == IF c > 127 THEN Ext(c).w ELSE IsStart(c) \/ IsAsciiDigit(c)
\* Decimal digit in any script, and its value.
IsDigit(c)  == IF c > 127 THEN Ext(c).d >= 0 ELSE IsAsciiDigit(c)
DigitVal(c) == IF c > 127 THEN Ext(c).d ELSE c - 48
IsBlank(c)  == c = 32 \/ c = 9
NL == 10
CR == 13

StartsWith(s, i, t) ==
  /\ i + Len(t) - 1 <= Len(s)
  /\ \A k \in 1..Len(t) : s[i + k - 1] = t[k]

\* End of the run of word characters / digits / blanks that starts at i.  (The
\* first position that ends it; written so that TLC finds it without recursion.)
WordEnd(s, i)  == CHOOSE j \in i..(Len(s) + 1) : (j = Len(s) + 1 \/ ~IsWord(s[j]))  /\ \A k \in i..(j - 1) : IsWord(s[k])
DigitEnd(s, i) == CHOOSE j \in i..(Len(s) + 1) : (j = Len(s) + 1 \/ ~IsDigit(s[j])) /\ \A k \in i..(j - 1) : IsDigit(s[k])
BlankEnd(s, i) == CHOOSE j \in i..(Len(s) + 1) : (j = Len(s) + 1 \/ ~IsBlank(s[j])) /\ \A k \in i..(j - 1) : IsBlank(s[k])

\* First position >= i holding c, or Len(s)+1 (i is at most Len(s)+1).
FindChar(s, i, c) == CHOOSE j \in i..(Len(s) + 1) : (j = Len(s) + 1 \/ s[j] = c) /\ \A k \in i..(j - 1) : s[k] # c
\* First position >= i at which t starts, or 0.
FindText(s, i, t) == LET n == Len(s) - Len(t) + 2   \* one past the last possible start
                     IN IF i >= n THEN 0
                        ELSE LET j == CHOOSE j \in i..n : (j = n \/ StartsWith(s, j, t)) /\ \A k \in i..(j - 1) : ~StartsWith(s, k, t)
                             IN IF j = n THEN 0 ELSE j

\* Value of a digit text; anything of more than 8 significant digits is Huge
\* (no parameter list is that long), which keeps TLC's integers in range.
Huge == 100000000
RECURSIVE IntOfR(_, _, _)
IntOfR(s, i, acc) == IF i > Len(s) THEN acc
                     ELSE IF acc >= Huge \div 10 THEN Huge
                     ELSE IntOfR(s, i + 1, acc * 10 + DigitVal(s[i]))
IntOf(s) == IntOfR(s, 1, 0)

RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN << 48 + n >> ELSE Digits(n \div 10) \o << 48 + (n % 10) >>

UpperC(c) == IF c > 127 THEN Ext(c).up ELSE IF IsLowerA(c) THEN << c - 32 >> ELSE << c >>
Upper(s) == FoldLeft(LAMBDA a, c : a \o UpperC(c), << >>, s)

Flat(ss) == FoldLeft(LAMBDA a, b : a \o b, << >>, ss)

\* The positions at which c stands, in order.
Positions(s, c) == SelectSeq([i \in 1..Len(s) |-> i], LAMBDA i : s[i] = c)

RangeOf(s) == { s[i] : i \in 1..Len(s) }
=============================================================================
