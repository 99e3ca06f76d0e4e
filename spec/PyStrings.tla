----------------------------- MODULE PyStrings -----------------------------
(***************************************************************************)
(* The strings that name geometry types in Python: a name, followed by a   *)
(* parenthesised, comma separated list of numbers where the shape needs    *)
(* them.  Strings are sequences of tokens here; spaces may surround        *)
(* arguments.  Meaning(s) is the type, "refused", or "open" for strings    *)
(* about which nothing is promised.                                        *)
(***************************************************************************)
EXTENDS Types

FixedNames == ("vertex" :> VertexT) @@ ("line" :> LineT) @@ ("triangle" :> TriangleT)
           @@ ("quadrilateral" :> QuadT) @@ ("tetrahedron" :> TetT) @@ ("pyramid" :> PyramidT)
           @@ ("prism" :> PrismT) @@ ("hexahedron" :> HexT)
DimNames == {"simplex", "cube", "none"}
Names == DOMAIN FixedNames \cup DimNames \cup {"general"}
WrongNames == {"", "cub", "cubes", "Cube", "triangl", "linear", "polygon", "tetrahedra", "aaa", "zzz", "generic", "none "}

Numbers == ("0" :> 0) @@ ("1" :> 1) @@ ("2" :> 2) @@ ("3" :> 3) @@ ("4" :> 4) @@ ("5" :> 5) @@ ("6" :> 6) @@ ("7" :> 7)
        @@ ("8" :> 8) @@ ("9" :> 9) @@ ("15" :> 15) @@ ("16" :> 16) @@ ("31" :> 31) @@ ("32" :> 32) @@ ("63" :> 63)
        @@ ("64" :> 64) @@ ("100" :> 100)

(* tokens of an argument list up to the closing parenthesis: sequence of   *)
(* arguments, each a sequence of non-space tokens                          *)
RECURSIVE ArgsFrom(_, _, _)
ArgsFrom(toks, cur, acc) ==
  IF toks = <<>> THEN [ok |-> FALSE, args |-> acc, rest |-> <<>>]
  ELSE LET h == Head(toks) IN
       CASE h = ")" -> [ok |-> TRUE, args |-> Append(acc, cur), rest |-> Tail(toks)]
         [] h = "," -> ArgsFrom(Tail(toks), <<>>, Append(acc, cur))
         [] OTHER -> ArgsFrom(Tail(toks), Append(cur, h), acc)

Trim(a) == LET ns == {k \in 1..Len(a) : a[k] # " "}
           IN IF ns = {} THEN <<>>
              ELSE SubSeq(a, CHOOSE k \in ns : \A j \in ns : k <= j, CHOOSE k \in ns : \A j \in ns : k >= j)
(* a name token may be continued by "(", or the string may end *)
RECURSIVE Cat(_)
Cat(a) == IF a = <<>> THEN "" ELSE a[1] \o Cat(Tail(a))

Refused == [kind |-> "refused", type |-> NoneType(0)]
Open == [kind |-> "open", type |-> NoneType(0)]
Is(t) == [kind |-> "type", type |-> t]
Meaning(toks) ==
  LET opens == {k \in 1..Len(toks) : toks[k] = "("}
      cut == IF opens = {} THEN Len(toks) + 1 ELSE CHOOSE k \in opens : \A j \in opens : k <= j
      name == Cat(SubSeq(toks, 1, cut - 1))
      rest == SubSeq(toks, cut + 1, Len(toks))
      parsed == ArgsFrom(rest, <<>>, <<>>)
      args == [k \in 1..Len(parsed.args) |-> Trim(parsed.args[k])]
      isNum(a) == Len(a) = 1 /\ a[1] \in DOMAIN Numbers
      val(k) == Numbers[args[k][1]]
      numeric == \A k \in 1..Len(args) : isNum(args[k])
      (* an argument that starts with something that is no number *)
      hopeless == \E k \in 1..Len(args) : args[k] # <<>> /\ args[k][1] \notin DOMAIN Numbers
      need == IF name \in DimNames THEN 1 ELSE IF name = "general" THEN 2 ELSE 0
  IN IF name \notin Names THEN Refused
     ELSE IF cut > Len(toks) THEN (IF need = 0 THEN Is(FixedNames[name]) ELSE Refused)
     ELSE IF ~parsed.ok THEN Refused
     ELSE IF Len(args) = 1 /\ args[1] = <<>> THEN (IF need = 0 THEN Open ELSE Refused)
     ELSE IF \E k \in 1..Len(args) : args[k] = <<>> THEN Refused
     ELSE IF Len(args) # need THEN Refused
     ELSE IF hopeless THEN Refused
     ELSE IF ~numeric THEN Open
     ELSE IF need = 2 /\ val(2) <= 20 /\ val(1) >= Pow(2, val(2)) THEN Refused
     ELSE IF need >= 1 /\ val(need) > 20 THEN Open
     ELSE IF parsed.rest # <<>> THEN Open
     ELSE IF name = "simplex" THEN Is(Simplex(val(1)))
     ELSE IF name = "cube" THEN Is(Cube(val(1)))
     ELSE IF name = "none" THEN Is(NoneType(val(1)))
     ELSE Is(TypeOfId(val(2), val(1)))

=============================================================================
