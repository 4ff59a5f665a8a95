------------------------------ MODULE Records -------------------------------
(***************************************************************************)
(* Records defined with the package's record helpers, over raw bytes.      *)
(* A definition is a sequence of fields                                    *)
(*   [t |-> type, n |-> lengths, in |-> definition of an inner record]     *)
(* laid out one behind the other without gaps, little endian; n holds the  *)
(* lengths of an array field, outermost first.                             *)
(***************************************************************************)
EXTENDS FlatBuffer

RECURSIVE Size(_)
Product(n) == FoldLeft(LAMBDA acc, x : acc * x, 1, n)
Width(f) == CASE f.t \in {"B1", "U8"} -> 1 [] f.t = "U16" -> 2 [] f.t \in {"U32", "F32"} -> 4 [] f.t = "U64" -> 8 [] f.t = "REC" -> Size(f.in)
Size(def) == FoldLeft(LAMBDA acc, f : acc + (Product(f.n) * Width(f)), 0, def)
Offset(def, k) == Size(SubSeq(def, 1, k - 1))
\* number of an element of an array field, indices from 0
Number(n, at) == FoldLeft(LAMBDA acc, i : (acc * n[i]) + at[i], 0, [i \in 1..Len(n) |-> i])

NewRecords(c) == [cls |-> "RECORD", def |-> c.def, bytes |-> c.bytes]
Count(ob) == Len(ob.bytes) \div Size(ob.def)
\* where the value is that path leads to in record i: a field number, a field number of the inner record (0: none), indices
Leaf(ob, f, g) == IF g = 0 THEN ob.def[f] ELSE ob.def[f].in[g]
Place(ob, i, f, g, at) ==
  LET leaf == Leaf(ob, f, g)
  IN (i * Size(ob.def)) + Offset(ob.def, f) + (IF g = 0 THEN 0 ELSE Offset(ob.def[f].in, g)) + (Number(leaf.n, at) * Width(leaf))
Plain(t) == IF t = "B1" THEN "U8" ELSE t
Value(ob, i, f, g, at) == Scalar(ob.bytes, Place(ob, i, f, g, at), Plain(Leaf(ob, f, g).t))
\* the k-th byte of a value given as words
ByteOf(val, k) ==
  LET x == val[Len(val) - (k \div 4)] IN And32(Shr32(x, 8 * (k % 4)), 255)
Written(ob, i, f, g, at, val) ==
  LET p == Place(ob, i, f, g, at)
      n == Width(Leaf(ob, f, g))
  IN [ob EXCEPT !.bytes = [q \in 1..Len(@) |-> IF q > p /\ q <= p + n THEN ByteOf(val, q - p - 1) ELSE @[q]]]

All(ob) == [i \in 1..Count(ob) |-> i - 1]
RecordsDo(ob, op, a) ==
  CASE op = "layout" -> <<ob, <<Size(ob.def)>> \o [k \in 1..Len(ob.def) |-> Offset(ob.def, k)]>>
    \* read from Python, from compiled code, through a class that owns the records, from one record passed on
    [] op \in {"get", "read", "kept", "passed"} -> <<ob, Value(ob, a[1][1], a[2][1], a[3][1], a[4])>>
    \* written from Python, from compiled code, through a class that owns the records
    [] op \in {"set", "write", "hold"} -> <<Written(ob, a[1][1], a[2][1], a[3][1], a[4], a[5]), <<>>>>
    \* one field of all records
    [] op = "column" -> <<ob, FlattenSeq([i \in 1..Count(ob) |-> Value(ob, i - 1, a[1][1], 0, a[2])])>>
    \* the records whose field is at least a value, gathered in a typed list, one field of each
    [] op = "gather" ->
         <<ob, FlattenSeq([i \in 1..Count(ob) |-> LET v == Value(ob, i - 1, a[1][1], 0, <<>>)
                                                  IN IF Lt32(v[1], a[2][1]) THEN <<>> ELSE v])>>
    [] op = "bytes" -> <<ob, ob.bytes>>
    [] OTHER -> <<ob, <<0, 0, 0, 0, 0, 0, 0>>>>
=============================================================================
