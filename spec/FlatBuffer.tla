----------------------------- MODULE FlatBuffer -----------------------------
(***************************************************************************)
(* The FlatBuffers wire format, and a reader over it.                      *)
(*                                                                         *)
(* A buffer is a sequence of bytes; positions count from 0.  The first     *)
(* word points to the root table.  A table starts with the distance back   *)
(* to its vtable; the vtable holds its own length, the table's length, and *)
(* one 16-bit distance per field, 0 for an absent field.  Field number k   *)
(* has the vtable position 4 + 2k.  Tables, strings and vectors are        *)
(* reached by a distance stored where they are referred to.                *)
(*                                                                         *)
(* A reader is a table and a counter: the vtable position of the next      *)
(* field of a sequential read.  Every sequential read moves the counter by *)
(* one field, whether the field is present or not.                         *)
(***************************************************************************)
EXTENDS Prngs

\* little endian, as words
ByteAt(b, p) == b[p + 1]
Half(b, p) == b[p + 1] + (256 * b[p + 2])
Word(b, p) == Or32(Half(b, p), Shl32(Half(b, p + 2), 16))
Double(b, p) == <<Word(b, p + 4), Word(b, p)>>

Root(b) == Word(b, 0)
\* where a field's value is, 0 if absent
FieldAt(b, t, v) ==
  LET vt == t - Word(b, t)
      off == IF v < Half(b, vt) THEN Half(b, vt + v) ELSE 0
  IN IF off = 0 THEN 0 ELSE t + off
Follow(b, p) == p + Word(b, p)
\* positions of the tables of a vector of tables
Elements(b, p) ==
  LET v == Follow(b, p) IN [i \in 1..Word(b, v) |-> Follow(b, v + (4 * i))]
\* the bytes of a string
Text(b, p) == LET v == Follow(b, p) IN SubSeq(b, v + 5, v + 4 + Word(b, v))

\* a scalar's value as words; narrow signed integers are extended
Sign(x, bits) == IF x >= 2^(bits - 1) THEN x - 2^bits ELSE x
Scalar(b, p, type) ==
  CASE type = "U8" -> <<ByteAt(b, p)>>
    [] type = "I8" -> <<Sign(ByteAt(b, p), 8)>>
    [] type = "U16" -> <<Half(b, p)>>
    [] type = "I16" -> <<Sign(Half(b, p), 16)>>
    [] type \in {"U32", "I32", "F32"} -> <<Word(b, p)>>
    [] type \in {"U64", "I64", "F64"} -> Double(b, p)

------------------------------------------------------------------------------
\* A reader object: the buffer and a sequence of <<table, counter>>; the
\* first is the root, the others were reached from it.
ScalarTypes == <<"U8", "I8", "U16", "I16", "U32", "I32", "U64", "I64", "F32", "F64">>
NewReader(c) == [cls |-> "FB", buf |-> c.buf, nodes |-> <<<<Root(c.buf), 4>>>>]
Present(x) == <<1>> \o x
\* read at vtable position v of node n: <<result, tables reached>>
ReadAt(ob, kind, n, v, a) ==
  LET b == ob.buf
      p == FieldAt(b, ob.nodes[n][1], v)
      default == <<0>> \o a[3]
  IN IF p = 0
     THEN CASE kind = "arr" -> <<Present(<<>>), <<>>>>           \* an absent vector is empty
            [] OTHER -> <<default, <<>>>>
     ELSE CASE kind = "val" -> <<Present(Scalar(b, p, ScalarTypes[a[2][1]])), <<>>>>
            [] kind = "enum" -> <<Present(<<77>> \o Scalar(b, p, ScalarTypes[a[2][1]])), <<>>>>
            \* read as a number, as a truth value and as a member of an enumeration
            [] kind \in {"cast", "member"} -> <<Present(Scalar(b, p, ScalarTypes[a[2][1]])), <<>>>>
            [] kind = "isset" -> LET x == Scalar(b, p, ScalarTypes[a[2][1]])
                 IN <<Present(<<IF \A i \in DOMAIN x : x[i] = 0 THEN 0 ELSE 1>>), <<>>>>
            [] kind = "obj" -> <<Present(<<Follow(b, p)>>), <<Follow(b, p)>>>>
            [] kind = "arr" -> <<Present(Elements(b, p)), Elements(b, p)>>
            [] kind = "str" -> <<Present(Text(b, p)), <<>>>>
            [] kind = "vec" ->
                 LET t == Follow(b, p)
                     part(i) == LET q == FieldAt(b, t, 2 + (2 * i)) IN IF q = 0 THEN <<0>> ELSE Present(<<Word(b, q)>>)
                 IN <<Present(part(1) \o part(2) \o part(3)), <<>>>>
Reached(ob, tables) == [ob EXCEPT !.nodes = @ \o [i \in 1..Len(tables) |-> <<tables[i], 4>>]]

\* a = <<<<node>>, <<type>>, default, <<position>>>>
\* "s..." reads at the counter and moves it by one field
Sequential == [sval |-> "val", senum |-> "enum", sobj |-> "obj", sarr |-> "arr", sstr |-> "str", svec |-> "vec",
                 scast |-> "cast", sisset |-> "isset", smember |-> "member"]
FbDo(ob, op, a) ==
  LET n == a[1][1]
  IN CASE op \in DOMAIN Sequential ->
            LET r == ReadAt(ob, Sequential[op], n, ob.nodes[n][2], a)
            IN <<Reached([ob EXCEPT !.nodes[n][2] = @ + 2], r[2]), r[1]>>
       [] op \in {"val", "enum", "obj", "arr", "str", "vec", "cast", "isset", "member"} ->
            LET r == ReadAt(ob, op, n, a[4][1], a) IN <<Reached(ob, r[2]), r[1]>>
       [] op = "skip" -> <<[ob EXCEPT !.nodes[n][2] = @ + (2 * a[2][1])], NoResult>>
       [] op = "dump" -> <<ob, ob.buf>>
       [] OTHER -> <<ob, Unknown>>
=============================================================================
