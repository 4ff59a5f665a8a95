------------------------------ MODULE MC_Flat -------------------------------
(***************************************************************************)
(* Writing and reading FlatBuffers are inverse.  Tables are built field by *)
(* field; Encode lays them out (fields in either order, trailing absent    *)
(* fields stored in the vtable or not); the reader of FlatBuffer must give *)
(* back every field, directly and in a sequence of reads and skips.        *)
(* The buffers and the sequences are also replayed into the real reader.   *)
(***************************************************************************)
EXTENDS FlatBuffer, Json

CONSTANTS MaxFields, Emit

VARIABLES fields,     \* values of the root table's fields, <<>> if absent
          ops,        \* what the sequential reader does with each: "read", "skip"
          reverse,    \* fields laid out last to first
          whole       \* trailing absent fields have vtable entries
vars == <<fields, ops, reverse, whole>>

Leaf == <<<<"U8", <<7>>>>, <<>>, <<"I16", <<-2>>>>>>
Values == {<<>>, <<"U8", <<200>>>>, <<"I8", <<-128>>>>, <<"U16", <<65535>>>>, <<"U32", <<-1>>>>, <<"U64", <<-2147483647 - 1, 5>>>>,
           <<"str", <<>>>>, <<"str", <<97, 0, 98>>>>, <<"tab", <<>>>>, <<"tab", Leaf>>, <<"arr", <<>>>>, <<"arr", <<Leaf, <<>>, Leaf>>>>}

Size(type) == CASE type \in {"U8", "I8"} -> 1 [] type \in {"U16", "I16"} -> 2 [] type \in {"U64", "I64"} -> 8 [] OTHER -> 4
Inline(type) == type \notin {"str", "tab", "arr"}
Bytes(w, n) == [i \in 1..n |-> IF i <= 4 THEN And32(Shr32(w[Len(w)], 8 * (i - 1)), 255) ELSE And32(Shr32(w[1], 8 * (i - 5)), 255)]
Up(n, k) == ((n + k - 1) \div k) * k
Pad(b, k) == b \o [i \in 1..(Up(Len(b), k) - Len(b)) |-> 0]

\* last field that needs a vtable entry
Needed(t) == IF whole THEN Len(t)
             ELSE FoldLeft(LAMBDA acc, i : IF t[i] # <<>> THEN i ELSE acc, 0, Range0(Len(t)))
\* order of the fields in the table's inline part
InOrder(t) == LET n == Len(t) IN SelectSeq([i \in 1..n |-> IF reverse THEN n + 1 - i ELSE i], LAMBDA i : t[i] # <<>>)
\* inline part: <<places of the fields (0: absent), size>>, from the table's start
Places(t) ==
  FoldLeft(LAMBDA acc, i : LET p == Up(acc[2], IF Size(t[i][1]) > 4 THEN 4 ELSE Size(t[i][1]))
                           IN <<[acc[1] EXCEPT ![i] = p], p + Size(t[i][1])>>,
           <<[i \in 1..Len(t) |-> 0], 4>>, InOrder(t))
Set(b, p, bytes) == [i \in 1..Len(b) |-> IF i > p /\ i <= p + Len(bytes) THEN bytes[i - p] ELSE b[i]]

\* blocks are <<bytes, where the block is entered>>, for a block that starts at a multiple of four
RECURSIVE TableBlock(_)
RECURSIVE VectorBlock(_)
Block(v) ==
  CASE v[1] = "str" -> <<Pad(Bytes(<<Len(v[2])>>, 4) \o v[2] \o <<0>>, 4), 0>>
    [] v[1] = "tab" -> TableBlock(v[2])
    [] OTHER -> VectorBlock(v[2])
\* b with the block of v added and the distance to it stored at p
Attach(b, p, v) ==
  LET at == Up(Len(b), 4)
      c == Block(v)
  IN Set(Pad(b, 4) \o c[1], p, Bytes(<<at + c[2] - p>>, 4))
TableBlock(t) ==
  LET n == Needed(t)
      pl == Places(t)
      vt == Pad(Bytes(<<4 + (2 * n)>>, 2) \o Bytes(<<pl[2]>>, 2)
                \o FoldLeft(LAMBDA acc, i : acc \o Bytes(<<pl[1][i]>>, 2), <<>>, Range0(n)), 4)
      start == Len(vt)
      bare == vt \o Bytes(<<start>>, 4) \o [i \in 1..(pl[2] - 4) |-> 0]
      inline == FoldLeft(LAMBDA b, i : IF t[i] # <<>> /\ Inline(t[i][1]) THEN Set(b, start + pl[1][i], Bytes(t[i][2], Size(t[i][1]))) ELSE b,
                         bare, Range0(Len(t)))
  IN <<FoldLeft(LAMBDA b, i : IF t[i] # <<>> /\ ~Inline(t[i][1]) THEN Attach(b, start + pl[1][i], t[i]) ELSE b,
                inline, Range0(Len(t))), start>>
VectorBlock(ts) ==
  <<FoldLeft(LAMBDA b, i : Attach(b, 4 * i, <<"tab", ts[i]>>),
             Bytes(<<Len(ts)>>, 4) \o [i \in 1..(4 * Len(ts)) |-> 0], Range0(Len(ts))), 0>>
Encode(t) == LET c == TableBlock(t) IN Pad(Bytes(<<4 + c[2]>>, 4) \o c[1], 4)

Init == fields = <<>> /\ ops = <<>> /\ reverse \in BOOLEAN /\ whole \in BOOLEAN
Next == /\ Len(fields) < MaxFields
        /\ \E v \in Values, o \in {"read", "skip"} : fields' = Append(fields, v) /\ ops' = Append(ops, o)
        /\ UNCHANGED <<reverse, whole>>
Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
TypeNumber(type) == CHOOSE i \in 1..Len(ScalarTypes) : ScalarTypes[i] = type
Kind(v) == IF v = <<>> THEN "val" ELSE IF v[1] = "str" THEN "str" ELSE IF v[1] = "tab" THEN "obj" ELSE IF v[1] = "arr" THEN "arr" ELSE "val"
Args(n, v, p) == <<<<n>>, <<IF v = <<>> \/ ~Inline(v[1]) THEN 1 ELSE TypeNumber(v[1])>>, <<9>>, <<p>>>>
\* every field of the table that is node n of the reader is what it should be
RECURSIVE Holds(_, _, _)
Holds(ob, n, t) ==
  \A i \in 1..(Len(t) + 1) :
    LET v == IF i > Len(t) THEN <<>> ELSE t[i]
        r == FbDo(ob, Kind(v), Args(n, v, 2 + (2 * i)))
        first == Len(ob.nodes)
    IN CASE v = <<>> -> r[2] = <<0, 9>>
         [] v # <<>> /\ Kind(v) = "val" -> r[2] = <<1>> \o v[2]
         [] v # <<>> /\ Kind(v) = "str" -> r[2] = <<1>> \o v[2]
         [] v # <<>> /\ Kind(v) = "obj" -> Len(r[1].nodes) = first + 1 /\ Holds(r[1], first + 1, v[2])
         [] OTHER -> /\ Len(r[1].nodes) = first + Len(v[2])
                     /\ \A k \in 1..Len(v[2]) : Holds(r[1], first + k, v[2][k])
Open(b) == NewReader([buf |-> b])
Faithful == Holds(Open(Encode(fields)), 1, fields)
\* sequential reads and skips: each read gives its own field
Sequence ==
  FoldLeft(LAMBDA acc, i :
             IF ops[i] = "skip" THEN <<FbDo(acc[1], "skip", <<<<1>>, <<1>>>>)[1], acc[2]>>
             ELSE LET v == fields[i]
                      r == FbDo(acc[1], "s" \o Kind(v), Args(1, v, 0))
                      d == FbDo(acc[1], Kind(v), Args(1, v, 2 + (2 * i)))
                  IN <<r[1], acc[2] /\ r[2] = d[2]>>,
           <<Open(Encode(fields)), TRUE>>, Range0(Len(fields)))[2]
Story == [i \in 1..Len(fields) |-> IF ops[i] = "skip" THEN <<"skip", <<<<1>>, <<1>>>>>>
                                   ELSE <<"s" \o Kind(fields[i]), Args(1, fields[i], 2 + (2 * i))>>]
Report == ~Emit \/ Len(fields) # MaxFields \/ PrintT("BEHAVIOUR " \o ToJson([buf |-> Encode(fields), ops |-> Story]))
=============================================================================
