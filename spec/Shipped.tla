------------------------------ MODULE Shipped -------------------------------
(***************************************************************************)
(* The files the package ships, as raw as possible: bytes of the binary    *)
(* files, code points of the texts, the JSON trees as they are.            *)
(***************************************************************************)
EXTENDS Integers, Json, IOUtils

Data == IF "DATA" \in DOMAIN IOEnv THEN JsonDeserialize(IOEnv.DATA) ELSE [none |-> 0]
Given(part) == part \in DOMAIN Data
\* a file's bytes
File(name) == Data.files[name]
GivenFile(name) == Given("files") /\ name \in DOMAIN Data.files

=============================================================================
