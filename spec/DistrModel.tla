------------------------------ MODULE DistrModel ------------------------------
EXTENDS Distr, Json, TLC
CONSTANTS Objs, Qs, Vals, MaxOps
VARIABLE log
mvars == <<dvars, log>>
MInit == set = <<>> /\ log = <<>>
Note(r) == Len(log) < MaxOps /\ log' = Append(log, r)
Rec(op, o, p, q, i, v, x) == [op |-> op, o |-> o, p |-> p, q |-> q, i |-> i - 1, v |-> v, x |-> x]
Z == <<0>>
R == {"ok", "refused"}
MMake == \E o \in Objs, q \in Qs, dg \in BOOLEAN : (o \in Live => Len(log) > 5) /\ Make(o, q, dg)
         /\ Note(Rec((IF o \in Live THEN "remake" ELSE "make") \o (IF dg THEN "dg" ELSE ""), o, "", q, 1, 0, Z))
MCopy == \E o, p \in Objs : Copy(o, p) /\ Note(Rec("copy", o, p, 0, 1, 0, Z))
MAssign == \E o, p \in Objs, r \in R : Assign(o, p, r) /\ Note(Rec("assign", o, p, 0, 1, 0, Z))
MWrite == \E o \in Live, q \in 0..(CHOOSE m \in Qs : \A y \in Qs : y <= m), i \in 1..N, v \in Vals : q < set[o].Q /\ Write(o, q, i, v, "ok")
          /\ \E w \in {"write", "writestream"} : (w = "writestream" => q > 0) /\ Note(Rec(w, o, "", q, i, v, Z))
MUpdate == \E o \in Live : Update(o) /\ (\E w \in {"update", "compress"} : Note(Rec(w, o, "", 0, 1, 0, Z)))
MSetF0 == \E o \in Live, a, b \in Vals : LET x == [i \in 1..N |-> IF i = 1 THEN a ELSE b] IN SetF0(o, x) /\ Note(Rec("setf0", o, "", 0, 1, 0, x))
MSetStream == \E o, p \in Objs, r \in R : SetStream(o, p, r) /\ Note(Rec("setstream", o, p, 0, 1, 0, Z))
MFrom == \E o \in Objs, q \in Qs, a \in Vals : FromVectors(o, q, <<a, 1>>) /\ Note(Rec("fromvec", o, "", q, 1, 0, <<a, 1>>))
MScale == \E o \in Live, c \in {0, 2} : (\A k \in DOMAIN set[o].v : \A i \in 1..N : set[o].v[k][i] < 40) /\ Scale(o, c) /\ Note(Rec("scale", o, "", 0, 1, c, Z))
MEquals == \E o, p \in Objs, eq \in BOOLEAN : Equals(o, p, eq) /\ Note(Rec("equals", o, p, 0, 1, 0, Z))
MBeyond == \E o \in Live, q \in {0, 1, 3, 4, 5, 40}, r \in R, w \in {"beyond", "beyondghost"} : Beyond(o, q, r) /\ Note(Rec(w, o, "", q, 1, 0, Z))
MNext == MMake \/ MCopy \/ MAssign \/ MWrite \/ MUpdate \/ MSetF0 \/ MSetStream \/ MFrom \/ MScale \/ MEquals \/ MBeyond
\* histories to replay: the actions that have many variants are thinned out
Rare(n) == RandomElement(1..n) = 1
GNext == (Rare(25) /\ MFrom) \/ (Rare(4) /\ MMake) \/ (Rare(3) /\ MEquals) \/ (Rare(2) /\ MCopy) \/ MAssign \/ MWrite \/ MUpdate \/ MSetF0 \/ (Rare(2) /\ MSetStream) \/ MScale \/ (Rare(3) /\ MBeyond)
GSpec == MInit /\ [][GNext]_mvars
MSpec == MInit /\ [][MNext]_mvars
\* an operation changes one set at most: no two share their numbers
OneAtATime == [][Cardinality({o \in Live : set'[o] # set[o]}) <= 1]_mvars
Emit == Len(log) = MaxOps => PrintT("@@" \o ToJson(log))
View == <<dvars, Len(log)>>
=============================================================================
