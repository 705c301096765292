------------------------------- MODULE KBase -------------------------------
(* Common helpers: records with optional fields, function updates, issues.   *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Emp == [x \in {} |-> "" ]

(* field or default *)
G(r, f, d) == IF f \in DOMAIN r THEN r[f] ELSE d
(* function update that may extend the domain *)
Put(r, f, v) == [x \in DOMAIN r \cup {f} |-> IF x = f THEN v ELSE r[x]]
(* a overrides b *)
Over(a, b) == [x \in DOMAIN a \cup DOMAIN b |-> IF x \in DOMAIN a THEN a[x] ELSE b[x]]
Without(r, ks) == [x \in DOMAIN r \ ks |-> r[x]]
Range(f) == {f[x] : x \in DOMAIN f}
SeqSet(q) == {q[k] : k \in DOMAIN q}
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

(* An issue: the properties it violates, and what is wrong.                   *)
I(tags, why) == [t |-> tags, r |-> why]
If(c, s) == IF c THEN s ELSE {}

(* bytes are hex strings "x0102..": number of bytes and concatenation *)
BLen(x) == (Len(x) - 1) \div 2
BCat(a, b) == IF Len(b) <= 1 THEN a ELSE a \o SubSeq(b, 2, Len(b))
=============================================================================
