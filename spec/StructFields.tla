---------------------------- MODULE StructFields ----------------------------
(***************************************************************************)
(* Which fields of a struct type take part in decoding and encoding, under *)
(* which name, and how they are reached.                                   *)
(*                                                                         *)
(* The struct types of a program are a table: the entry of a type is the   *)
(* sequence of its declared fields, as written in the program              *)
(*   [gn  |-> Go name (bytes), exp |-> exported?, anon |-> embedded?,      *)
(*    tagged |-> has the tag?, tag |-> its text, ty |-> type]              *)
(* Decls reads the tags:                                                   *)
(*   [gn, exp, anon, tagged, ty,                                           *)
(*    skip |-> tagged "-"?, tn |-> tag name (valid, or empty),             *)
(*    om |-> omitempty?, str |-> string option?]                           *)
(* and is what the other operators call `defs'.  Types are records with a  *)
(* discriminator t (see TypedDecode).                                      *)
(*                                                                         *)
(* Fields(defs, id, only) is the sequence of visible fields in declaration *)
(* (index) order:                                                          *)
(*   [n |-> name, path |-> sequence of field indexes, ty, q, om, tagged]   *)
(***************************************************************************)
EXTENDS Bytes, FiniteSets, SequencesExt

\* decode bytes to code points (invalid bytes become U+FFFD = 65533)
RECURSIVE Runes(_, _)
Runes(s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE LET b == s[i]
           cont(k) == i + k <= Len(s) /\ s[i + k] >= 128 /\ s[i + k] <= 191
       IN IF b < 128 THEN <<b>> \o Runes(s, i + 1)
          ELSE IF b >= 194 /\ b <= 223 /\ cont(1)
               THEN <<(b - 192) * 64 + (s[i + 1] - 128)>> \o Runes(s, i + 2)
          ELSE IF b >= 224 /\ b <= 239 /\ cont(1) /\ cont(2)
                  /\ (b = 224 => s[i + 1] >= 160) /\ (b = 237 => s[i + 1] <= 159)
               THEN <<(b - 224) * 4096 + (s[i + 1] - 128) * 64 + (s[i + 2] - 128)>> \o Runes(s, i + 3)
          ELSE IF b >= 240 /\ b <= 244 /\ cont(1) /\ cont(2) /\ cont(3)
                  /\ (b = 240 => s[i + 1] >= 144) /\ (b = 244 => s[i + 1] <= 143)
               THEN <<(b - 240) * 262144 + (s[i + 1] - 128) * 4096 + (s[i + 2] - 128) * 64 + (s[i + 3] - 128)>>
                    \o Runes(s, i + 4)
          ELSE <<65533>> \o Runes(s, i + 1)

(* A tag: name and options, separated by commas.  A name with a character  *)
(* which is neither a letter, a digit nor one of some punctuation is       *)
(* ignored.                                                                *)
RECURSIVE SplitAt(_, _, _)
SplitAt(s, i, cur) ==
  IF i > Len(s) THEN <<cur>>
  ELSE IF s[i] = cCOMMA THEN <<cur>> \o SplitAt(s, i + 1, <<>>)
  ELSE SplitAt(s, i + 1, Append(cur, s[i]))
Parts(tag) == SplitAt(tag, 1, <<>>)

\* letters and digits, among the characters the harness uses
IsLetterOrDigit(r) ==
  \/ r >= 48 /\ r <= 57
  \/ r >= 65 /\ r <= 90
  \/ r >= 97 /\ r <= 122
  \/ r \in {170, 181, 186}
  \/ (r >= 192 /\ r <= 591 /\ r # 215 /\ r # 247)
  \/ r >= 913 /\ r <= 974
  \/ r >= 1024 /\ r <= 1153
  \/ r >= 1632 /\ r <= 1641
  \/ r >= 19968 /\ r <= 40869
  \/ r \in {7838, 8486, 8490, 8491}
TagPunct == {33, 35, 36, 37, 38, 40, 41, 42, 43, 45, 46, 47, 58, 60, 61, 62, 63, 64, 91, 93, 94, 95, 123, 124, 125, 126, 32}
ValidName(s) == s # <<>> /\ LET rs == Runes(s, 1) IN \A i \in 1..Len(rs) : rs[i] \in TagPunct \/ IsLetterOrDigit(rs[i])

sOMITEMPTY == <<111, 109, 105, 116, 101, 109, 112, 116, 121>>
sSTRING == <<115, 116, 114, 105, 110, 103>>
HasOpt(parts, o) == \E i \in 2..Len(parts) : parts[i] = o

Decl(f) ==
  LET parts == Parts(f.tag) IN
  [gn |-> f.gn, exp |-> f.exp, anon |-> f.anon, tagged |-> f.tagged, ty |-> f.ty,
   skip |-> f.tagged /\ f.tag = <<cMINUS>>,
   tn |-> IF f.tagged /\ ValidName(parts[1]) THEN parts[1] ELSE <<>>,
   om |-> f.tagged /\ HasOpt(parts, sOMITEMPTY),
   str |-> f.tagged /\ HasOpt(parts, sSTRING)]
Decls(defs) == [d \in 1..Len(defs) |-> [i \in 1..Len(defs[d]) |-> Decl(defs[d][i])]]

------------------------------------------------------------------------------
\* type reached through at most one (unnamed) pointer
Deref(ty) == IF ty.t = "ptr" THEN ty.e ELSE ty
IsStructLike(ty) == Deref(ty).t = "struct"

\* the type below the codecs
RECURSIVE Under(_)
Under(ty) == IF ty.t = "disp" THEN Under(ty.nty) ELSE ty
Quotable(ty) == Under(Deref(ty)).t \in {"bool", "int", "float", "string", "number"}

\* does the declared field f take part at all (as a leaf or as an embedding)?
Considered(f, only) ==
  /\ ~ f.skip
  /\ f.exp \/ (f.anon /\ IsStructLike(f.ty))
  /\ ~ (only /\ ~ f.tagged /\ ~ f.anon)

\* an embedded struct whose fields are promoted
Promotes(f) == f.anon /\ f.tn = <<>> /\ IsStructLike(f.ty)

LeafName(f) == IF f.tn # <<>> THEN f.tn ELSE f.gn

Leaf(f, path, only) ==
  [n |-> LeafName(f), path |-> path, ty |-> f.ty, om |-> f.om,
   q |-> f.str /\ Quotable(f.ty), tagged |-> f.tn # <<>>]

RECURSIVE SeqLess(_, _, _)
SeqLess(a, b, i) ==
  IF i > Len(b) THEN FALSE
  ELSE IF i > Len(a) THEN TRUE
  ELSE IF a[i] # b[i] THEN a[i] < b[i]
  ELSE SeqLess(a, b, i + 1)
PathLess(a, b) == SeqLess(a, b, 1)

------------------------------------------------------------------------------
(* Breadth first exploration, level by level.                              *)
(* cur: sequence of [id, path]; cnt[id]: how many times the type occurs at *)
(* this level; seen: types explored at an earlier level.                   *)
CountOf(q, id) == Cardinality({i \in 1..Len(q) : q[i].id = id})

RECURSIVE LevelLeaves(_, _, _, _, _, _)
\* leaves of the entries cur[i..] where only the first entry of a type counts
LevelLeaves(defs, cur, i, seen, only, acc) ==
  IF i > Len(cur) THEN acc
  ELSE IF cur[i].id \in seen THEN LevelLeaves(defs, cur, i + 1, seen, only, acc)
  ELSE LET d == defs[cur[i].id]
           mine == SelectSeq([j \in 1..Len(d) |-> [f |-> d[j], j |-> j]],
                             LAMBDA x : Considered(x.f, only) /\ ~ Promotes(x.f))
           leaves == [k \in 1..Len(mine) |-> Leaf(mine[k].f, Append(cur[i].path, mine[k].j), only)]
           twice == CountOf(cur, cur[i].id) > 1
       IN LevelLeaves(defs, cur, i + 1, seen \cup {cur[i].id}, only,
            acc \o leaves \o (IF twice THEN leaves ELSE <<>>))

RECURSIVE LevelNext(_, _, _, _, _, _)
\* the embeddings found at this level, every occurrence kept
LevelNext(defs, cur, i, seen, only, acc) ==
  IF i > Len(cur) THEN acc
  ELSE IF cur[i].id \in seen THEN LevelNext(defs, cur, i + 1, seen, only, acc)
  ELSE LET d == defs[cur[i].id]
           mine == SelectSeq([j \in 1..Len(d) |-> [f |-> d[j], j |-> j]],
                             LAMBDA x : Considered(x.f, only) /\ Promotes(x.f))
           nx == [k \in 1..Len(mine) |-> [id |-> Deref(mine[k].f.ty).id, path |-> Append(cur[i].path, mine[k].j)]]
       IN LevelNext(defs, cur, i + 1, seen \cup {cur[i].id}, only, acc \o nx)

RECURSIVE Explore(_, _, _, _, _)
Explore(defs, cur, seen, only, acc) ==
  IF cur = <<>> THEN acc
  ELSE Explore(defs,
               LevelNext(defs, cur, 1, seen, only, <<>>),
               seen \cup {cur[i].id : i \in 1..Len(cur)},
               only,
               acc \o LevelLeaves(defs, cur, 1, seen, only, <<>>))

Candidates(defs, id, only) == Explore(defs, <<[id |-> id, path |-> <<>>]>>, {}, only, <<>>)

\* candidate i beats every other candidate of the same name
Dominant(cs, i) ==
  \A j \in 1..Len(cs) : j # i /\ cs[j].n = cs[i].n =>
     \/ Len(cs[i].path) < Len(cs[j].path)
     \/ Len(cs[i].path) = Len(cs[j].path) /\ cs[i].tagged /\ ~ cs[j].tagged

Fields(defs, id, only) ==
  LET cs == Candidates(defs, id, only)
      win == SelectSeq([i \in 1..Len(cs) |-> i], LAMBDA i : Dominant(cs, i))
      ws == [k \in 1..Len(win) |-> cs[win[k]]]
  IN SortSeq(ws, LAMBDA a, b : PathLess(a.path, b.path))

------------------------------------------------------------------------------
(* Declarative reading (Go's promotion rule with JSON tags), valid when no *)
(* struct type is embedded twice: used to cross-check Fields.              *)
RECURSIVE PathsFrom(_, _, _, _, _)
\* all leaves below type id, with the types on the way not repeated
PathsFrom(defs, id, path, above, only) ==
  LET d == defs[id]
      idx == {j \in 1..Len(d) : Considered(d[j], only)}
  IN {Leaf(d[j], Append(path, j), only) : j \in {j \in idx : ~ Promotes(d[j])}}
     \cup UNION {PathsFrom(defs, Deref(d[j].ty).id, Append(path, j), above \cup {id}, only) :
                  j \in {j \in idx : Promotes(d[j]) /\ Deref(d[j].ty).id \notin (above \cup {id})}}
DeclFields(defs, id, only) ==
  LET all == PathsFrom(defs, id, <<>>, {}, only)
      win == {x \in all : \A y \in all : y # x /\ y.n = x.n =>
                \/ Len(x.path) < Len(y.path)
                \/ Len(x.path) = Len(y.path) /\ x.tagged /\ ~ y.tagged}
  IN win

------------------------------------------------------------------------------
(* Matching an object key to a field: an exact match wins; otherwise,      *)
(* unless the configuration is case sensitive, the first field (in         *)
(* declaration order) whose name is equal under simple Unicode case        *)
(* folding.  Folding is given on code points by a table of orbits.         *)

\* representative of the folding orbit, for the code points the harness uses
Fold(r) ==
  CASE r >= 97 /\ r <= 122 -> r - 32
    [] r = 8490 -> 75                      \* Kelvin sign -> K
    [] r = 383 -> 83                       \* long s -> S
    [] r >= 224 /\ r <= 254 /\ r # 247 -> r - 32   \* Latin-1
    [] r = 8491 -> 197                     \* Angstrom sign -> A with ring
    [] r >= 945 /\ r <= 969 /\ r # 962 -> r - 32   \* Greek
    [] r = 962 -> 931                      \* final sigma
    [] r = 8486 -> 937                     \* Ohm sign -> Omega
    [] r = 181 -> 924                      \* micro sign -> Mu
    [] r = 7838 -> 223                     \* capital sharp s -> sharp s
    [] r >= 1072 /\ r <= 1103 -> r - 32    \* Cyrillic
    [] OTHER -> r
EqualFold(a, b) ==
  LET ra == Runes(a, 1) rb == Runes(b, 1) IN
  /\ Len(ra) = Len(rb)
  /\ \A i \in 1..Len(ra) : Fold(ra[i]) = Fold(rb[i])

\* index of the field selected by the key, 0 if none
MatchKey(fs, key, cs) ==
  LET ex == {i \in 1..Len(fs) : fs[i].n = key} IN
  IF ex # {} THEN CHOOSE i \in ex : TRUE
  ELSE IF cs THEN 0
  ELSE LET fo == {i \in 1..Len(fs) : EqualFold(fs[i].n, key)} IN
       IF fo = {} THEN 0 ELSE CHOOSE i \in fo : \A j \in fo : i <= j
=============================================================================
