------------------------------- MODULE SelectMC -------------------------------
(* The parallel walk: workers take directories from a common stack, read the *)
(* ignore files there on top of those of the directories above, and put the  *)
(* entries that are not left out on the stack or hand them out as files.     *)
(* For every small world and every schedule the files handed out are those   *)
(* of Select; overlapping arguments hand out a file once.                    *)
EXTENDS Select, TLC
CONSTANTS Workers, Size
Tree == { <<"a">>, <<"a", "b">>, <<".h">> }
AllFiles == { <<"x.twig">>, <<"a", "x.twig">>, <<"a", "y.html">>, <<"a", "b", "x.twig">>, <<"a", "b", "n.txt">>, <<".h", "x.twig">> }
Lines == IF Size = 3 THEN { <<>>, <<"x.twig">>, <<"/x.twig">>, <<"b/">>, <<"a/*">>, <<"*", "!a">>, <<"!*">>, <<"a/**/x.twig">>, <<"!.h">> }
         ELSE IF Size = 2 THEN { <<>>, <<"/a/x.twig">>, <<"b/", "!x.twig">>, <<"!*">> } ELSE { <<>>, <<"b/">> }
ArgSets == IF Size = 3 THEN { {<<>>}, {<<"a">>}, {<<"a">>, <<>>}, {<<"a", "b">>, <<"a", "x.twig">>}, {<<".h">>, <<"a", "b", "n.txt">>} }
           ELSE { {<<"a">>, <<>>}, {<<"a", "b">>, <<"a", "x.twig">>, <<".h">>} }
VARIABLES top, below, dotgit, args, want, stack, at, out
vars == <<top, below, dotgit, args, want, stack, at, out>>
Parsed == [l \in Lines |-> Patterns(l)]
(* a .ludtwig-ignore and a .gitignore at the top, one in a                   *)
W == [files |-> AllFiles, args |-> args, gits |-> dotgit, cwd |-> <<>>,
      ignores |-> { [dir |-> <<>>, kind |-> "custom", patterns |-> Parsed[top[1]]], [dir |-> <<>>, kind |-> "git", patterns |-> Parsed[top[2]]],
                    [dir |-> <<"a">>, kind |-> "custom", patterns |-> Parsed[below]] }]
Init == /\ top \in Lines \X Lines /\ below \in Lines /\ dotgit \in (IF Size = 1 THEN { {<<"a">>} } ELSE { {}, {<<>>}, {<<"a">>} }) /\ args \in ArgSets /\ want = Selected(W)
        /\ stack = args /\ at = [w \in Workers |-> [dir |-> <<"none">>, chain |-> <<>>, left |-> {}]] /\ out = <<>>
Free(w) == at[w].dir = <<"none">>
ChainOf(d) == [n \in 1..(Len(d) + 1) |-> SubSeq(d, 1, n - 1)]   \* the directories whose ignore files are read
ChildrenOf(d) == { e \in Tree \cup AllFiles : Len(e) = Len(d) + 1 /\ SubSeq(e, 1, Len(d)) = d }
InChain(s, x) == \E i \in 1..Len(s) : s[i] = x
Out(f) == out' = IF InChain(out, f) THEN out ELSE Append(out, f)
Take(w) ==
  /\ Free(w) /\ \E e \in stack :
       /\ stack' = stack \ {e}
       /\ IF e \in AllFiles THEN Out(e) /\ UNCHANGED at
          ELSE at' = [at EXCEPT ![w] = [dir |-> e, chain |-> ChainOf(e), left |-> ChildrenOf(e)]] /\ UNCHANGED out
  /\ UNCHANGED <<top, below, dotgit, args, want, want>>
(* the decision of the walk, from the chain of directories read so far       *)
RECURSIVE Climb(_, _, _, _, _)
Climb(chain, k, kind, e, isDir) ==
  IF k = 0 THEN "none"
  ELSE LET s == { f \in W.ignores : f.dir = chain[k] /\ f.kind = kind }
           w == IF s = {} THEN "none" ELSE Says((CHOOSE f \in s : TRUE).patterns, Below(e, k - 1), isDir)
       IN IF w # "none" THEN w
          ELSE IF kind = "git" /\ chain[k] \in W.gits THEN "none"
          ELSE Climb(chain, k - 1, kind, e, isDir)
Word(chain, e, isDir) ==
  LET c == Climb(chain, Len(chain), "custom", e, isDir)
      inGit == \E k \in 1..Len(chain) : chain[k] \in W.gits
  IN IF c # "none" THEN c ELSE IF inGit THEN Climb(chain, Len(chain), "git", e, isDir) ELSE "none"
Skip(chain, e, isDir) ==
  LET w == Word(chain, e, isDir) IN
  IF w = "ignore" THEN TRUE ELSE IF isDir THEN w = "none" /\ IsHidden(e[Len(e)]) ELSE ~IsTemplate(e[Len(e)])
Read(w) ==
  /\ ~Free(w) /\ at[w].left # {}
  /\ \E e \in at[w].left :
       /\ e = CHOOSE x \in at[w].left : TRUE
       /\ at' = [at EXCEPT ![w].left = @ \ {e}]
       /\ IF Skip(at[w].chain, e, e \in Tree) THEN UNCHANGED stack ELSE stack' = stack \cup {e}
  /\ UNCHANGED <<top, below, dotgit, args, want, out>>
Leave(w) == /\ ~Free(w) /\ at[w].left = {} /\ at' = [at EXCEPT ![w].dir = <<"none">>, ![w].chain = <<>>] /\ UNCHANGED <<top, below, dotgit, args, want, stack, out>>
Next == \E w \in Workers : Take(w) \/ Read(w) \/ Leave(w)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
OutSet == { out[i] : i \in 1..Len(out) }
Over == stack = {} /\ \A w \in Workers : Free(w)
TypeOK == /\ OutSet \subseteq AllFiles /\ stack \subseteq (Tree \cup AllFiles \cup args) /\ \A w \in Workers : at[w].left \subseteq (Tree \cup AllFiles)
OnlySelected == OutSet \subseteq want
Once == Cardinality(OutSet) = Len(out)
AllSelected == Over => OutSet = want
(* what is named is always scanned, whatever the ignore files say            *)
NamedAlways == Over => \A f \in AllFiles : f \in args => f \in OutSet
(* without ignore files, everything but what is hidden or no template        *)
Plain == (top = <<<<>>, <<>>>> /\ below = <<>> /\ args = {<<>>}) => want = { f \in AllFiles : IsTemplate(f[Len(f)]) /\ f[1] # ".h" }
Ends == <>Over
=============================================================================
