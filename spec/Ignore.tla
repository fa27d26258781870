-------------------------------- MODULE Ignore --------------------------------
(* Ignore directives.  A directive concerns the element that follows it with *)
(* all that is inside, for the rules it lists (all rules if it lists none);  *)
(* a file directive at the top level concerns the whole file.                *)
EXTENDS Rules

(* rules whose findings point into the very element that they are about     *)
FarRules == {"indentation", "twig-block-line-breaks", "twig-block-duplicate", "html-duplicate-id", "ludtwig-ignore-file-not-on-top"}
Directives(T) == { n \in 1..Len(T) : T[n].k = "LUDTWIG_DIRECTIVE_IGNORE" /\ T[n].w # 0 }
FileDirectives(T) == { n \in 1..Len(T) : T[n].k = "LUDTWIG_DIRECTIVE_FILE_IGNORE" /\ T[n].p = 1 }
OffInFile(T) == UNION { ListedRules(T, n) : n \in FileDirectives(T) }
Concerns(T, n, rule) == LET L == ListedRules(T, n) IN "*" \in L \/ rule \in L
(* is this finding of a file without directives suppressed by those in T?   *)
InFile(T, r) == r.rule \in OffInFile(T) \/ "*" \in OffInFile(T)
Covers(T, n, r) == LET w == T[n].w IN Len(r.prim) > 0 /\ T[w].s <= r.prim[1][1] /\ r.prim[1][2] <= T[w].e
Suppressed(T, r) == InFile(T, r) \/ \E n \in Directives(T) : Concerns(T, n, r.rule) /\ Covers(T, n, r)

(* a directive that isn't well-formed itself (something in it that is no     *)
(* name of a rule, or no end) is a syntax error and not a comment            *)
AnyDirective(T) == { n \in 1..Len(T) : T[n].k \in {"LUDTWIG_DIRECTIVE_IGNORE", "LUDTWIG_DIRECTIVE_FILE_IGNORE"} }
Ended(T, n) == \E i \in 1..Len(T[n].c) : T[T[n].c[i]].k \in {"TK_HASHTAG_CLOSE_CURLY", "TK_MINUS_HASHTAG_CLOSE_CURLY", "TK_TILDE_HASHTAG_CLOSE_CURLY", "TK_MINUS_MINUS_GREATER_THAN"}
Clean(T, n) == ~ \E m \in (n + 1)..Len(T) : T[m].k = "ERROR" /\ T[m].s >= T[n].s /\ T[m].e <= T[n].e
Malformed(T) == \E n \in AnyDirective(T) : ~Ended(T, n) \/ ~Clean(T, n)

Keep(l, P(_)) == SelectSeq(l, P)
TimesIn(r, l) == Cardinality({ i \in 1..Len(l) : l[i] = r })
MissingIn(a, b) == { i \in 1..Len(a) : TimesIn(a[i], a) > TimesIn(a[i], b) }
(* "" or what is wrong with the findings `got` of a file with tree T, whose *)
(* findings would be `all` if its directives were plain comments            *)
DirectiveFault(T, all, got) ==
  LET near(r) == r.rule \notin FarRules
      want == Keep(all, LAMBDA r : near(r) /\ ~Suppressed(T, r))
      have == Keep(got, near)
      gone == MissingIn(want, have)
      more == MissingIn(have, want)
      far  == { i \in 1..Len(got) : InFile(T, got[i]) }
  IN IF far # {} THEN "a finding of a rule that is off for the whole file: " \o got[CHOOSE i \in far : TRUE].rule
     ELSE IF gone # {} THEN "a directive suppresses a finding outside of its element: " \o want[CHOOSE i \in gone : TRUE].rule
     ELSE IF more # {} THEN "a finding in an ignored element: " \o have[CHOOSE i \in more : TRUE].rule
     ELSE ""
=============================================================================
