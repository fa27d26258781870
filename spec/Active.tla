-------------------------------- MODULE Active --------------------------------
(* Which rules run.                                                         *)
EXTENDS Naturals, Sequences, FiniteSets

Defined == {"ludtwig-ignore-file-not-on-top", "whitespace-between-line-breaks", "line-ending", "indentation", "twig-block-line-breaks",
            "twig-block-name-snake-case", "html-attribute-name-kebab-case", "twig-logic-and", "twig-logic-or", "twig-string-quotation",
            "html-string-quotation", "twig-hash-key-no-quotes", "twig-prefer-shopware-extends", "twig-use-is-same-as", "twig-use-is-not-same-as",
            "twig-block-duplicate", "twig-json-encode-escape-js", "html-duplicate-id", "twig-variable-definition-naming", "twig-valid-filter",
            "twig-valid-test", "twig-valid-function"}
SetOf(l) == { l[i] : i \in 1..Len(l) }
Allowed(list) == SetOf(list) \subseteq Defined

Of(l, R) == SelectSeq(l, LAMBDA r : r.rule = R)
TimesIn(r, l) == Cardinality({ i \in 1..Len(l) : l[i] = r })
SameBag(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : TimesIn(a[i], a) = TimesIn(a[i], b)
(* the findings of a run with these rules listed, given what each of them   *)
(* finds alone                                                              *)
SubsetFault(list, alone, got) ==
  LET other == { i \in 1..Len(got) : got[i].rule \notin SetOf(list) }
      bad == { R \in SetOf(list) : ~SameBag(Of(got, R), alone[R]) }
  IN IF other # {} THEN "a rule reports something although it is not active: " \o got[CHOOSE i \in other : TRUE].rule
     ELSE IF bad # {} THEN "a rule reports something else than alone: " \o (CHOOSE R \in bad : TRUE)
     ELSE ""
AloneFault(R, got) == IF \E i \in 1..Len(got) : got[i].rule # R THEN "a rule reports something although it is not active" ELSE ""
(* a run with a rule list that is not allowed                               *)
RefusalFault(list, rc, touched, changed) ==
  IF Allowed(list) THEN (IF rc \notin {0, 1} \/ touched = 0 THEN "existing rules are refused" ELSE "")
  ELSE IF rc # 1 THEN "a rule that doesn't exist is not refused with exit code 1"
  ELSE IF touched > 0 THEN "files are read although a rule doesn't exist"
  ELSE IF changed THEN "files are changed although a rule doesn't exist"
  ELSE ""
=============================================================================
