--------------------------------- MODULE Told ---------------------------------
(* What the program tells about the configuration it uses: which file was    *)
(* read, the environment variables that replace values, whether the          *)
(* configuration is one of another version, and with --verbose all values.   *)
EXTENDS Config
(* file: the configuration file is there; mentions, empty: what is in it     *)
Outdated(own, default, file, env, R) ==
  Effective("version", default, file, env).v # own \/ (R.there /\ ~R.empty /\ ~R.mentions)
(* all texts, numbers and truth values of the values in effect               *)
RECURSIVE Concat(_, _)
Concat(l, i) == IF i > Len(l) THEN <<>> ELSE l[i] \o Concat(l, i + 1)
Texts(x) == IF x.t = "list" THEN [i \in 1..Len(x.items) |-> x.items[i].v] ELSE <<x.v>>
ListOrder == <<"general.active-rules", "twig.valid-filters", "twig.valid-tests", "twig.valid-functions">>
TextsInEffect(effect) == Concat([i \in 1..4 |-> Texts(effect[ListOrder[i]])], 1) \o Texts(effect["version"])
TimesIn(x, l) == Cardinality({ i \in 1..Len(l) : l[i] = x })
SameBag(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : TimesIn(a[i], a) = TimesIn(a[i], b)
Count(f(_), S) == Cardinality({ x \in S : f(x) })
=============================================================================
