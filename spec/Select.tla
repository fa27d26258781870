-------------------------------- MODULE Select --------------------------------
(* Which files are scanned.  A world is a tree of named entries with ignore  *)
(* files in its directories.  Patterns are those of git: the last matching   *)
(* line of an ignore file decides, an ignore file nearer to the entry goes   *)
(* before one further up, and the kinds of ignore files have an order.       *)
EXTENDS Naturals, Sequences, FiniteSets
Ch(s, i) == SubSeq(s, i, i)
SetOf(l) == { l[i] : i \in 1..Len(l) }
Blank(c) == c = " " \/ c = "\t" \/ c = "\r"
Kinds == <<"custom", "ignore", "git", "exclude">>   \* .ludtwig-ignore, .ignore, .gitignore, .git/info/exclude
Extensions == {".twig", ".html", ".htm", ".ejs"}
EndsWith(s, t) == IF Len(t) > Len(s) THEN FALSE ELSE SubSeq(s, Len(s) - Len(t) + 1, Len(s)) = t
IsTemplate(name) == \E x \in Extensions : EndsWith(name, x)
IsHidden(name) == Ch(name, 1) = "."

(* patterns *)
RECURSIVE TrimRight(_)
TrimRight(s) == IF s = "" THEN s ELSE IF Blank(Ch(s, Len(s))) THEN TrimRight(SubSeq(s, 1, Len(s) - 1)) ELSE s
RECURSIVE Split(_, _, _)
Split(s, i, word) == IF i > Len(s) THEN <<word>> ELSE IF Ch(s, i) = "/" THEN <<word>> \o Split(s, i + 1, "") ELSE Split(s, i + 1, word \o Ch(s, i))
(* one name of a pattern as tokens                                           *)
RECURSIVE ClassEnd(_, _)
ClassEnd(s, i) == IF i > Len(s) THEN 0 ELSE IF Ch(s, i) = "]" THEN i ELSE ClassEnd(s, i + 1)
Token(t, c, neg) == [t |-> t, c |-> c, neg |-> neg]
Between(a, c, b) == \E alphabet \in {"0123456789", "abcdefghijklmnopqrstuvwxyz", "ABCDEFGHIJKLMNOPQRSTUVWXYZ"} :
                      \E i, j, k \in 1..Len(alphabet) : i <= j /\ j <= k /\ Ch(alphabet, i) = a /\ Ch(alphabet, j) = c /\ Ch(alphabet, k) = b
RECURSIVE InClass(_, _)
InClass(s, c) ==
  IF s = "" THEN FALSE
  ELSE IF Len(s) >= 3 /\ Ch(s, 2) = "-" THEN IF Between(Ch(s, 1), c, Ch(s, 3)) THEN TRUE ELSE InClass(SubSeq(s, 4, Len(s)), c)
  ELSE IF Ch(s, 1) = c THEN TRUE ELSE InClass(SubSeq(s, 2, Len(s)), c)
RECURSIVE Tokens(_, _)
Tokens(s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE LET c == Ch(s, i) IN
       IF c = "\\" /\ i < Len(s) THEN <<Token("is", Ch(s, i + 1), FALSE)>> \o Tokens(s, i + 2)
       ELSE IF c = "*" THEN <<Token("star", "", FALSE)>> \o Tokens(s, i + 1)
       ELSE IF c = "?" THEN <<Token("any", "", FALSE)>> \o Tokens(s, i + 1)
       ELSE LET e == IF c = "[" THEN ClassEnd(s, i + 2) ELSE 0 IN
            IF e > 0 THEN LET neg == Ch(s, i + 1) \in {"!", "^"} IN
                          <<Token("class", SubSeq(s, IF neg THEN i + 2 ELSE i + 1, e - 1), neg)>> \o Tokens(s, e + 1)
            ELSE <<Token("is", c, FALSE)>> \o Tokens(s, i + 1)
RECURSIVE NameMatches(_, _, _, _)
NameMatches(p, i, s, j) ==
  IF i > Len(p) THEN j > Len(s)
  ELSE IF p[i].t = "star" THEN IF NameMatches(p, i + 1, s, j) THEN TRUE ELSE IF j > Len(s) THEN FALSE ELSE NameMatches(p, i, s, j + 1)
  ELSE IF j > Len(s) THEN FALSE
  ELSE IF p[i].t = "is" /\ p[i].c # Ch(s, j) THEN FALSE
  ELSE IF p[i].t = "class" /\ InClass(p[i].c, Ch(s, j)) = p[i].neg THEN FALSE
  ELSE NameMatches(p, i + 1, s, j + 1)
(* a line of an ignore file                                                  *)
NoPattern == [none |-> TRUE, not |-> FALSE, anchored |-> FALSE, dirs |-> FALSE, names |-> <<>>]
Pattern(text) ==
  LET line == IF EndsWith(text, "\\ ") THEN text ELSE TrimRight(text) IN
  IF line = "" THEN NoPattern
  ELSE IF Ch(line, 1) = "#" THEN NoPattern
  ELSE LET escaped == Len(line) > 1 /\ SubSeq(line, 1, 2) \in {"\\!", "\\#"}
           not     == ~escaped /\ Ch(line, 1) = "!"
           rest    == IF escaped \/ not THEN SubSeq(line, 2, Len(line)) ELSE line
           front   == ~escaped /\ rest # "" /\ Ch(rest, 1) = "/"
           body    == IF front THEN SubSeq(rest, 2, Len(rest)) ELSE rest
           dirs    == EndsWith(body, "/")
           path    == Split(IF dirs THEN SubSeq(body, 1, Len(body) - 1) ELSE body, 1, "")
       IN [none |-> FALSE, not |-> not, anchored |-> front \/ Len(path) > 1, dirs |-> dirs,
           names |-> [i \in 1..Len(path) |-> IF path[i] = "**" THEN <<Token("dirs", "", FALSE)>> ELSE Tokens(path[i], 1)]]
IsDirs(name) == name = <<Token("dirs", "", FALSE)>>
(* the path e from its name j on against the names of a pattern from i on    *)
RECURSIVE PathMatches(_, _, _, _)
PathMatches(names, i, e, j) ==
  IF i > Len(names) THEN j > Len(e)
  ELSE IF IsDirs(names[i]) THEN
       IF i = Len(names) THEN j <= Len(e)
       ELSE IF PathMatches(names, i + 1, e, j) THEN TRUE ELSE IF j > Len(e) THEN FALSE ELSE PathMatches(names, i, e, j + 1)
  ELSE IF j > Len(e) THEN FALSE
  ELSE IF NameMatches(names[i], 1, e[j], 1) THEN PathMatches(names, i + 1, e, j + 1) ELSE FALSE
(* e: the path below the directory of the ignore file                        *)
Matches(p, e, isDir) ==
  IF p.none \/ (p.dirs /\ ~isDir) THEN FALSE
  ELSE IF p.anchored THEN PathMatches(p.names, 1, e, 1)
  ELSE IF IsDirs(p.names[1]) THEN TRUE ELSE NameMatches(p.names[1], 1, e[Len(e)], 1)
RECURSIVE LastWord(_, _, _, _)
LastWord(patterns, k, e, isDir) ==
  IF k = 0 THEN "none" ELSE IF Matches(patterns[k], e, isDir) THEN IF patterns[k].not THEN "keep" ELSE "ignore" ELSE LastWord(patterns, k - 1, e, isDir)
Patterns(lines) == [k \in 1..Len(lines) |-> Pattern(lines[k])]
Says(patterns, e, isDir) == LastWord(patterns, Len(patterns), e, isDir)

(* worlds *)
(* W.ignores: set of [dir, kind, patterns]; W.gits: directories with .git;   *)
(* W.cwd: working directory; paths are sequences of names below the root     *)
IsPrefixOf(a, b) == IF Len(a) > Len(b) THEN FALSE ELSE SubSeq(b, 1, Len(a)) = a
Below(e, n) == SubSeq(e, n + 1, Len(e))
FilesAt(W, dir, kind) == { f \in W.ignores : f.dir = dir /\ f.kind = kind }
Level(W, kind, e, isDir, n) ==
  LET s == FilesAt(W, SubSeq(e, 1, n), kind) IN IF s = {} THEN "none" ELSE Says((CHOOSE f \in s : TRUE).patterns, Below(e, n), isDir)
(* the innermost ignore file of that kind with an opinion, from level n to m *)
RECURSIVE Nearest(_, _, _, _, _, _)
Nearest(W, kind, e, isDir, n, m) ==
  LET w == Level(W, kind, e, isDir, n) IN IF w # "none" THEN w ELSE IF n = m THEN "none" ELSE Nearest(W, kind, e, isDir, n - 1, m)
(* rules of git end at the top of the repository and don't exist outside     *)
Tops(W, e) == { n \in 0..(Len(e) - 1) : SubSeq(e, 1, n) \in W.gits }
Top(W, e) == CHOOSE n \in Tops(W, e) : \A m \in Tops(W, e) : m <= n
OfKind(W, kind, e, isDir) ==
  IF kind \in {"git", "exclude"} THEN IF Tops(W, e) = {} THEN "none" ELSE Nearest(W, kind, e, isDir, Len(e) - 1, Top(W, e))
  ELSE Nearest(W, kind, e, isDir, Len(e) - 1, 0)
(* .ludtwig-ignore of the working directory, for files elsewhere             *)
Elsewhere(W, e, isDir) ==
  LET s == FilesAt(W, W.cwd, "custom") IN
  IF s = {} \/ IsPrefixOf(W.cwd, e) THEN "none"
  ELSE Says(SelectSeq((CHOOSE f \in s : TRUE).patterns, LAMBDA p : ~p.anchored), e, isDir)
(* what its patterns with slashes mean for those files is left open          *)
Open(W) == LET s == FilesAt(W, W.cwd, "custom") IN
           IF s = {} THEN {} ELSE IF \A p \in SetOf((CHOOSE f \in s : TRUE).patterns) : ~p.anchored THEN {} ELSE { f \in W.files : ~IsPrefixOf(W.cwd, f) }
RECURSIVE FirstWord(_, _, _, _)
FirstWord(W, k, e, isDir) ==
  IF k > Len(Kinds) THEN Elsewhere(W, e, isDir)
  ELSE LET w == OfKind(W, Kinds[k], e, isDir) IN IF w # "none" THEN w ELSE FirstWord(W, k + 1, e, isDir)
(* is this entry left out, when it is come across in its directory?          *)
LeftOut(W, e, isDir) ==
  LET w == FirstWord(W, 1, e, isDir) IN
  IF w = "ignore" THEN TRUE
  ELSE IF isDir THEN w = "none" /\ IsHidden(e[Len(e)])
  ELSE ~IsTemplate(e[Len(e)])
(* what is named is scanned; below a named directory, all that is not left   *)
(* out itself nor in a directory left out                                    *)
Named(W, a) == IF a \in W.files THEN {a}
               ELSE { f \in W.files : IF Len(f) > Len(a) /\ IsPrefixOf(a, f) THEN \A n \in (Len(a) + 1)..Len(f) : ~LeftOut(W, SubSeq(f, 1, n), n < Len(f)) ELSE FALSE }
Selected(W) == UNION { Named(W, a) : a \in W.args }
=============================================================================
