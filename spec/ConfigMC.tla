------------------------------- MODULE ConfigMC -------------------------------
(* The merge of whole documents, section by section and key by key, in the   *)
(* order in which the sources are read, for all documents over two sections  *)
(* with two keys: what comes out is what Config says about every value, and  *)
(* no step of the merge loses or changes a value that is not set again.      *)
EXTENDS Config, TLC
Sections == {"f", "t"}
Keys == {"a", "b"}
Vals(source) == {source}
None == "none"
(* a document: section -> absent, or key -> absent or the value of its source *)
SectionOf(source) == [Keys -> {None, source}]
Documents(source) == [Sections -> {[k \in Keys |-> None]} \cup SectionOf(source)]
Default == [s \in Sections |-> [k \in Keys |-> "default"]]
VARIABLES file, env, stage, merged
vars == <<file, env, stage, merged>>
Init == file \in Documents("file") /\ env \in Documents("env") /\ stage = <<"default", "file", "env">> /\ merged = [s \in Sections |-> [k \in Keys |-> None]]
Doc(source) == CASE source = "default" -> Default [] source = "file" -> file [] source = "env" -> env
MergeSection(a, b) == [k \in Keys |-> IF b[k] = None THEN a[k] ELSE b[k]]
Merge == /\ stage # <<>>
         /\ merged' = [s \in Sections |-> MergeSection(merged[s], Doc(Head(stage))[s])]
         /\ stage' = Tail(stage) /\ UNCHANGED <<file, env>>
Spec == Init /\ [][Merge]_vars /\ WF_vars(Merge)
Opts == Sections \X Keys
Layer(d) == LET set == { o \in Opts : d[o[1]][o[2]] # None } IN [o \in set |-> d[o[1]][o[2]]]
Exact == stage = <<>> => \A o \in Opts : merged[o[1]][o[2]] = Effective(o, Layer(Default), Layer(file), Layer(env))
(* each value depends on its own key only                                    *)
Independent == stage = <<>> => \A o \in Opts : merged[o[1]][o[2]] \in {"default", file[o[1]][o[2]], env[o[1]][o[2]]}
NothingLost == [][\A o \in Opts : merged[o[1]][o[2]] # None => merged'[o[1]][o[2]] # None]_vars
Ends == <>(stage = <<>>)
=============================================================================
