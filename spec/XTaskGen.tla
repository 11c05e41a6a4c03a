------------------------------ MODULE XTaskGen -------------------------------
(* All ways in which a task can be requested and its programs can behave,    *)
(* for the real program to be run in each of them; and the reachable states  *)
(* of the model for each of these, which are few.                            *)
EXTENDS XTask, FiniteSets, TLC

CONSTANTS TaskArgs, FormatArgs, Trees

VARIABLE plan   \* how the external programs behave: <<tests, probe, report>> succeed?

genVars == <<taskVars, plan>>

TreeOf(k) ==
    CASE k = 0 -> {<<"src", "main", "rs">>}
      [] k = 1 -> {<<"src", "main", "rs">>, <<"", "a", "profraw">>, <<"sub/deep", "b", "profraw">>,
                   <<"", "c", "profdata">>, <<"sub", "d.profraw", "bak">>}
      [] OTHER -> {<<"src", "main", "rs">>, <<"ro", "stuck", "profraw">>, <<"", "a", "profraw">>}

NewProfile == {<<"", "cargo-test-1", "profraw">>}

GenInit ==
    /\ TaskInit
    /\ plan \in [tests : BOOLEAN, probe : BOOLEAN, report : BOOLEAN, missing : BOOLEAN, tree : Trees]

Begin ==
    /\ status = "ok" /\ task = "none" /\ stage = "start" /\ files = {}
    /\ \E t \in TaskArgs, f \in FormatArgs : Start(t, f, TreeOf(plan.tree), plan.tree = 2)
    /\ UNCHANGED plan

GenNext ==
    \/ Begin
    \/ /\ UNCHANGED plan
       /\ \/ stage = "start" /\ RunTests(plan.tests, NewProfile)
          \/ /\ ~plan.missing
             /\ Report(plan.probe /\ plan.report, FormatOf(format)[1],
                       <<"coverage", "tests", FormatOf(format)[2]>>, Profiles(files))
          \/ \E ok \in BOOLEAN :
               \E F \in {files, files \ Profiles(files),
                         files \ (Profiles(files) \ {<<"ro", "stuck", "profraw">>})} :
                 End(ok, F, plan.missing)
GenSpec == GenInit /\ [][GenNext]_genVars
GenView == genVars

\* Every request, once
Emit == IF Begin
        THEN PrintT("E|" \o task' \o "|" \o format' \o "|"
                    \o ToString(<<plan.tests, plan.probe, plan.report, plan.missing, plan.tree>>) \o "|x")
        ELSE TRUE

\* Every run comes to an end: some end is possible once nothing else is
Ends == (status = "running" /\ ~ENABLED GenNext) => FALSE
=============================================================================
