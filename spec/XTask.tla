-------------------------------- MODULE XTask --------------------------------
(***************************************************************************)
(* The maintenance tasks.  The coverage task consists of three stages:     *)
(* running the instrumented tests, writing the report, and cleaning up.    *)
(* The first two run external programs, which may fail.                    *)
(*                                                                         *)
(* A file is <<directory, stem, extension>>; raw profiles are those with   *)
(* the extension "profraw".                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences

VARIABLES task,     \* the requested task, "none" if there was no argument
          format,   \* the requested report format, "none" if there was no argument
          stage,    \* what has happened: "start", "tested", "reported", "cleaned", "failed"
          files,    \* the files below the current directory
          stuck,    \* is there a raw profile that cannot be deleted?
          status    \* "running", "ok" or "failed"

taskVars == <<task, format, stage, files, stuck, status>>

Tests  == {"cover", "test_instr"}
Reports == {"cover", "cover_only"}
Cleans == {"cover", "clean"}

\* The format of the report and the extension of its file
FormatOf(f) ==
    CASE f \in {"xml", "cobertura"} -> <<"cobertura", "xml">>
      [] f = "lcov"                 -> <<"lcov", "lcov">>
      [] f \in {"json", "covdir"}   -> <<"covdir", "json">>
      [] OTHER                      -> <<"cobertura", "xml">>

IsProfile(f) == f[3] = "profraw"
Profiles(F)  == {f \in F : IsProfile(f)}

TaskInit == task = "none" /\ format = "none" /\ stage = "start" /\ files = {} /\ stuck = FALSE
            /\ status = "ok"

Start(t, f, F, s) ==
    /\ status # "running"
    /\ task' = t /\ format' = f /\ files' = F /\ stuck' = s
    /\ stage' = "start" /\ status' = "running"

\* The tests are run, leaving behind some raw profiles
RunTests(ok, new) ==
    /\ status = "running"
    /\ task \in Tests
    /\ stage = "start"
    /\ \A f \in new : IsProfile(f)
    /\ files' = files \cup new
    /\ stage' = IF ok THEN "tested" ELSE "failed"
    /\ UNCHANGED <<task, format, stuck, status>>

ReadyToReport == stage = IF task = "cover" THEN "tested" ELSE "start"

\* The reporting program is tried out
Probe(ok) ==
    /\ status = "running"
    /\ task \in Reports
    /\ ReadyToReport
    /\ stage' = IF ok THEN stage ELSE "failed"
    /\ UNCHANGED <<task, format, files, stuck, status>>

\* The report is written, from all profiles there are
Report(ok, fmt, file, seen) ==
    /\ status = "running"
    /\ task \in Reports
    /\ ReadyToReport
    /\ fmt = FormatOf(format)[1]
    /\ file = <<"coverage", "tests", FormatOf(format)[2]>>
    /\ seen = Profiles(files)
    /\ files' = IF ok THEN files \cup {file} ELSE files
    /\ stage' = IF ok THEN "reported" ELSE "failed"
    /\ UNCHANGED <<task, format, stuck, status>>

ReadyToClean == task \in Cleans /\ stage = IF task = "cover" THEN "reported" ELSE "start"

\* All is done: what must be left, and how the task must have ended.  If the report
\* program could not be started at all, nobody saw an attempt.
Finished ==
    \/ task \notin (Tests \cup Reports \cup Cleans)
    \/ task = "test_instr" /\ stage = "tested"
    \/ task = "cover_only" /\ stage = "reported"
    \/ ReadyToClean

End(ok, F, toolMissing) ==
    /\ status = "running"
    /\ LET missing == toolMissing /\ task \in Reports /\ ReadyToReport
           good    == ~missing /\ Finished /\ ~(ReadyToClean /\ stuck)
       IN  /\ missing \/ Finished \/ stage = "failed"
           /\ ok <=> good
           /\ IF ReadyToClean
              THEN IF stuck THEN /\ F \subseteq files
                                 /\ (files \ Profiles(files)) \subseteq F
                   ELSE F = files \ Profiles(files)
              ELSE F = files
    /\ status' = IF ok THEN "ok" ELSE "failed"
    /\ files' = F
    /\ stage' = IF ReadyToClean THEN "cleaned" ELSE stage
    /\ UNCHANGED <<task, format, stuck>>

-----------------------------------------------------------------------------
\* Only raw profiles are ever removed, and only by the tasks that clean up
OnlyProfilesVanish ==
    [][status = "running" => \A f \in files \ files' : IsProfile(f) /\ task \in Cleans]_taskVars
\* Nothing is cleaned up unless everything before has succeeded
CleanIsLast ==
    [][(status = "running" /\ stage' = "cleaned" /\ task = "cover") => stage = "reported"]_taskVars
\* A failed stage is never followed by a successful end
FailureIsReported ==
    [][(stage = "failed" /\ status = "running") => status' # "ok"]_taskVars
=============================================================================
