--------------------------- MODULE PythonShotsGen ---------------------------
(* Scripts for RunnerShots, for sessions of Python.                         *)
EXTENDS RunnerShotsGen
PyForms == <<"ll", "bc", "bcll", "bytes", "bcbytes", "ll", "bytes", "cli-ll", "cli-bc", "cli-bc">>
=============================================================================
