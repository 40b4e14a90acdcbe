// Replaced in a scratch copy by bin/check.py when it replays a counterexample.
