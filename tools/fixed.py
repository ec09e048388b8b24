"""Rewrites the "fixed" list of known_findings.json from (subject, property, what) and /repo's log."""
import json, subprocess
F = [
 ("fix: inject nothing for an invalid span context", "P01", "a span context with a valid trace id and a zero or oversized span id was injected (also P04, P05)"),
 ("fix: refuse a traceparent header with a trailing newline", "P01", "a traceparent followed by a newline was accepted"),
 ("fix: keep a full trace state when updating a key it does not have", "P02", "updating a new key of a 32-entry trace state returned an empty one"),
 ("fix: keep encoded whitespace of baggage names and values", "P03", "leading and trailing whitespace of a baggage value was lost in the round trip"),
 ("fix: refuse B3 ids that are zero or not hexadecimal", "P04", "all-zero ids put an invalid span context in the context; non-ASCII digits were accepted"),
 ("fix: refuse Jaeger ids that are negative or too large", "P05", "ids such as -1 or of more than 32 digits put an invalid span context in the context"),
 ("fix: extract Jaeger baggage as it was injected", "P05", "keys containing the prefix, values with outer whitespace were changed; a header with an empty value list raised"),
]
import sys, os
extra = os.path.join(os.path.dirname(__file__), "fixed_more.json")
if os.path.exists(extra):
    F += [tuple(x) for x in json.load(open(extra))]
log = dict(reversed(l.split(" ", 1)) for l in subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s"], text=True).splitlines())
p = os.path.join(os.path.dirname(__file__), "..", "known_findings.json")
k = json.load(open(p))
k["fixed"] = [f"fixed: property={pid} {log[s]} {what}" for s, pid, what in F]
json.dump(k, open(p, "w"), indent=1)
