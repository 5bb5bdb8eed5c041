"""Writes MANIFEST.json from the table below."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DIFF = "online differential monitor"
T = {
 "C01": ("run-time differential monitoring against encoding/json over generated types and values", "Explored: thousands of generated types per run and random values of them; trusts encoding/json as the oracle."),
 "C02": ("run-time output monitor: an independent JSON scanner over every output under random options", "Explored only; every output of the run is scanned. Trusts the scanner in harness/ref.go and encoding/json.Valid."),
 "C03": ("run-time monitoring of decoded members against a field-selection model and encoding/json", "Explored over generated embedding graphs and layouts; trusts encoding/json's field rules and the model in harness/ref.go."),
 "C04": ("run-time monitor comparing the four entry points over guarded destination buffers", "Explored over random buffers, capacities and values, each with canary bytes around the destination."),
 "C05": ("ownership monitor: canaries and snapshots of every returned slice across later calls, plus the race detector", "Explored histories; a result that is written later is seen when it is re-read or, under -race, when both accesses are made."),
 "C06": ("guard-page arenas, AddressSanitizer, clobber-free GC and checkptr under hostile layouts", "Explored; reads outside a value fault because the value ends or begins at an unmapped page, and writes are seen by read-only pages."),
 "C07": ("history monitor: the same call compared before and after random histories, orders and processes", "Explored histories up to a few hundred calls, with fault points in them."),
 "C08": ("race detector and schedule perturbation at hook points, results compared with sequential ones", "Explored schedules; delays injected at the cache build and publish points; deadlock watched by a watchdog."),
 "C09": ("run-time monitor decoding every map output and comparing with the entries", "Explored; trusts the model of key text and order in harness/ref.go."),
 "C10": ("offline checker over recorded histories of a sync.Map, plus sequential comparison and the race detector", "Explored schedules; a pair reported must have been stored at some moment of the call."),
 "C11": ("call-log monitor: every marshaler call recorded and compared with the expected sequence", "Explored over all subsets of the interfaces on generated types; the expected calls come from the model."),
 "C12": ("run-time comparison of fragments with encoding/json's Valid and Compact", "Explored over generated and mutated fragments."),
 "C13": ("fault injection at every position with a monitor of errors and returned slices", "Explored; failing elements are planted at random positions of random values."),
 "C14": ("run-time comparison with Time.Format and Unix over instants, zones and layouts", "Explored over millions of instants including every boundary the code distinguishes."),
 "C15": ("run-time comparison with Duration.String and arithmetic", "Explored over millions of durations including every unit boundary."),
 "C16": ("run-time comparison with an independent escaper and decoding back", "Explored over every two-byte string, blocks of runes over all planes, broken sequences and random strings, at many offsets."),
 "C17": ("run-time comparison with strconv and round trip", "Explored over windows covering the 8 and 16 bit integers and millions of random wider numbers and floats."),
 "C18": ("run-time comparison with a filtering model on generated structs", "Explored; trusts the model."),
 "C19": ("run-time comparison with an omission model on generated structs", "Explored; trusts the model."),
 "C20": ("run-time comparison with a model of byte sequence and nil options", "Explored; trusts the model and encoding/base64."),
 "C21": ("run-time metamorphic monitoring of option sets on generated values", "Explored over random subsets and orders of the options."),
 "C22": ("resource monitor: deadlines, stack and memory limits over deep, shared, cyclic and panicking values", "Explored; a call that does not end is judged by CPU time, so machine load does not matter."),
 "C24": ("run-time monitor of the live heap and the goroutines over thousands of calls: a growth that persists while the number of calls doubles six times is a violation", "Explored over random mixes of calls over fixed types."),
 "C23": ("run-time monitor of the built tool: output file against tables computed independently", "Explored over random inputs and flags."),
}
import subprocess
hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^verif:"], stdout=subprocess.PIPE, text=True).stdout.split()
m = {
 "version": 1,
 "setup_cmd": "sh setup.sh",
 "hooks": {"guard": "verif", "enable": "go build -tags verif", "source_commits": hook},
 "checks": [{"property": k, "quick_cmd": "./check %s" % k, "thorough_cmd": "./check %s --tier thorough" % k, "technique": t, "level": "exploration", "level_note": n} for k, (t, n) in T.items()],
 "not_applicable": [],
 "notes": "Every check generates Go types from its seed, builds a harness with /repo's working tree through an overlay, runs it in several processes and judges every call with monitors. See DESIGN.md.",
}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
