package main

// Properties of functions that depend on nothing but their arguments get one more phase: histories of calls and
// calls at the same time.
var callGroups = []string{"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C29", "C30", "C31", "C33", "C34", "C35"}

// The depth of the histories, quick and thorough, as in harness/calls.
var callDepth = map[string]string{
	"C01": "3 (4)", "C02": "3 (4)", "C06": "3 (4)", "C12": "3 (4)", "C13": "3 (4)", "C14": "3 (4)", "C16": "3 (4)", "C29": "3 (4)", "C31": "3 (4)",
}

func init() {
	for _, id := range callGroups {
		s := specs[id]
		s.phases = append(append([]phase{}, s.phases...), phase{name: "calls-" + id, dir: "calls", race: true})
		s.rule += " Then every sequence of calls from a list, with results kept or overwritten by the caller, and every pair of them at the same time under the race detector; each result must be the one the call has in a process of its own, when it is returned and at the end."
		d := callDepth[id]
		if d == "" {
			d = "2 (3)"
		}
		s.bounds += "; histories of " + d + " calls, pairs of calls at once"
		specs[id] = s
	}
}
