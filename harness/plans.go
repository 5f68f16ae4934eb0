package main

import "time"

type plan struct {
	seeds  int
	budget time.Duration
}

type propInfo struct {
	level  string
	rule   string
	assume []string
}

// plans gives the number of seeds of a quick check where it is not 400: as many
// as take about half a minute on 8 cores.
var plans = map[string]plan{
	"C01": {700, 120 * time.Second},
	"C02": {700, 120 * time.Second},
	"C03": {700, 120 * time.Second},
	"C04": {600, 120 * time.Second},
	"C07": {600, 120 * time.Second},
	"C08": {800, 120 * time.Second},
	"C20": {3000, 120 * time.Second},
	"C21": {1000, 120 * time.Second},
	"C25": {1000, 120 * time.Second},
	"C26": {20000, 120 * time.Second},
	"C27": {900, 120 * time.Second},
	"C29": {600, 120 * time.Second},
	"C30": {500, 120 * time.Second},
	"C31": {600, 120 * time.Second},
	"C32": {500, 120 * time.Second},
	"C35": {500, 120 * time.Second},
	"C33": {800, 120 * time.Second},
}
var infos = map[string]propInfo{}

func planOf(id, tier string) plan {
	p, ok := plans[id]
	if !ok {
		p = plan{400, 120 * time.Second}
	}
	if tier == "thorough" {
		p.seeds *= 400
		p.budget = 780 * time.Second
	}
	return p
}

func infoOf(id string) propInfo {
	i := infos[id]
	if i.level == "" {
		i.level = "exploration"
	}
	return i
}
