package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"log"
	"math/rand"
	"os"
)

// S is what a scenario gets to work with.
type S struct {
	rng      *rand.Rand
	thorough bool
	plan     []json.RawMessage // schedules generated from the specification
	keys     *keyTab
	pool     map[int][]byte // values of the map being looked at
}

// q chooses by tier.
func (s *S) q(quick, thorough int) int {
	if s.thorough {
		return thorough
	}
	return quick
}

type keyTab struct {
	Pairs   map[string][2]string `json:"pairs"`
	Base    string               `json:"base"`
	Cluster map[string]string    `json:"cluster"`
	Triples [][]string           `json:"triples"`
}

var keysFile string

var scenarios = map[string]func(*S){}

func main() {
	scen := flag.String("scen", "", "scenario")
	seed := flag.Int64("seed", 1, "seed")
	tier := flag.String("tier", "quick", "quick or thorough")
	plan := flag.String("plan", "", "file of schedules, one JSON document per line")
	keys := flag.String("keys", "keys.json", "mined keys")
	flag.StringVar(&outDir, "out", "", "directory for the traces")
	flag.StringVar(&scratch, "scratch", "", "directory for databases")
	flag.Parse()
	log.SetOutput(io.Discard)
	keysFile = *keys
	f := scenarios[*scen]
	if f == nil {
		must(fmt.Errorf("no scenario %q", *scen))
	}
	s := &S{rng: rand.New(rand.NewSource(*seed)), thorough: *tier == "thorough", keys: &keyTab{}}
	b, err := os.ReadFile(*keys)
	must(err)
	must(json.Unmarshal(b, s.keys))
	if *plan != "" {
		pf, err := os.Open(*plan)
		must(err)
		d := json.NewDecoder(pf)
		for {
			var m json.RawMessage
			if err := d.Decode(&m); err == io.EOF {
				break
			} else {
				must(err)
			}
			s.plan = append(s.plan, m)
		}
		stats["schedules"] = len(s.plan)
	}
	f(s)
	writeMeta(nil)
}

// fork gives a scenario its own random numbers, for use at the same time as others.
func (s *S) fork() *S {
	c := *s
	c.rng = rand.New(rand.NewSource(s.rng.Int63()))
	c.pool = nil
	return &c
}
