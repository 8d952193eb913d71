// replay runs harnesses natively on given inputs.
package main

import (
	"encoding/json"
	"fmt"
	"os"

	"gostverif/h"
	"gostverif/nd"
)

type job struct {
	Harness string            `json:"harness"`
	Inputs  map[string]string `json:"inputs"`
	Tier    string            `json:"tier"`
}

func run(j job) {
	defer func() {
		r := recover()
		if r == nil {
			fmt.Println("REPLAY-DONE")
			return
		}
		if s, ok := r.(nd.Stop); ok {
			fmt.Printf("REPLAY-%s %s\n", s.Kind, s.Msg)
			return
		}
		fmt.Printf("REPLAY-PANIC %v\n", r)
	}()
	nd.Reset(j.Inputs, j.Tier)
	f := h.Registry[j.Harness]
	if f == nil {
		fmt.Println("REPLAY-MISSING")
		return
	}
	f()
}

func main() {
	b, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	var jobs []job
	if err := json.Unmarshal(b, &jobs); err != nil {
		panic(err)
	}
	for i, j := range jobs {
		fmt.Printf("REPLAY-JOB %d\n", i)
		run(j)
	}
}
