package suite

import (
	"encoding/json"
	"fmt"
	"os"
	"testing"

	"verifh/core"
)

func TestJob(t *testing.T) {
	path := os.Getenv("VJOB")
	if path == "" {
		fmt.Println(core.Engines())
		t.Skip("no VJOB")
	}
	b, err := os.ReadFile(path)
	if err != nil {
		t.Fatal(err)
	}
	var j core.Job
	if err := json.Unmarshal(b, &j); err != nil {
		t.Fatal(err)
	}
	j.Out = os.Getenv("VOUT")
	core.RunJob(t, j)
}
