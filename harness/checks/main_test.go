// Package checks holds the executable properties. It is compiled into one test
// binary, which check.py runs for one property at a time.
package checks

import (
	"encoding/json"
	"fmt"
	"io"
	"log"
	"os"
	"testing"

	"verif/harness/pbt"
)

func TestMain(m *testing.M) {
	if os.Getenv("VERIF_FAKE") != "" {
		p34Process()
	}
	if os.Getenv("VERIF_LIST") != "" {
		fmt.Println(pbt.List())
		return
	}
	if os.Getenv("VERIF_DICT") != "" { // see tools/gen_dict.sh
		b, _ := json.MarshalIndent(readDict(), "", " ")
		fmt.Println(string(b))
		return
	}
	log.SetOutput(io.Discard) // the library logs every connection error
	os.Exit(m.Run())
}

func TestVerif(t *testing.T) { pbt.Main(t) }
