package hx

import (
	"io"
	"log"
	"os"
)

func init() {
	if os.Getenv("HX_VERBOSE") == "" {
		log.SetOutput(io.Discard)
	}
}
