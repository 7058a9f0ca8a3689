package es

import (
	"io"
	"log"
	"testing"

	"verifharness/pbt"
)

func TestMain(m *testing.M) {
	log.SetOutput(io.Discard) // the client reports every refused call
	pbt.Main(m)
}

func TestPBT(t *testing.T) { pbt.RunAll(t) }
