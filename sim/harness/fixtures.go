package main

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"hash/crc32"
	"os"
	"path/filepath"
	"sort"
)

// Blob is a pre-compressed sample: packed decodes to plain with props.
type Blob struct {
	ID     int
	Method string
	Props  []byte
	Plain  []byte
	Packed []byte
	Kind   string
	Note   string
}

var (
	blobs     map[string][]*Blob
	realFiles map[string][]byte
	realNames []string
)

func loadFixtures(dir string) error {
	js, err := os.ReadFile(filepath.Join(dir, "index.json"))
	if err != nil {
		return err
	}
	data, err := os.ReadFile(filepath.Join(dir, "data.bin"))
	if err != nil {
		return err
	}
	var ix struct {
		Plains []struct {
			O, N int
			C    uint32
			K    string
		}
		Blobs []struct {
			M, P    string
			I, O, N int
			T       string
		}
	}
	if err := json.Unmarshal(js, &ix); err != nil {
		return err
	}
	blobs = map[string][]*Blob{}
	for i, b := range ix.Blobs {
		p := ix.Plains[b.I]
		props, _ := hex.DecodeString(b.P)
		bl := &Blob{ID: i, Method: b.M, Props: props, Plain: data[p.O : p.O+p.N], Packed: data[b.O : b.O+b.N], Kind: p.K, Note: b.T}
		if crc32.ChecksumIEEE(bl.Plain) != p.C {
			return fmt.Errorf("fixture %d is damaged", i)
		}
		blobs[b.M] = append(blobs[b.M], bl)
	}
	realFiles = map[string][]byte{}
	ents, err := os.ReadDir(filepath.Join(dir, "real"))
	if err != nil {
		return err
	}
	for _, e := range ents {
		b, err := os.ReadFile(filepath.Join(dir, "real", e.Name()))
		if err != nil {
			return err
		}
		realFiles[e.Name()] = b
		realNames = append(realNames, e.Name())
	}
	sort.Strings(realNames)

	return nil
}
