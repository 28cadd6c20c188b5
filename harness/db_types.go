package main

import (
	"github.com/steve-care-software/rodkina/libs/cryptography/domain/hash"
	"github.com/steve-care-software/rodkina/libs/databases/domain/references"
)

type pointerT = references.Pointer

func hashesOf(list ...[]byte) []hash.Hash {
	out := []hash.Hash{}
	for _, one := range list {
		out = append(out, toHash(one))
	}
	return out
}
