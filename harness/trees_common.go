package main

import (
	"bytes"
	"crypto/sha512"
	"fmt"

	"github.com/steve-care-software/rodkina/libs/cryptography/domain/hashtrees"
)

// leafHash is the hash of a block: a block of 64 bytes is already a hash
func leafHash(block []byte) []byte {
	if len(block) == 64 {
		return append([]byte{}, block...)
	}
	h := sha512.Sum512(block)
	return h[:]
}

// verifyTree compares each node of a tree with the independent computation of it
func verifyTree(tree hashtrees.HashTree, blocks [][]byte) error {
	leaves := [][]byte{}
	for _, b := range blocks {
		leaves = append(leaves, leafHash(b))
	}
	levels := merkle(leaves)
	depth := len(levels) - 1
	if tree == nil {
		return fmt.Errorf("there is no tree")
	}
	if !bytes.Equal(tree.Head(), levels[depth][0]) {
		return fmt.Errorf("the head is %x, expected %x", []byte(tree.Head())[:4], levels[depth][0][:4])
	}
	if tree.Height() != uint(depth+1) {
		return fmt.Errorf("the height is %d, expected %d", tree.Height(), depth+1)
	}

	var walk func(leaf hashtrees.Leaf, level int, index int) error
	walk = func(leaf hashtrees.Leaf, level int, index int) error {
		if leaf == nil {
			return fmt.Errorf("the node %d of level %d is missing", index, level)
		}
		if !bytes.Equal(leaf.Head(), levels[level][index]) {
			return fmt.Errorf("the node %d of level %d is %x, expected %x", index, level, []byte(leaf.Head())[:4], levels[level][index][:4])
		}
		if leaf.Height() != uint(level) {
			return fmt.Errorf("the height of node %d of level %d is %d", index, level, leaf.Height())
		}
		if level == 0 {
			if leaf.HasParent() {
				return fmt.Errorf("the leaf %d has children", index)
			}
			return nil
		}
		if !leaf.HasParent() {
			return fmt.Errorf("the node %d of level %d has no children", index, level)
		}
		if err := walk(leaf.Parent().Left(), level-1, index*2); err != nil {
			return err
		}
		return walk(leaf.Parent().Right(), level-1, index*2+1)
	}
	if err := walk(tree.Parent().Left(), depth-1, 0); err != nil {
		return err
	}
	return walk(tree.Parent().Right(), depth-1, 1)
}
