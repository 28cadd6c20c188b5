// Package zzpoint is the scheduling point that the check A10 adds to the functions of the libraries
package zzpoint

// F is called at each point, when set
var F func()

// P is a point
func P() {
	if F != nil {
		F()
	}
}
