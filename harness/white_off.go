//go:build !whitebox

package main

import "github.com/booleworks/logicng-go/sat"

func (e *Ep) whiteLearned(_ *sat.Solver) [][]int { return nil }
