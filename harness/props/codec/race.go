//go:build race

package main

import "runtime"

func races() int { return runtime.RaceErrors() }
