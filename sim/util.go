package main

import (
	"fmt"
	"sort"
	"strconv"
)

func quote(s string) string { return strconv.Quote(s) }
func oct(m uint32) string   { return fmt.Sprintf("%o", m) }

func sorted(s []string) []string { sort.Strings(s); return s }
